// Typed fields and attributes of queue and log entries (src/sphlfentry.h, src/sphlflogentry.h).
//@ case property=Q08 name=case_fields_queue reach=added,refused,read,end quick="--param=fields=2" thorough="--param=fields=3" qtime=200 ttime=2400 bounds="2 (3) fields of any of the ten kinds with every value (strings of up to 3 characters, structures of 1 to 24 bytes aligned to 1 to 16), entries with 0 to 48 bytes of room behind a 4 or 16 byte header; every byte of the surroundings compared"
//@ case property=Q08 name=case_fields_log reach=added,refused,read,end quick="--param=fields=2" thorough="--param=fields=3" qtime=200 ttime=2400 bounds="as case_fields_queue for log entries"
//@ case property=Q08 name=case_attr_queue reach=valid,invalid qtime=60 bounds="every header (id, process, thread, time stamp), the three ways to complete an entry"
//@ case property=Q08 name=case_attr_log reach=valid,invalid qtime=60 bounds="as case_attr_queue for log entries"
#include <string.h>
#include "common.h"
#include "sphlfentry.h"
#include "sphlflogentry.h"
#define BUF 0x30000000ul
#define AREA 80
static unsigned char shadow[AREA];
#define F SPHLFEntry
#define A SPHLFEntry
#define FN2(x) SPHLFEntry##x
#define HANDLE SPHLFEntryHandle_t
#define HEADER SPHLFEntryHeader_t
#define SUF _q
#include "field_body.h"
#undef F
#undef A
#undef FN2
#undef HANDLE
#undef HEADER
#undef SUF
#define F SPHLFlogEntry
#define A SPHLFLogEntry
#define FN2(x) SPHLFLogEntry##x
#define HANDLE SPHLFLoggerHandle_t
#define HEADER SPHLFLogHeader_t
#define SUF _l
#include "field_body.h"
void case_fields_queue(void) { fields_q(); }
void case_fields_log(void) { fields_l(); }
void case_attr_queue(void) { attributes_q(); }
void case_attr_log(void) { attributes_l(); }
