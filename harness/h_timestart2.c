//@ case property=T02 name=case_start_before reach=done qtime=100 ttime=600 bounds="the constructors run in the order of linking, the library linked behind the two clock libraries; any later time below 2^33 s"
//@ build first=sphgettime.c,sphgtod.c
#include "time_start.h"
void case_start_before(void) { started(); }
