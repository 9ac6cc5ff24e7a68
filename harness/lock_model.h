#ifndef LOCK_MODEL_H
#define LOCK_MODEL_H
#include "common.h"
#include "saslock.h"
#include "sassimpleheap.h"
#define LOCKMEM ((void *)__SAS_TEMP_ADDRESS)
/* ghost state: who holds which of the harness' addresses; written only at the instant after a grant / before a release */
static struct { int readers, writers; } held[8];
static void granted(int a, int w) {
  if (w) se_assert(held[a].readers == 0 && held[a].writers == 0, "[L01] a writer is admitted while the address is held");
  else se_assert(held[a].writers == 0, "[L01] a reader is admitted while a writer holds the address");
  if (w) held[a].writers++; else held[a].readers++; }
static void releasing(int a, int w) { if (w) held[a].writers--; else held[a].readers--; }
#endif
