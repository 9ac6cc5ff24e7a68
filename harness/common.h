#ifndef COMMON_H
#define COMMON_H
#include "se.h"
#include "env_ctl.h"
#include "sassim.h"
#include "sasalloc.h"
#define BASE ((unsigned long)__SAS_BASE_ADDRESS)
/* the real start-up path: creates the store's anchor segment, the region trees and the lock tables */
static inline void region_join(void) { int rc = SASJoinRegionByName("store"); se_assert(rc == 0, "joining a new store succeeds"); }
#define U(x) ((unsigned long)(x))
#endif
