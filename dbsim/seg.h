/* A database segment made by the code under test, mapped once per client at
 * different addresses.  The image is made once per size and copied for each run. */
#pragma once
#include "harness.h"
#include <cmath>
extern "C" {
#define class class_
#define round round_db_
#include "../config.h"
#include "dballoc.h"
#include "dbmem.h"
#include "dblock.h"
#include "dbdata.h"
#include "dbhash.h"
#include "dbindex.h"
#include "dbquery.h"
#include "dbcompare.h"
#include "dbdump.h"
#include "dbutil.h"
#undef class
#undef round
}
static const int SEG_CLIENTS = 8;
struct Seg {
  size_t size; int fd; char *map[SEG_CLIENTS]; std::vector<char> snap;
  char *base() { return map[0]; }
  void reset();            /* back to the fresh image, maps registered with the simulated system */
};
/* slot: several segments of one run live side by side */
Seg &segment(size_t size, int slot = 0);
