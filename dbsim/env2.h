#pragma once
#include "sim.h"
struct Disk {
  std::map<std::string, std::string> files;
  size_t cap = (size_t)1 << 40;
  u64 calls = 0; int open_files = 0; double p_die = 0;
  void reset() { files.clear(); cap = (size_t)1 << 40; calls = 0; open_files = 0; p_die = 0; }
};
extern Disk D;
struct ShmLog { char what; int proc, key, id; };
struct ShmOpts { size_t total = (size_t)1 << 40; std::vector<ShmLog> log; char *base(); };
extern ShmOpts SO;
void shm_reset();
void shm_process_gone(int proc);
