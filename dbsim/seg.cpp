#include "seg.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
static std::map<std::pair<size_t, int>, Seg *> all;
static const size_t AREA = (size_t)1 << 26;     /* 64 MB of addresses per map */
Seg &segment(size_t size, int slot) {
  Seg *&s = all[{size, slot}];
  if (s) return *s;
  s = new Seg;
  s->size = size;
  bool on = S.on; S.on = false;
  char *p = (char *)wg_attach_local_database(size);
  S.on = on;
  if (!p) { fprintf(stderr, "cannot make a segment of %zu bytes\n", size); exit(2); }
  s->snap.assign(p, p + size);
  wg_delete_local_database(p);
  s->fd = memfd_create("seg", 0);
  if (ftruncate(s->fd, size)) exit(2);
  for (int i = 0; i < SEG_CLIENTS; i++) s->map[i] = nullptr;
  return *s;
}
void Seg::reset() {
  static std::map<char *, Seg *> owner;
  int slot = 0;
  for (auto &x : all) if (x.second == this) slot = x.first.second;
  for (int i = 0; i < SEG_CLIENTS; i++) {
    /* not a constant distance apart, and above the part the lock checks use */
    char *a = arena_lo + ((size_t)1 << 30) + (size_t)(slot * SEG_CLIENTS + i) * AREA + (size_t)(i * 3 + slot) * 4096;
    if (map[i] == a && owner[a] == this) continue;
    void *m = mmap(a, (size + 4095) & ~4095ul, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
    if (m == MAP_FAILED) { perror("map"); exit(2); }
    map[i] = a; owner[a] = this;
  }
  memcpy(map[0], snap.data(), size);
  int segid = 1 + slot;
  std::vector<ShmMap> keep;
  for (auto &m : W.maps) if (m.seg != segid) keep.push_back(m);
  W.maps = keep;
  for (int i = 0; i < SEG_CLIENTS; i++) W.maps.push_back({map[i], size, segid, i, false});
}
