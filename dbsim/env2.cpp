/* Simulated System V segments, disk files and memory allocation. */
#include "env2.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/shm.h>
#include <sys/stat.h>
#include <unistd.h>

/* ---------- shared memory ---------- */
ShmOpts SO;
static const size_t SLOT = (size_t)1 << 26;
static u64 shm_next_addr;
static std::vector<char> shm_slot_used;
static const int NSLOTS = 48;

static int sysdec(std::initializer_list<int> errs) {
  return (int)S.decide(DC_SYS, [&]() -> i64 {
    if (!S.rng.chance(S.pol.p_sys)) return 0;
    std::vector<int> v(errs);
    return v[S.rng.below(v.size())];
  });
}
static void maybe_die_sys() {
  i64 d = S.decide(DC_USER, [&]() -> i64 { return S.pol.p_die > 0 && S.rng.chance(S.pol.p_die) ? 1 : 0; });
  if (d) S.die();
}
static void drop_map(size_t i) {
  ShmMap m = W.maps[i];
  size_t slot = ((char *)m.addr - SO.base()) / SLOT;
  mmap(m.addr, (m.len + 4095) & ~4095ul, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (slot < shm_slot_used.size()) shm_slot_used[slot] = 0;
  W.maps.erase(W.maps.begin() + i);
  ShmSeg &s = W.segs[m.seg];
  s.nattch--;
  if (s.rmid && s.nattch == 0) { s.live = false; close(s.fd); s.fd = -1; }
}
void shm_reset() {
  for (size_t i = W.maps.size(); i-- > 0;) if ((char *)W.maps[i].addr >= SO.base()) {
    ShmMap m = W.maps[i];
    mmap(m.addr, (m.len + 4095) & ~4095ul, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  }
  for (auto &s : W.segs) if (s.fd >= 0) close(s.fd);
  W.maps.clear(); W.segs.clear(); W.nextid = 100;
  shm_slot_used.assign(NSLOTS, 0);
  shm_next_addr = 0;
}
char *ShmOpts::base() { return arena_lo + ((size_t)4 << 30); }
void shm_process_gone(int proc) { for (size_t i = W.maps.size(); i-- > 0;) if (W.maps[i].proc == proc && (char *)W.maps[i].addr >= SO.base()) drop_map(i); }

static int find_key(int key) { for (auto &s : W.segs) if (s.live && !s.rmid && s.key == key) return s.id; return -1; }
static ShmSeg *by_id(int id) { for (auto &s : W.segs) if (s.live && s.id == id) return &s; return nullptr; }

extern "C" int __wrap_shmget(int key, size_t size, int flg) {
  if (!S.on) { errno = ENOSYS; return -1; }
  S.step(); S.access(arena_lo, 1); maybe_die_sys();
  int e = sysdec({ENOMEM, EACCES, ENOENT, EINVAL});
  if (e == ENOENT && (flg & IPC_CREAT)) e = ENOSPC;
  if (e) { S.faults["shmget_" + std::to_string(e)]++; S.ev("shmget(%d,%zu,%o) fails with %d", key, size, flg, e); errno = e; return -1; }
  int id = key == IPC_PRIVATE ? -1 : find_key(key);
  if (id >= 0) {
    ShmSeg *s = by_id(id);
    if ((flg & (IPC_CREAT | IPC_EXCL)) == (IPC_CREAT | IPC_EXCL)) { S.ev("shmget(%d): EEXIST", key); errno = EEXIST; return -1; }
    if (size > s->size) { S.ev("shmget(%d): too small", key); errno = EINVAL; return -1; }
    S.ev("shmget(%d) -> %d", key, id);
    return id;
  }
  if (!(flg & IPC_CREAT)) { S.ev("shmget(%d): ENOENT", key); errno = ENOENT; return -1; }
  size_t tot = 0;
  for (auto &s : W.segs) if (s.live) tot += s.size;
  if (size == 0 || size > SLOT - 65536) { S.ev("shmget(%d,%zu): EINVAL", key, size); errno = EINVAL; return -1; }
  if (tot + size > SO.total) { S.ev("shmget(%d,%zu): ENOSPC", key, size); S.faults["shm_limit"]++; errno = ENOSPC; return -1; }
  int fd = memfd_create("s", 0);
  if (fd < 0 || ftruncate(fd, (size + 4095) & ~4095ul)) { perror("memfd"); _exit(2); }
  id = W.nextid++;
  W.segs.push_back({id, key, size, fd, flg & 0777, 0, false, true, cur_proc()});
  S.ev("shmget(%d,%zu) creates %d", key, size, id);
  SO.log.push_back({'c', cur_proc(), key, id});
  return id;
}
extern "C" void *__wrap_shmat(int id, const void *, int flg) {
  if (!S.on) { errno = ENOSYS; return (void *)-1; }
  S.step(); S.access(arena_lo, 1); maybe_die_sys();
  int e = sysdec({ENOMEM, EACCES, EINVAL});
  if (e) { S.faults["shmat_" + std::to_string(e)]++; S.ev("shmat(%d) fails with %d", id, e); errno = e; return (void *)-1; }
  ShmSeg *s = by_id(id);
  if (!s) { S.ev("shmat(%d): EINVAL", id); errno = EINVAL; return (void *)-1; }
  int slot = -1;
  for (int k = 0; k < NSLOTS && slot < 0; k++) if (!shm_slot_used[(shm_next_addr + k) % NSLOTS]) slot = (shm_next_addr + k) % NSLOTS;
  if (slot < 0) { S.faults["shmat_nospace"]++; errno = ENOMEM; return (void *)-1; }
  shm_next_addr = slot + 1;
  shm_slot_used[slot] = 1;
  char *a = SO.base() + (size_t)slot * SLOT + (size_t)(slot % 5) * 4096;
  size_t len = (s->size + 4095) & ~4095ul;
  bool ro = flg & SHM_RDONLY;
  if (mmap(a, len, ro ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, s->fd, 0) == MAP_FAILED) { perror("mmap"); _exit(2); }
  s->nattch++;
  W.maps.push_back({a, len, (int)(s - &W.segs[0]), cur_proc(), ro});
  S.ev("shmat(%d) %s", id, ro ? "read only" : "read write");
  return a;
}
extern "C" int __wrap_shmdt(const void *a) {
  if (!S.on) return 0;
  S.step(); S.access(arena_lo, 1); maybe_die_sys();
  for (size_t i = 0; i < W.maps.size(); i++) if (W.maps[i].addr == a && (char *)a >= SO.base()) { S.ev("shmdt"); drop_map(i); return 0; }
  errno = EINVAL;
  S.ev("shmdt: EINVAL");
  return -1;
}
extern "C" int __wrap_shmctl(int id, int cmd, struct shmid_ds *b) {
  if (!S.on) { errno = ENOSYS; return -1; }
  S.step(); S.access(arena_lo, 1); maybe_die_sys();
  int e = sysdec({EPERM, EACCES, EINVAL});
  if (e) { S.faults["shmctl_" + std::to_string(e)]++; S.ev("shmctl(%d) fails with %d", id, e); errno = e; return -1; }
  ShmSeg *s = by_id(id);
  if (!s) { errno = EINVAL; return -1; }
  if (cmd == IPC_RMID) {
    s->rmid = true;
    SO.log.push_back({'d', cur_proc(), s->key, id});
    S.ev("segment %d removed", id);
    if (s->nattch == 0) { s->live = false; close(s->fd); s->fd = -1; }
    return 0;
  }
  if (cmd == IPC_STAT && b) { memset(b, 0, sizeof *b); b->shm_segsz = s->size; b->shm_perm.mode = s->mode; b->shm_nattch = s->nattch; return 0; }
  errno = EINVAL;
  return -1;
}
extern "C" unsigned __wrap_getuid() { return 1000; }
extern "C" unsigned __wrap_geteuid() { return 1000; }
extern "C" unsigned __wrap_getgid() { return 1000; }
extern "C" unsigned __wrap_getegid() { return 1000; }

/* ---------- memory ---------- */
extern "C" void *__real_malloc(size_t); extern "C" void *__real_calloc(size_t, size_t); extern "C" void *__real_realloc(void *, size_t); extern "C" void __real_free(void *);
static bool mal_fails(size_t n) {
  if (!S.on || S.cur < 0) return false;
  if (S.pol.p_malloc <= 0) return false;
  i64 d = S.decide(DC_MALLOC, [&]() -> i64 { return S.rng.chance(S.pol.p_malloc); });
  if (d) { S.faults["malloc_fail"]++; S.ev("allocation of %zu bytes fails", n); errno = ENOMEM; }
  return d;
}
extern "C" void *__wrap_malloc(size_t n) {
  if (mal_fails(n)) return nullptr;
  char *p = (char *)__real_malloc(n);
  if (p && S.on && S.cur >= 0) memset(p, 0xA5, n < 65536 ? n : 65536);   /* what the program reads before writing is the same in every run */
  return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) { return mal_fails(a * b) ? nullptr : __real_calloc(a, b); }
extern "C" void *__wrap_realloc(void *p, size_t n) { return mal_fails(n) ? nullptr : __real_realloc(p, n); }
extern "C" void __wrap_free(void *p) { __real_free(p); }

/* ---------- disk ---------- */
Disk D;
struct Open { std::string name; size_t pos; bool wr; int proc; u64 ops; size_t written; };
static ssize_t ck_read(void *c, char *buf, size_t n) {
  Open *o = (Open *)c;
  if (!S.on) return 0;
  S.step(); S.access(arena_lo, 1);
  D.calls++;
  std::string &f = D.files[o->name];
  size_t got = o->pos < f.size() ? std::min(n, f.size() - o->pos) : 0;
  i64 d = S.decide(DC_IO, [&]() -> i64 {
    if (D.p_die > 0 && S.rng.chance(D.p_die)) return 4;
    if (!S.rng.chance(S.pol.p_io)) return 0;
    return S.rng.chance(0.5) ? 1 : 2 + 8 * (i64)S.rng.below(5000);
  });
  int k = d & 7;
  if (k == 4) { S.die(); }
  if (k == 1) { S.faults["read_error"]++; S.ev("read of %s fails", o->name.c_str()); errno = EIO; return -1; }
  if (k == 2) { size_t m = 1 + (d >> 3); if (m < got) { got = m; S.faults["short_read"]++; S.ev("short read of %zu", got); } }
  memcpy(buf, f.data() + o->pos, got);
  o->pos += got;
  return got;
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
  Open *o = (Open *)c;
  if (!S.on) return n;
  size_t done = 0;
  /* as glibc does on a descriptor: short writes are continued, an error ends it */
  while (done < n) {
    S.step(); S.access(arena_lo, 1);
    D.calls++;
    size_t want = std::min<size_t>(n - done, 16384);   /* a big write takes time: others run meanwhile */
    i64 d = S.decide(DC_IO, [&]() -> i64 {
      if (D.p_die > 0 && S.rng.chance(D.p_die)) return 4 + 8 * (i64)S.rng.below(want + 1);
      if (!S.rng.chance(S.pol.p_io)) return 0;
      double x = (S.rng.next() >> 11) * (1.0 / 9007199254740992.0);
      if (x < 0.4) return 1;
      return 2 + 8 * (i64)S.rng.below(want);
    });
    int k = d & 7;
    size_t m = want;
    bool err = false;
    if (k == 4) { m = std::min<size_t>(want, d >> 3); }
    if (k == 1) { m = 0; err = true; errno = EIO; S.faults["write_error"]++; S.ev("write to %s fails", o->name.c_str()); }
    if (k == 2) { m = std::min<size_t>(want, 1 + (d >> 3)); if (m < want) { S.faults["short_write"]++; S.ev("short write of %zu", m); } }
    std::string &f = D.files[o->name];
    if (!err) {
      size_t tot = 0; for (auto &x : D.files) tot += x.second.size();
      size_t grow = o->pos + m > f.size() ? o->pos + m - f.size() : 0;
      if (tot + grow > D.cap) {
        size_t room = D.cap > tot ? D.cap - tot : 0;
        m = (f.size() > o->pos ? f.size() - o->pos : 0) + room; if (m > want) m = want;
        if (m == 0) { err = true; errno = ENOSPC; S.faults["disk_full"]++; S.ev("disk full"); }
      }
    }
    if (m && !err) {
      if (f.size() < o->pos + m) f.resize(o->pos + m);
      memcpy(&f[o->pos], buf + done, m);
      o->pos += m; done += m; o->written += m;
    }
    if (k == 4) { S.ev("killed while writing %s, %zu bytes of it", o->name.c_str(), m); S.die(); }
    if (err) return done;
  }
  return done;
}
static int ck_seek(void *c, off64_t *off, int wh) {
  Open *o = (Open *)c;
  if (!S.on) return 0;
  i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o->pos : (i64)D.files[o->name].size();
  i64 d = wh == SEEK_CUR && *off == 0 ? 0 : S.decide(DC_IO, [&]() -> i64 { return S.rng.chance(S.pol.p_io / 2); });
  if (d) { S.faults["seek_error"]++; S.ev("seek fails"); errno = EIO; return -1; }
  if (base + *off < 0) { errno = EINVAL; return -1; }
  o->pos = base + *off; *off = o->pos;
  return 0;
}
static int ck_close(void *c) {
  Open *o = (Open *)c;
  int r = 0;
  if (S.on) {
    i64 d = S.decide(DC_IO, [&]() -> i64 { return o->wr && S.rng.chance(S.pol.p_io) ? 1 + S.rng.below(2) : 0; });
    if (d) {
      S.faults["close_error"]++; S.ev("close of %s fails", o->name.c_str());
      std::string &f = D.files[o->name];
      if (d == 2 && f.size()) f.resize(f.size() - std::min<size_t>(f.size(), 1 + f.size() / 3));   /* delayed writes did not reach the disk */
      errno = EIO; r = -1;
    }
  }
  delete o;
  D.open_files--;
  return r;
}
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *name, const char *mode) {
  if (!S.on) return __real_fopen(name, mode);
  S.step(); S.access(arena_lo, 1);
  D.calls++;
  i64 d = S.decide(DC_IO, [&]() -> i64 { return S.rng.chance(S.pol.p_io); });
  if (d) { S.faults["open_error"]++; S.ev("open of %s fails", name); errno = EMFILE; return nullptr; }
  bool wr = mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+');
  if (mode[0] == 'r' && !D.files.count(name)) { errno = ENOENT; S.ev("open %s: ENOENT", name); return nullptr; }
  if (mode[0] == 'w') D.files[name] = "";
  Open *o = new Open{name, mode[0] == 'a' ? D.files[name].size() : 0, wr, cur_proc(), 0, 0};
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(o, mode, io);
  if (!f) { delete o; return nullptr; }
  D.open_files++;
  S.ev("open %s for %s", name, wr ? "writing" : "reading");
  return f;
}
extern "C" int __wrap_remove(const char *n) { if (S.on) { S.ev("remove %s", n); return D.files.erase(n) ? 0 : (errno = ENOENT, -1); } return -1; }
extern "C" int __wrap_unlink(const char *n) { return __wrap_remove(n); }
extern "C" int __wrap_rename(const char *a, const char *b) {
  if (!S.on || !D.files.count(a)) { errno = ENOENT; return -1; }
  i64 d = S.decide(DC_IO, [&]() -> i64 { return S.rng.chance(S.pol.p_io); });
  if (d) { S.faults["rename_error"]++; errno = EIO; return -1; }
  D.files[b] = D.files[a]; D.files.erase(a); S.ev("rename %s %s", a, b);
  return 0;
}
/* the code under test keeps to stdio today; direct calls are kept off the real system */
extern "C" int __real_open(const char *, int, ...);
extern "C" int __wrap_open(const char *n, int fl, int mode) {
  if (!S.on) return __real_open(n, fl, mode);
  errno = ENOSYS; return -1;
}
extern "C" int __wrap_fsync(int) { return 0; }
extern "C" int __wrap_fdatasync(int) { return 0; }
extern "C" int __wrap_fileno(FILE *) { return 3; }
extern "C" int __wrap_access(const char *n, int) { return D.files.count(n) ? 0 : (errno = ENOENT, -1); }
