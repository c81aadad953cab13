/* The callbacks gcc -fsanitize=thread emits, as scheduling points. */
#include "sim.h"
#define AX extern "C" __attribute__((used))
static inline void acc(const void *a, int kind) {
  if (!S.on) return;
  if ((char *)a >= arena_lo && (char *)a < arena_hi) S.access(a, kind);
  else S.step();
}
AX void __tsan_init() {}
AX void __tsan_func_entry(void *) { if (S.on) S.step(); }
AX void __tsan_func_exit() {}
#define RW(n) \
  AX void __tsan_read##n(void *a) { acc(a, 0); } \
  AX void __tsan_write##n(void *a) { acc(a, 0); } \
  AX void __tsan_read##n##_pc(void *a, void *) { acc(a, 0); } \
  AX void __tsan_write##n##_pc(void *a, void *) { acc(a, 0); } \
  AX void __tsan_unaligned_read##n(void *a) { acc(a, 0); } \
  AX void __tsan_unaligned_write##n(void *a) { acc(a, 0); } \
  AX void __tsan_volatile_read##n(void *a) { acc(a, 1); } \
  AX void __tsan_volatile_write##n(void *a) { acc(a, 1); } \
  AX void __tsan_unaligned_volatile_read##n(void *a) { acc(a, 1); } \
  AX void __tsan_unaligned_volatile_write##n(void *a) { acc(a, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
AX void __tsan_read_range(void *a, unsigned long) { acc(a, 0); }
AX void __tsan_write_range(void *a, unsigned long) { acc(a, 0); }
AX void __tsan_vptr_update(void **, void *) {}
AX void __tsan_vptr_read(void **) {}
#define AT(bits, T) \
  AX T __tsan_atomic##bits##_load(const volatile T *a, int) { acc((void *)a, 2); return *a; } \
  AX void __tsan_atomic##bits##_store(volatile T *a, T v, int) { acc((void *)a, 2); *a = v; } \
  AX T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { acc((void *)a, 2); T o = *a; *a = v; return o; } \
  AX T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { acc((void *)a, 2); T o = *a; *a = o + v; return o; } \
  AX T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { acc((void *)a, 2); T o = *a; *a = o - v; return o; } \
  AX T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { acc((void *)a, 2); T o = *a; *a = o & v; return o; } \
  AX T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { acc((void *)a, 2); T o = *a; *a = o | v; return o; } \
  AX T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { acc((void *)a, 2); T o = *a; *a = o ^ v; return o; } \
  AX T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { acc((void *)a, 2); T o = *a; *a = ~(o & v); return o; } \
  AX int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { \
    acc((void *)a, 2); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  AX int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { \
    acc((void *)a, 2); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  AX T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { \
    acc((void *)a, 2); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
AX void __tsan_atomic_thread_fence(int) { if (S.on) S.step(); }
AX void __tsan_atomic_signal_fence(int) {}
