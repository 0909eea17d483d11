// Stand-ins for the functions that calls are inserted to with
// -Zsanitizer=thread: atomic operations are points where another thread of the
// schedule may go on; everything else does nothing.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
void hs_atomic_point(void);
#define N(f) void f(void *p) { (void)p; }
#define A(n, T) \
  T __tsan_atomic##n##_load(const volatile T *a, int o) { hs_atomic_point(); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##n##_store(volatile T *a, T v, int o) { hs_atomic_point(); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int o) { hs_atomic_point(); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int o) { if (o) hs_atomic_point(); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int o) { if (o) hs_atomic_point(); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int o) { hs_atomic_point(); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int o) { hs_atomic_point(); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int o) { hs_atomic_point(); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int o) { hs_atomic_point(); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { hs_atomic_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { hs_atomic_point(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { hs_atomic_point(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *a, const void *b, size_t n) { return memcpy(a, b, n); }
void *__tsan_memmove(void *a, const void *b, size_t n) { return memmove(a, b, n); }
void *__tsan_memset(void *a, int c, size_t n) { return memset(a, c, n); }
void __tsan_vptr_update(void *a, void *b) {}
void __tsan_read_range(void *a, size_t n) {}
void __tsan_write_range(void *a, size_t n) {}
N(__tsan_vptr_read) 
#define R(n) N(__tsan_read##n) N(__tsan_write##n) N(__tsan_unaligned_read##n) N(__tsan_unaligned_write##n) N(__tsan_read_write##n) N(__tsan_unaligned_read_write##n)
R(1) R(2) R(4) R(8) R(16)
