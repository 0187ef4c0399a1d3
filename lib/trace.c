/* Access recorder: the library is compiled with -fsanitize=thread and linked against these callbacks, so that a
   harness sees which addresses a call read.  Single threaded. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
void (*tr_access) (const void * p, size_t n, int write);
static inline void acc (const void * p, size_t n, int w) { if (tr_access) tr_access (p, n, w); }
#define A(sz) \
  void __tsan_read##sz (void * p) { acc (p, sz, 0); } void __tsan_write##sz (void * p) { acc (p, sz, 1); } \
  void __tsan_unaligned_read##sz (void * p) { acc (p, sz, 0); } void __tsan_unaligned_write##sz (void * p) { acc (p, sz, 1); } \
  void __tsan_volatile_read##sz (void * p) { acc (p, sz, 0); } void __tsan_volatile_write##sz (void * p) { acc (p, sz, 1); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range (void * p, long n) { acc (p, (size_t) n, 0); }
void __tsan_write_range (void * p, long n) { acc (p, (size_t) n, 1); }
void __tsan_vptr_update (void * a, void * b) { (void) a; (void) b; }
void __tsan_func_entry (void * pc) { (void) pc; }
void __tsan_func_exit (void) { }
void __tsan_init (void) { }
void __tsan_atomic_thread_fence (int mo) { (void) mo; __sync_synchronize (); }
void __tsan_atomic_signal_fence (int mo) { (void) mo; }
#define AT(b, T) \
  T __tsan_atomic##b##_load (const volatile T * p, int mo) { (void) mo; return *p; } \
  void __tsan_atomic##b##_store (volatile T * p, T v, int mo) { (void) mo; *p = v; } \
  T __tsan_atomic##b##_exchange (volatile T * p, T v, int mo) { (void) mo; return __atomic_exchange_n (p, v, 5); } \
  T __tsan_atomic##b##_fetch_add (volatile T * p, T v, int mo) { (void) mo; return __atomic_fetch_add (p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub (volatile T * p, T v, int mo) { (void) mo; return __atomic_fetch_sub (p, v, 5); } \
  T __tsan_atomic##b##_fetch_and (volatile T * p, T v, int mo) { (void) mo; return __atomic_fetch_and (p, v, 5); } \
  T __tsan_atomic##b##_fetch_or (volatile T * p, T v, int mo) { (void) mo; return __atomic_fetch_or (p, v, 5); } \
  T __tsan_atomic##b##_fetch_xor (volatile T * p, T v, int mo) { (void) mo; return __atomic_fetch_xor (p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong (volatile T * p, T * e, T v, int mo, int f) { (void) mo; (void) f; return __atomic_compare_exchange_n (p, e, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak (volatile T * p, T * e, T v, int mo, int f) { (void) mo; (void) f; return __atomic_compare_exchange_n (p, e, v, 0, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val (volatile T * p, T e, T v, int mo, int f) { (void) mo; (void) f; __atomic_compare_exchange_n (p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
