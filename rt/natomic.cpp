// Natively, atomic operations as schedule points: the code is compiled with -fsanitize=thread restricted to atomics, and
// these are the functions that it then calls. Each is a preemption point (nsched.cpp), then the operation itself.
#include <cstdint>
extern "C" void sx_atomic_point(void *ra);
typedef unsigned __int128 u128;
#define P sx_atomic_point(__builtin_return_address(0))
#define SC __ATOMIC_SEQ_CST
#define OPS(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int) { P; return __atomic_load_n(a, SC); } \
void __tsan_atomic##N##_store(volatile T *a, T v, int) { P; __atomic_store_n(a, v, SC); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { P; return __atomic_exchange_n(a, v, SC); } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { P; return __atomic_fetch_add(a, v, SC); } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { P; return __atomic_fetch_sub(a, v, SC); } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { P; return __atomic_fetch_and(a, v, SC); } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { P; return __atomic_fetch_or(a, v, SC); } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { P; return __atomic_fetch_xor(a, v, SC); } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { P; return __atomic_fetch_nand(a, v, SC); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { P; return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { P; __atomic_compare_exchange_n(a, &c, v, false, SC, SC); return c; }
extern "C" {
OPS(8, uint8_t) OPS(16, uint16_t) OPS(32, uint32_t) OPS(64, uint64_t)
void __tsan_init() {}
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int) {}
}
