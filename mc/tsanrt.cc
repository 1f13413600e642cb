// Run-time behind -fsanitize=thread instrumentation: it detects nothing by itself, it
// turns memory accesses of the instrumented files into scheduling points.
#include <cstdint>
#include <cstring>
#include "mc.h"
namespace mc { void MemPoint(const void* a, bool atomic_load, uint64_t val, bool write, int kind, const void* pc); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) \
  void __tsan_read##n(void* a) { mc::MemPoint(a, false, 0, false, 0, __builtin_return_address(0)); } \
  void __tsan_write##n(void* a) { mc::MemPoint(a, false, 0, true, 0, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* a) { mc::MemPoint(a, false, 0, false, 0, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* a) { mc::MemPoint(a, false, 0, true, 0, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* a) { mc::MemPoint(a, false, 0, false, 0, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* a) { mc::MemPoint(a, false, 0, true, 0, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t) { mc::MemPoint(a, false, 0, false, 0, __builtin_return_address(0)); }
void __tsan_write_range(void* a, size_t) { mc::MemPoint(a, false, 0, true, 0, __builtin_return_address(0)); }
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int) { T v = __atomic_load_n(a, 5); mc::MemPoint((const void*)a, true, (uint64_t)v, false, 1, __builtin_return_address(0)); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) { mc::MemPoint((const void*)a, false, 0, true, 1, __builtin_return_address(0)); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { mc::MemPoint((const void*)a, false, 0, true, (n == 32 ? 2 : 1), __builtin_return_address(0)); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { mc::MemPoint((const void*)a, false, 0, true, (n == 32 ? 2 : 1), __builtin_return_address(0)); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { mc::MemPoint((const void*)a, false, 0, true, (n == 32 ? 2 : 1), __builtin_return_address(0)); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { mc::MemPoint((const void*)a, false, 0, true, (n == 32 ? 2 : 1), __builtin_return_address(0)); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { mc::MemPoint((const void*)a, false, 0, true, (n == 32 ? 2 : 1), __builtin_return_address(0)); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { mc::MemPoint((const void*)a, false, 0, true, (n == 32 ? 2 : 1), __builtin_return_address(0)); return __atomic_fetch_xor(a, v, 5); } \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { T c = __atomic_load_n(a, 5); mc::MemPoint((const void*)a, c != *e, (uint64_t)c, c == *e, 1, __builtin_return_address(0)); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { T c = __atomic_load_n(a, 5); mc::MemPoint((const void*)a, c != *e, (uint64_t)c, c == *e, 1, __builtin_return_address(0)); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
