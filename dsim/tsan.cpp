// Entry points the compiler inserts with -fsanitize=thread: every plain
// memory access is a possible preemption point, every atomic operation a
// synchronisation point of the simulator.
#include <cstdint>
#include <cstring>

#include "rt.hpp"

using namespace sim;
#define P MemPoint()
#define S SyncPoint()
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                     \
    void __tsan_read##n(void*) { P; }             \
    void __tsan_write##n(void*) { P; }            \
    void __tsan_unaligned_read##n(void*) { P; }   \
    void __tsan_unaligned_write##n(void*) { P; }  \
    void __tsan_volatile_read##n(void*) { P; }    \
    void __tsan_volatile_write##n(void*) { P; }   \
    void __tsan_read_write##n(void*) { P; }       \
    void __tsan_unaligned_read_write##n(void*) { P; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { P; }
void __tsan_write_range(void*, unsigned long) { P; }
void __tsan_vptr_update(void**, void*) { P; }
void __tsan_vptr_read(void**) { P; }
void* __tsan_memcpy(void* d, void const* s, unsigned long n) {
    P;
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, void const* s, unsigned long n) {
    P;
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
    P;
    return memset(d, c, n);
}
#define AT(bits, T)                                                           \
    T __tsan_atomic##bits##_load(T const volatile* a, int) {                  \
        S;                                                                    \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                          \
    }                                                                         \
    void __tsan_atomic##bits##_store(T volatile* a, T v, int) {               \
        S;                                                                    \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                             \
    }                                                                         \
    T __tsan_atomic##bits##_exchange(T volatile* a, T v, int) {               \
        S;                                                                    \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                   \
    }                                                                         \
    T __tsan_atomic##bits##_fetch_add(T volatile* a, T v, int) {              \
        S;                                                                    \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                         \
    T __tsan_atomic##bits##_fetch_sub(T volatile* a, T v, int) {              \
        S;                                                                    \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                         \
    T __tsan_atomic##bits##_fetch_and(T volatile* a, T v, int) {              \
        S;                                                                    \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                         \
    T __tsan_atomic##bits##_fetch_or(T volatile* a, T v, int) {               \
        S;                                                                    \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                         \
    T __tsan_atomic##bits##_fetch_xor(T volatile* a, T v, int) {              \
        S;                                                                    \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                         \
    T __tsan_atomic##bits##_fetch_nand(T volatile* a, T v, int) {             \
        S;                                                                    \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                   \
    }                                                                         \
    int __tsan_atomic##bits##_compare_exchange_strong(                        \
        T volatile* a, T* c, T v, int, int) {                                 \
        S;                                                                    \
        return __atomic_compare_exchange_n(                                   \
            a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);              \
    }                                                                         \
    int __tsan_atomic##bits##_compare_exchange_weak(                          \
        T volatile* a, T* c, T v, int, int) {                                 \
        S;                                                                    \
        return __atomic_compare_exchange_n(                                   \
            a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);              \
    }                                                                         \
    T __tsan_atomic##bits##_compare_exchange_val(                             \
        T volatile* a, T c, T v, int, int) {                                  \
        S;                                                                    \
        __atomic_compare_exchange_n(                                          \
            a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
        return c;                                                             \
    }
AT(8, std::uint8_t)
AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) { S; }
void __tsan_atomic_signal_fence(int) {}
}
