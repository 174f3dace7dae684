// Memory of the simulator itself comes from an arena of its own, so that the
// heap of the code under test does not depend on what the simulator records.
// operator new is private to libdsim.so; operator delete is exported and
// handles memory of either origin.
#include <sys/mman.h>

#include <cstdint>
#include <cstdlib>
#include <new>

namespace {
constexpr std::uintptr_t kBase = 0x100000000000ULL;
constexpr std::uintptr_t kSize = 64ULL << 30U;
std::uintptr_t g_bump = 0;
struct Node {
    Node* next;
};
Node* g_free[64];

inline int Class(std::size_t n) {
    int c = 5;
    while ((std::size_t{1} << static_cast<unsigned>(c)) < n) {
        ++c;
    }
    return c;
}
void* ArenaAlloc(std::size_t n) {
    if (g_bump == 0) {
        void* p = mmap(reinterpret_cast<void*>(kBase),
                       kSize,
                       PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                           MAP_FIXED_NOREPLACE,
                       -1,
                       0);
        if (p != reinterpret_cast<void*>(kBase)) {
            __builtin_trap();
        }
        g_bump = kBase;
    }
    int const c = Class(n + 16);
    auto*& fl = g_free[c];
    char* p = nullptr;
    if (fl != nullptr) {
        p = reinterpret_cast<char*>(fl);
        fl = fl->next;
    }
    else {
        p = reinterpret_cast<char*>(g_bump);
        g_bump += std::uintptr_t{1} << static_cast<unsigned>(c);
    }
    *reinterpret_cast<std::uint64_t*>(p) = static_cast<std::uint64_t>(c);
    return p + 16;
}
inline bool Mine(void* p) {
    auto const v = reinterpret_cast<std::uintptr_t>(p);
    return v >= kBase and v < kBase + kSize;
}
void AnyFree(void* p) {
    if (p == nullptr) {
        return;
    }
    if (not Mine(p)) {
        free(p);
        return;
    }
    char* q = static_cast<char*>(p) - 16;
    auto const c = *reinterpret_cast<std::uint64_t*>(q);
    auto* n = reinterpret_cast<Node*>(q);
    n->next = g_free[c];
    g_free[c] = n;
}
}  // namespace

void* operator new(std::size_t n) {
    return ArenaAlloc(n);
}
void* operator new[](std::size_t n) {
    return ArenaAlloc(n);
}
void* operator new(std::size_t n, std::nothrow_t const&) noexcept {
    return ArenaAlloc(n);
}
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept {
    return ArenaAlloc(n);
}
void operator delete(void* p) noexcept {
    AnyFree(p);
}
void operator delete[](void* p) noexcept {
    AnyFree(p);
}
void operator delete(void* p, std::size_t) noexcept {
    AnyFree(p);
}
void operator delete[](void* p, std::size_t) noexcept {
    AnyFree(p);
}
