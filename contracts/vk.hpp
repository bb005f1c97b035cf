// Contract harness: every CONTRACT is analysed, never executed.
#pragma once
#ifndef EPOCH
#define EPOCH 2026
#endif
#if EPOCH == 2026
#include <pystd2026.hpp>
namespace V = pystd2026;
#define IF26(...) __VA_ARGS__
#define IF25(...)
#else
#include <pystd2025.hpp>
namespace V = pystd2025;
#define IF26(...)
#define IF25(...) __VA_ARGS__
#endif
#undef assert

extern "C" [[noreturn]] void vk_fail(const char *what, int line) noexcept;
extern "C" [[noreturn]] void vk_stop() noexcept;
extern "C" void vk_reach(const char *what, int line) noexcept;
// Follow the content of the 1/4/8 bytes at p exactly, from here on; slot is a literal.
extern "C" void vk_watch8(int slot, const void *p) noexcept;
extern "C" void vk_watch32(int slot, const void *p) noexcept;
extern "C" void vk_watch64(int slot, const void *p) noexcept;
// Follow loops separately for every index variable below, at and above k.
extern "C" void vk_side(size_t k) noexcept;
// Was the byte at p accessed (read or written) since it was put under guard?
extern "C" void vk_guard(int slot, const void *p) noexcept;
extern "C" int vk_guard_hit(int slot, const void *live) noexcept;
// Follow the first n iterations of every loop of this contract one by one.
extern "C" void vk_unroll(int n) noexcept;

// Follow the bytes of local arrays of up to 8 characters, too.
extern "C" void vk_follow_locals() noexcept;

// Tell apart the positions before and after the end of a table whose size is a power of two.
extern "C" void vk_wrap_masks() noexcept;

// The program is never ended: no internal failure, no exception that leaves a noexcept function.
static bool vk_may_end; // set by a contract of an operation that ends it when misused
extern "C" void abort() noexcept {
    if(!vk_may_end)
        [[clang::nomerge]] vk_fail("the program is not ended", __LINE__);
    vk_stop();
}

#define CONTRACT(name) extern "C" void VK__##name

// Obligation: must hold on every path that gets here.
#define REQUIRE(...)                                                                              \
    do {                                                                                           \
        if(!(__VA_ARGS__))                                                                         \
            [[clang::nomerge]] vk_fail(#__VA_ARGS__, __LINE__);                                    \
    } while(0)
// Control must never get here.
#define UNREACHABLE(text)                                                                          \
    do {                                                                                           \
        [[clang::nomerge]] vk_fail(text, __LINE__);                                                \
    } while(0)
// Some execution must get here (the contract is not vacuous).
#define REACH()                                                                                    \
    do {                                                                                           \
        [[clang::nomerge]] vk_reach("", __LINE__);                                                 \
    } while(0)
// Precondition.
#define ASSUME(...)                                                                                \
    do {                                                                                           \
        if(!(__VA_ARGS__))                                                                         \
            vk_stop();                                                                             \
    } while(0)
// The expression must not raise.
#define NO_THROW(...)                                                                              \
    do {                                                                                           \
        try {                                                                                      \
            __VA_ARGS__;                                                                           \
        } catch(...) { [[clang::nomerge]] vk_fail("must not raise: " #__VA_ARGS__, __LINE__); }    \
    } while(0)

// A plain value type: all operations inline, so that they are transparent to the analysis.
struct El {
    int v;
    El() noexcept : v{0} {}
    explicit El(int i) noexcept : v{i} {}
    El(const El &o) noexcept = default;
    El(El &&o) noexcept = default;
    El &operator=(const El &o) noexcept = default;
    El &operator=(El &&o) noexcept = default;
    ~El() {}
    bool operator==(const El &o) const noexcept { return v == o.v; }
};
