// Memory model for byte buffers. The content of chosen bytes is followed exactly (vk_watch8),
// whatever instructions move it; bytes outside every buffer must keep their content.
#pragma once
#include "vk.hpp"
#include <stdlib.h>
#include <string.h>

extern "C" char *vk_opaque_alloc(size_t n) noexcept __attribute__((malloc, alloc_size(1)));
extern "C" size_t vk_opaque_index() noexcept;
extern "C" void vk_opaque_use(int) noexcept;
const size_t LIM = size_t(1) << 40;

static size_t g_k0, g_k1;      // offsets followed in a fresh buffer (slots 2 and 3)
static unsigned char g_follow;  // 1: the first, 2: both
static const char *g_out;      // the followed byte outside of every buffer (slot 0)
static const char *g_top;      // end of the edited buffer
static const char *g_top2;     // end of the other buffer
static unsigned char g_nalloc, g_alternate; // which slots follow the next allocation

static unsigned char g_side;   // on which side of the buffer the outside byte lies
static inline void vk_side(const void *p, size_t n) {
    if((size_t)g_out < (size_t)p) {
        g_side = 0;
    } else {
        ASSUME((size_t)g_out >= (size_t)p + n);
        g_side = 1;
    }
}
static inline bool vk_apart(const void *p, size_t n, const void *q, size_t m) {
    return (size_t)p + n <= (size_t)q || (size_t)q + m <= (size_t)p;
}
static inline void *vk_memcpy(void *d, const void *s, size_t n) {
    if(!(n == 0 || vk_apart(d, n, s, n)))
        [[clang::nomerge]] vk_fail("memcpy ranges do not overlap", __LINE__);
#ifdef VK_COPY
    VK_COPY(s, n);
#endif
    return __builtin_memcpy(d, s, n);
}
#define memcpy vk_memcpy
static inline char *vk_alloc(size_t n) {
    char *p = vk_opaque_alloc(n);
    ASSUME(n < LIM * 4 && (size_t)p < LIM * 12);
    // fresh storage overlaps nothing that existed before (its place is arbitrary otherwise; no
    // code can depend on the order of unrelated objects), and is not the byte outside
    ASSUME(p > g_top && p > g_top2);
    g_top = p + n;
    if(g_out)
        vk_side(p, n);
    if(g_follow && g_nalloc == 0) {
        vk_watch8(2, p + g_k0);
        if(g_follow >= 2)
            vk_watch8(3, p + g_k1);
    }
    if(g_follow && g_nalloc == 1) {
        vk_watch8(5, p + g_k0);
        if(g_follow >= 2)
            vk_watch8(6, p + g_k1);
    }
    if(g_alternate)
        g_nalloc = 1 - g_nalloc;
    return p;
}
void *operator new[](size_t n) { return vk_alloc(n); }
static const char *g_live;             // the buffer given
static const char *g_w1, *g_w4;        // its followed bytes
// what was released has unknown content
static inline void vk_release(const void *p) {
    if(p && p == g_live) {
        if(g_w1)
            vk_watch8(1, g_w1);
        if(g_w4)
            vk_watch8(4, g_w4);
    }
}
void operator delete[](void *p) noexcept { vk_release(p); }
void operator delete[](void *p, size_t) noexcept { vk_release(p); }
