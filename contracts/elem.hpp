// Element model: the lifetime of one arbitrary storage cell per buffer, and the place of one
// arbitrary value, are followed through every construction, assignment and destruction.
#pragma once
#include "vk.hpp"
#include <stdlib.h>

const size_t LIM = size_t(1) << 40;
static const char *e_cell0, *e_cell1; // arbitrary cells: in the existing buffer, in a new one
static bool e_alive0, e_alive1;
static const char *e_at;    // where the followed value is (null: nowhere)
static const char *e_copyat; // where its latest copy is
static const char *e_base0, *e_base1;
static const char *e_ext; // an object outside the containers
static size_t e_len0, e_len1; // bytes
static size_t e_pick1;        // index of the cell followed in a new buffer
static unsigned char e_hops; // how often the followed value (or its copy) changed place
static unsigned char e_freed0, e_freed1, e_allocs;
static bool e_cells, e_follow; // which of the two is followed
static bool e_bounds;         // storage outside the known buffers is a violation

static inline bool e_inside(const char *p, size_t n) {
    if((size_t)p >= LIM * 16) // a local object (the analyser places those at 2^44 and up)
        return true;
    size_t a = p - e_base0, b = p - e_base1;
    return (e_base0 && a <= e_len0 && n <= e_len0 - a && !e_freed0) ||
           (e_base1 && b <= e_len1 && n <= e_len1 - b && !e_freed1);
}
#define E_FAIL(t) [[clang::nomerge]] vk_fail(t, __LINE__)
static inline void e_use(const char *p) {
    if(!e_cells)
        return;
    if(p == e_cell0 && !e_alive0)
        E_FAIL("no access to an element before it is constructed or after it is destroyed");
    if(p == e_cell1 && !e_alive1)
        E_FAIL("no access to an element before it is constructed or after it is destroyed");
}
static inline void e_born(const char *p, size_t n) {
    if(!e_cells)
        return;
    if(e_bounds && !e_inside(p, n))
        E_FAIL("elements are constructed inside the container's storage only");
    if(p == e_cell0) {
        if(e_alive0)
            E_FAIL("no element is constructed over a live one");
        e_alive0 = true;
    }
    if(p == e_cell1) {
        if(e_alive1)
            E_FAIL("no element is constructed over a live one");
        e_alive1 = true;
    }
}
static inline void e_dies(const char *p) {
    if(e_cells) {
        e_use(p);
        if(p == e_cell0)
            e_alive0 = false;
        if(p == e_cell1)
            e_alive1 = false;
    }
    if(!e_follow)
        return;
    if(p == e_at)
        e_at = nullptr;
    if(p == e_copyat)
        e_copyat = nullptr;
}
static inline void e_moved(const char *d, const char *s) {
    if(!e_follow || d == s)
        return;
    if(e_hops < 4 && (s == e_at || d == e_at || s == e_copyat || d == e_copyat))
        ++e_hops;
    if(s == e_at)
        e_at = d;
    else if(d == e_at)
        e_at = nullptr;
    if(s == e_copyat)
        e_copyat = d;
    else if(d == e_copyat)
        e_copyat = nullptr;
}
static inline void e_copied(const char *d, const char *s) {
    if(!e_follow || d == s)
        return;
    if(e_hops < 4 && (s == e_at || d == e_at || d == e_copyat))
        ++e_hops;
    if(d == e_at)
        e_at = nullptr;
    if(s == e_at)
        e_copyat = d;
    else if(d == e_copyat)
        e_copyat = nullptr;
}
struct Tr {
    int v;
    Tr() noexcept { e_born((const char *)this, sizeof(Tr)); }
    explicit Tr(int x) noexcept : v{x} { e_born((const char *)this, sizeof(Tr)); }
    Tr(const Tr &o) noexcept : v{o.v} {
        e_use((const char *)&o);
        e_born((const char *)this, sizeof(Tr));
        e_copied((const char *)this, (const char *)&o);
    }
    Tr(Tr &&o) noexcept : v{o.v} {
        e_use((const char *)&o);
        e_born((const char *)this, sizeof(Tr));
        e_moved((const char *)this, (const char *)&o);
    }
    Tr &operator=(const Tr &o) noexcept {
        e_use((const char *)this);
        e_use((const char *)&o);
        v = o.v;
        e_copied((const char *)this, (const char *)&o);
        return *this;
    }
    Tr &operator=(Tr &&o) noexcept {
        e_use((const char *)this);
        e_use((const char *)&o);
        v = o.v;
        e_moved((const char *)this, (const char *)&o);
        return *this;
    }
    ~Tr() { e_dies((const char *)this); }
    bool operator==(const Tr &o) const noexcept { return v == o.v; }
};

extern "C" char *vk_opaque_alloc(size_t n) noexcept __attribute__((malloc));
extern "C" void *aligned_alloc(size_t, size_t n) noexcept {
    char *p = vk_opaque_alloc(n);
    __builtin_assume(p != nullptr && (size_t)p < LIM * 8 && n < LIM * 8);
    __builtin_assume(p != e_base0);
    __builtin_assume(p + n <= e_base0 || p >= e_base0 + e_len0);
    __builtin_assume(p + n <= e_ext || p >= e_ext + sizeof(Tr));
    if(e_follow) {
        __builtin_assume(p + n <= e_at || p > e_at);
        __builtin_assume(p + n <= e_copyat || p > e_copyat);
    }
    if(e_allocs < 3)
        ++e_allocs;
    e_base1 = p;
    e_len1 = n;
    e_freed1 = 0;
    if(e_cells) {
        __builtin_assume(e_pick1 < LIM && e_pick1 * sizeof(Tr) < n);
        e_cell1 = p + e_pick1 * sizeof(Tr);
        e_alive1 = false;
    }
    return p;
}
extern "C" void free(void *q) noexcept {
    if(!q)
        return;
    if(!e_cells)
        return;
    if(q == e_base0) {
        if(e_freed0)
            E_FAIL("storage is released once");
        if(e_alive0)
            E_FAIL("no storage is released while an element in it is alive");
        e_freed0 = 1;
    }
    if(q == e_base1) {
        if(e_freed1)
            E_FAIL("storage is released once");
        if(e_alive1)
            E_FAIL("no storage is released while an element in it is alive");
        e_freed1 = 1;
    }
}
// e_hops only separates the analyser's control states; this keeps the compiler from dropping it
extern "C" void vk_touch(unsigned char) noexcept;
#define HOPS() vk_touch(e_hops)
static inline void e_reset() {
    e_ext = e_cell0 = e_cell1 = e_at = e_copyat = e_base0 = e_base1 = nullptr;
    e_len0 = e_len1 = 0;
    e_alive0 = e_alive1 = false;
    e_freed0 = e_freed1 = e_allocs = e_hops = 0;
    e_bounds = true;
    e_cells = e_follow = false;
}
