#include "ghost.hpp"
#include <sys/mman.h>
// Environment model: what releases memory, and how often.
extern "C" void free(void *p) noexcept { ghost_release(p); }
extern "C" int munmap(void *p, size_t) noexcept {
    ghost_release(p);
    return 0;
}
void operator delete[](void *p) noexcept { ghost_release(p); }
void operator delete[](void *p, size_t) noexcept { ghost_release(p); }
void operator delete(void *p) noexcept { ghost_release(p); }
void operator delete(void *p, size_t) noexcept { ghost_release(p); }
#if EPOCH == 2026
#include "pystd2026.cpp"
#else
#include "pystd2025.cpp"
#endif
using namespace V;

static unsigned char g_null; // deleters called with nothing to delete
struct GDel {
    static void del(El *p) {
        if(!p && g_null < 2)
            ++g_null;
        ghost_release(p);
    }
};
using UP = unique_ptr<El, GDel>;
IF26(using UA = unique_arr<El, GDel>;)
using UP0 = unique_ptr<El>;
using UA0 = unique_arr<int>;
using VecE = Vector<El>;

static const void *res(const UP &h) { return h.get(); }
IF26(static const void *res(const UA &h) { return h.get(); })
static const void *res(const UP0 &h) { return h.get(); }
static const void *res(const UA0 &h) { return h.get(); }
static const void *res(const VecE &h) { return h.begin(); }
static const void *res(const Bytes &h) { return h.data(); }
static const void *res(const CString &h) { return h.data(); }
static const void *res(const U8String &h) { return h.c_str(); }
IF26(static const void *res(const MMapping &h) { return h.span().begin(); })
IF25(static const void *res(const MMapping &h) { return h.view().data(); })

template<typename H> static size_t extent(const H &h) { return h.size(); }
static size_t extent(const UP &) { return 0; }
static size_t extent(const UP0 &) { return 0; }
static size_t extent(const U8String &h) { return h.size_bytes(); }
IF26(static size_t extent(const MMapping &h) { return h.span().size(); })
IF25(static size_t extent(const MMapping &h) { return h.view().size(); })
template<typename H> static size_t cap(const H &) { return 0; }
static size_t cap(const VecE &h) { return h.capacity(); }
static size_t cap(const Bytes &h) { return h.capacity(); }
template<typename H> static bool wf(const H &) { return true; }
static bool wf(const Bytes &h) { return h.size() <= h.capacity(); }

#define HANDLE(NAME, H)                                                                            \
    CONTRACT(C03_##NAME##_destroy)(H & a) {                                                        \
        const void *p = res(a);                                                                    \
        ASSUME(p);                                                                                 \
        ghost_track(p);                                                                            \
        a.~H();                                                                                    \
        REQUIRE(g_released == 1);                                                                  \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C03_##NAME##_move_construct)(H & __restrict a) {                                      \
        const void *p = res(a);                                                                    \
        size_t n = extent(a), k = cap(a);                                                          \
        ASSUME(p &&wf(a));                                                                         \
        ghost_track(p);                                                                            \
        {                                                                                          \
            H b(move(a));                                                                          \
            REQUIRE(g_released == 0);                                                              \
            REQUIRE(res(b) == p);                                                                  \
            REQUIRE(extent(b) == n && cap(b) == k);                                                \
            REQUIRE(res(a) == nullptr);                                                            \
            REACH();                                                                               \
        }                                                                                          \
        REQUIRE(g_released == 1);                                                                  \
        a.~H();                                                                                    \
        REQUIRE(g_released == 1);                                                                  \
    }                                                                                              \
    CONTRACT(C03_##NAME##_move_assign_takes)(H & __restrict a, H & __restrict b) {                 \
        const void *p = res(b);                                                                    \
        size_t n = extent(b), k = cap(b);                                                          \
        ASSUME(p &&wf(a) && wf(b) && res(a) != p && &a != &b);                                                 \
        ghost_track(p);                                                                            \
        a = move(b);                                                                               \
        REQUIRE(g_released == 0);                                                                  \
        REQUIRE(res(a) == p);                                                                      \
        REQUIRE(extent(a) == n && cap(a) == k);                                                    \
        REQUIRE(res(b) == nullptr);                                                                \
        REACH();                                                                                   \
        b.~H();                                                                                    \
        REQUIRE(g_released == 0);                                                                  \
        a.~H();                                                                                    \
        REQUIRE(g_released == 1);                                                                  \
    }                                                                                              \
    CONTRACT(C03_##NAME##_move_assign_releases_old)(H & __restrict a, H & __restrict b) {          \
        const void *p = res(a);                                                                    \
        ASSUME(p &&wf(a) && wf(b) && res(b) != p && &a != &b);                                                 \
        ghost_track(p);                                                                            \
        a = move(b);                                                                               \
        REQUIRE(g_released == 1);                                                                  \
        REACH();                                                                                   \
        a.~H();                                                                                    \
        b.~H();                                                                                    \
        REQUIRE(g_released == 1);                                                                  \
    }                                                                                              \
    CONTRACT(C03_##NAME##_self_move)(H & a) {                                                      \
        const void *p = res(a);                                                                    \
        size_t n = extent(a), k = cap(a);                                                          \
        ASSUME(p &&wf(a));                                                                         \
        ghost_track(p);                                                                            \
        H &alias = a;                                                                              \
        a = move(alias);                                                                           \
        REQUIRE(g_released == 0);                                                                  \
        REQUIRE(res(a) == p && extent(a) == n && cap(a) == k);                                     \
        REACH();                                                                                   \
    }
#define EMPTIED(NAME, H)                                                                           \
    CONTRACT(C03_##NAME##_source_emptied)(H & __restrict a, H & __restrict c) {                    \
        ASSUME(wf(a) && wf(c));                                                                    \
        H b(move(a));                                                                              \
        REQUIRE(extent(a) == 0 && cap(a) == 0);                                                    \
        c = move(b);                                                                               \
        REQUIRE(extent(b) == 0 && cap(b) == 0);                                                    \
        REACH();                                                                                   \
    }

HANDLE(unique_ptr, UP)
IF26(HANDLE(unique_arr, UA))
HANDLE(unique_ptr_default, UP0)
HANDLE(unique_arr_default, UA0)
HANDLE(vector, VecE)
HANDLE(bytes, Bytes)
HANDLE(cstring, CString)
HANDLE(u8string, U8String)
HANDLE(mmapping, MMapping)
EMPTIED(unique_arr_default, UA0)
IF26(EMPTIED(unique_arr, UA))
EMPTIED(vector, VecE)
EMPTIED(bytes, Bytes)
EMPTIED(mmapping, MMapping)

// Closing functions, such as fclose, do not accept a null pointer.
#define NOTHING(NAME, H)                                                                           \
    CONTRACT(C03_##NAME##_nothing)(H & a, H & b) {                                                 \
        ASSUME(&a != &b && !res(a));                                                               \
        g_null = 0;                                                                                \
        a = move(b);                                                                               \
        b.~H();                                                                                    \
        REQUIRE(!g_null);                                                                          \
        REACH();                                                                                   \
        if(!res(a)) {                                                                              \
            a.~H();                                                                                \
            REQUIRE(!g_null);                                                                      \
        }                                                                                          \
    }
IF26(NOTHING(unique_ptr, UP))
IF26(NOTHING(unique_arr, UA))
IF26(CONTRACT(C03_unique_ptr_reset_nothing)(UP &a, El *q) {
    ASSUME(!res(a));
    g_null = 0;
    a.reset(q);
    REQUIRE(!g_null && a.get() == q);
    REACH();
})
CONTRACT(C03_unique_ptr_adopt)(El *p) {
    ASSUME(p);
    ghost_track(p);
    {
        UP u(p);
        REQUIRE(u.get() == p && g_released == 0);
        REACH();
    }
    REQUIRE(g_released == 1);
}
CONTRACT(C03_unique_ptr_reset)(UP &u, El *q) {
    El *p = u.get();
    ASSUME(p && p != q);
    ghost_track(p);
    u.reset(q);
    REQUIRE(g_released == 1 && u.get() == q);
    REACH();
}
CONTRACT(C03_unique_ptr_reset_keeps_new)(UP &u, El *q) {
    ASSUME(q && u.get() != q);
    ghost_track(q);
    u.reset(q);
    REQUIRE(g_released == 0);
    REACH();
    u.~UP();
    REQUIRE(g_released == 1);
}
CONTRACT(C03_unique_ptr_release)(UP &u) {
    El *p = u.get();
    ASSUME(p);
    ghost_track(p);
    El *r = u.release();
    REQUIRE(r == p && u.get() == nullptr && g_released == 0);
    REACH();
    u.~UP();
    REQUIRE(g_released == 0);
}
CONTRACT(C03_unique_arr_adopt)(int *p, size_t n) {
    ASSUME(p);
    ghost_track(p);
    {
        UA0 u(p, n);
        REQUIRE(u.get() == p && u.size() == n && g_released == 0);
        REACH();
    }
    REQUIRE(g_released == 1);
}
