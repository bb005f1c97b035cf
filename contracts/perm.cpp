// C16: sorting, partitioning and rotating only permute
struct SE;
struct Any;
struct Same;
namespace pystd2026 { // declared first, so that the code analysed calls these instead of itself
void insertion_sort(SE *, SE *, const Any &);
void insertion_sort_has_sentinel(SE *, SE *, const Any &);
void rotate_last_to_front(SE *, SE *);
template<typename P> SE *partition(SE *, SE *, const P &);
}
#include "vk.hpp"
#include <stdlib.h>
extern "C" int vk_opaque_int() noexcept;
extern "C" size_t vk_opaque_index() noexcept;
extern "C" char *vk_opaque_alloc(size_t n) noexcept __attribute__((malloc));
#define E_FAIL(t) [[clang::nomerge]] vk_fail(t, __LINE__)
// One arbitrary element is followed to wherever it is moved.
static const char *vk_token;
static const char *t_lo, *t_hi; // the range that is sorted
static const char *t_sent;
static bool t_checked; // are the operands of comparisons checked?
static const char *t_tmp;
static size_t t_gap;
static bool t_first; // may the sentinel be the first element?
struct SE {
    char pad[24];
    SE() noexcept { t_tmp = (const char *)this; }
    SE(SE &&o) noexcept { from(o); }
    SE &operator=(SE &&o) noexcept {
        if((const char *)this == vk_token && this != &o)
            E_FAIL("no element is overwritten before it is moved elsewhere");
        from(o);
        return *this;
    }
    SE(const SE &) = delete;
    SE &operator=(const SE &) = delete;
    void from(const SE &o) {
        if((const char *)&o == vk_token)
            vk_token = (const char *)this;
    }
};
struct Any {
    int compare(const SE &a, const SE &b) const noexcept {
        // a search for a place stops at the sentinel
        if(t_sent)
            ASSUME((size_t)&b >= (size_t)t_sent);
        if(t_checked) {
            if(((size_t)&a < (size_t)t_lo || (size_t)&a >= (size_t)t_hi) && (const char *)&a != t_tmp)
                E_FAIL("only elements of the range are compared");
            if(((size_t)&b < (size_t)t_lo || (size_t)&b >= (size_t)t_hi) && (const char *)&b != t_tmp)
                E_FAIL("only elements of the range are compared");
        }
        return vk_opaque_int();
    }
    bool equal(const SE &a, const SE &b) const noexcept { return compare(a, b) == 0; }
};
static inline void within(const SE *b, const SE *e) {
    if((size_t)b < (size_t)t_lo || (size_t)b > (size_t)e || (size_t)e > (size_t)t_hi)
        E_FAIL("only parts of the range are sorted");
}
// What another contract shows of the operation: [b, e) ends up in any order.
static inline void permuted(const SE *b, const SE *e) {
    within(b, e);
    if((size_t)vk_token >= (size_t)b && (size_t)vk_token < (size_t)e) {
        const size_t i = vk_opaque_index();
        ASSUME(i < size_t(e - b));
        vk_token = (const char *)(b + i);
        ASSUME((size_t)vk_token >= (size_t)b && (size_t)vk_token < (size_t)e);
    }
}
namespace pystd2026 {
void insertion_sort(SE *b, SE *e, const Any &) { permuted(b, e); }
void insertion_sort_has_sentinel(SE *b, SE *e, const Any &) {
    if((size_t)b <= (size_t)t_lo && !t_first)
        E_FAIL("there is an element before a range that is sorted with a sentinel");
    permuted(b, e);
}
void rotate_last_to_front(SE *b, SE *e) { permuted(b, e); }
void heapsort(SE *b, SE *e, const Any &) { permuted(b, e); }
void shell_sort_single_iteration(SE *b, SE *e, size_t gap, const Any &) {
    if(gap == 0)
        E_FAIL("elements a positive distance apart are compared");
    t_gap = gap;
    permuted(b, e);
}
void introsort(SE *b, SE *e, const Any &) { permuted(b, e); }
void do_introsort(SE *, SE *, bool, size_t, size_t, size_t, const Any &);
void pick_qsort_pivot_median(SE *b, SE *e, size_t m, const Any &);
template<typename P> SE *partition(SE *b, SE *e, const P &) {
    permuted(b, e);
    const size_t i = vk_opaque_index();
    ASSUME(i <= size_t(e - b));
    return b + i;
}
inline SE *nth_element(SE *b, SE *e, size_t nth, const Any &) {
    if(nth >= size_t(e - b))
        throw 1;
    permuted(b, e);
    return b + nth;
}
inline SE *nth_element_heap(SE *b, SE *e, size_t nth, const Any &) {
    if(nth >= size_t(e - b))
        E_FAIL("the element asked for is in the range");
    permuted(b, e);
    return b + nth;
}
SE *rotate(SE *b, SE *m, SE *e) {
    if((size_t)m < (size_t)b || (size_t)m > (size_t)e)
        E_FAIL("the middle of a rotation is in its range");
    within(b, e);
    if((size_t)vk_token >= (size_t)b && (size_t)vk_token < (size_t)m)
        vk_token += (const char *)e - (const char *)m;
    else if((size_t)vk_token >= (size_t)m && (size_t)vk_token < (size_t)e)
        vk_token -= (const char *)m - (const char *)b;
    return b + (e - m);
}
}
#include "pystd2026.cpp"
namespace pystd2026 {
template<BasicIterator It> struct HeapInfo;
void heapify(const HeapInfo<SE *> &, SE *, const Any &);
void build_heap(const HeapInfo<SE *> &, const Any &);
}
#include <pystd2026_shellsort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
namespace pystd2026 {
void heapify(const HeapInfo<SE *> &h, SE *l, const Any &) {
    if((size_t)l < (size_t)h.begin || (size_t)l >= (size_t)h.end)
        E_FAIL("only an element of the heap sinks");
    permuted(h.begin, h.end);
}
void build_heap(const HeapInfo<SE *> &h, const Any &) { permuted(h.begin, h.end); }
void do_introsort(SE *b, SE *e, bool leftmost, size_t, size_t, size_t, const Any &) {
    if(!leftmost && (size_t)b <= (size_t)t_lo)
        E_FAIL("there is an element before a range that is sorted with a sentinel");
    permuted(b, e);
}
void pick_qsort_pivot_median(SE *b, SE *e, size_t m, const Any &) {
    if(m > size_t(e - b))
        E_FAIL("the range has that many elements");
    permuted(b, e);
}
}
using namespace V;
void operator delete[](void *) noexcept {}
void operator delete(void *) noexcept {}
const size_t LIM = size_t(1) << 40;
void *operator new[](size_t n) {
    char *const p = vk_opaque_alloc(n);
    ASSUME((size_t)p > LIM * 512 && (size_t)p < LIM * 1024);
    return p;
}
#define ARRAY                                                                                      \
    ASSUME(n < LIM && t < n && (size_t)a > LIM * 64 && (size_t)a < LIM * 128);                     \
    t_lo = (const char *)a;                                                                        \
    t_hi = (const char *)(a + n);                                                                  \
    t_sent = nullptr;                                                                              \
    t_checked = t_first = false;                                                                   \
    vk_token = (const char *)(a + t);
#define KEPT                                                                                       \
    REQUIRE((size_t)vk_token >= (size_t)t_lo);                                                     \
    REQUIRE((size_t)vk_token < (size_t)t_hi)

CONTRACT(C16_swap)(SE *a, size_t n, size_t t, size_t i, size_t j) {
    ARRAY
    ASSUME(i < n && j < n);
    swap(a[i], a[j]);
    REQUIRE(vk_token == (const char *)(a + (t == i ? j : t == j ? i : t)));
    REACH();
}
CONTRACT(C16_rotate_last_to_front)(SE *a, size_t n, size_t t) {
    ARRAY
    rotate_last_to_front<SE *>(a, a + n);
    REQUIRE(vk_token == (const char *)(t == n - 1 ? a : a + t + 1));
    REACH();
}
CONTRACT(C16_rotate_last_outside)(SE *a, size_t n, size_t t, size_t m) {
    ARRAY
    ASSUME(m <= t);
    rotate_last_to_front<SE *>(a, a + m);
    REQUIRE(vk_token == (const char *)(a + t));
    REACH();
}
CONTRACT(C16_rotate_first_to_back)(SE *a, size_t n, size_t t) {
    ARRAY
    rotate_first_to_back(a, a + n);
    REQUIRE(vk_token == (const char *)(t == 0 ? a + n - 1 : a + t - 1));
    REACH();
}
CONTRACT(C16_linear_insert_sentinel)(SE *a, size_t n, size_t t) {
    ARRAY
    ASSUME(n > 1);
    t_sent = t_lo;
    linear_insert_has_sentinel(a + n - 1, Any{});
    KEPT;
    REACH();
}
CONTRACT(C16_insertion_sentinel)(SE *a, size_t n, size_t t) {
    ARRAY
    ASSUME(n > 0);
    t_sent = t_lo;
    insertion_sort_has_sentinel<SE *, Any>(a + 1, a + n, Any{});
    KEPT;
    REACH();
}
#define C_INSERTION(tag, cond)                                                                     \
    CONTRACT(C16_insertion_##tag)(SE * a, size_t n, size_t t) {                                    \
        ARRAY                                                                                      \
        ASSUME(cond);                                                                              \
        t_checked = true;                                                                          \
        insertion_sort<SE *, SE *, Any>(a, a + n, Any{});                                          \
        KEPT;                                                                                      \
        REACH();                                                                                   \
    }
C_INSERTION(one, n == 1)
C_INSERTION(two, n == 2)
C_INSERTION(three, n == 3)
C_INSERTION(many, n > 3)
CONTRACT(C16_linear_insert)(SE *a, size_t n, size_t t) {
    ARRAY
    {
        SE scratch;
        linear_insert(a, a + n - 1, scratch, Any{});
    }
    KEPT;
    REACH();
}
CONTRACT(C16_shell)(SE *a, size_t n, size_t t, size_t gap) {
    ARRAY
    ASSUME(gap > 0 && gap < LIM);
    shell_sort_single_iteration<SE *, Any>(a, a + n, gap, Any{});
    KEPT;
    REACH();
}
CONTRACT(C16_shell_sort)(SE *a, size_t n, size_t t) {
    ARRAY
    ASSUME(n <= 701); // the gaps of longer ranges are computed in floating point
    t_first = true;
    shell_sort<SE *, Any>(a, a + n, Any{});
    KEPT;
    REACH();
}
CONTRACT(C16_heapify)(SE *a, size_t n, size_t t, size_t i) {
    ARRAY
    ASSUME(i < n);
    t_checked = true;
    HeapInfo<SE *> h{a, a + n};
    heapify<SE *, Any>(h, a + i, Any{});
    KEPT;
    REACH();
}
CONTRACT(C16_build_heap)(SE *a, size_t n, size_t t) {
    ARRAY
    t_checked = true;
    HeapInfo<SE *> h{a, a + n};
    build_heap<SE *, Any>(h, Any{});
    KEPT;
    REACH();
}
CONTRACT(C16_heapsort)(SE *a, size_t n, size_t t) {
    ARRAY
    t_checked = true;
    heapsort<SE *, Any>(a, a + n, Any{});
    KEPT;
    REACH();
}
#define C_ROTATE(tag, where, to)                                                                   \
    CONTRACT(C16_rotate_##tag)(SE * a, size_t n, size_t t, size_t m) {                             \
        ARRAY                                                                                      \
        ASSUME(m <= n && where);                                                                   \
        SE *const r = rotate<SE *>(a, a + m, a + n);                                               \
        REQUIRE(r == a + (n - m));                                                                 \
        REQUIRE(vk_token == (const char *)(a + to));                                               \
        REACH();                                                                                   \
    }
C_ROTATE(left, t < m, (t + (n - m)))
C_ROTATE(right, t >= m, (t - m))
CONTRACT(C16_median)(SE *a, size_t n, size_t t) {
    ARRAY
    ASSUME(n > 3);
    pick_qsort_pivot_median<SE *, Any>(a, a + n, 3, Any{});
    KEPT;
    REACH();
}
CONTRACT(C16_introsort)(SE *a, size_t n, size_t t) {
    ARRAY
    t_checked = true;
    introsort<SE *, Any>(a, a + n, Any{});
    KEPT;
    REACH();
}
#define C_STEP_(tag, from, to, degen, checked)                                                               \
    CONTRACT(C16_introsort_##tag)(SE * a, size_t n, size_t t, size_t off, size_t num,              \
                                  bool leftmost, size_t depth, size_t degenerate, size_t rounds) { \
        ARRAY                                                                                      \
        ASSUME(num < LIM && n == off + num && (leftmost || off > 0) && degenerate < LIM);          \
        ASSUME(num >= from && num < to && (degenerate == 0) == degen);                             \
        t_checked = checked;                                                                       \
        if(!checked)                                                                               \
            ASSUME(t >= off);                                                                      \
        do_introsort<SE *, Any>(a + off, a + n, leftmost, depth, degenerate, rounds, Any{});       \
        if(!checked) { KEPT; }                                                                                      \
        REACH();                                                                                   \
    }
#define C_STEP(tag, from, to, degen)                                                               \
    C_STEP_(tag, from, to, degen, true)                                                            \
    C_STEP_(tag##_kept, from, to, degen, false)
C_STEP(small, 0, 17, true)
C_STEP(100, 17, 100, true)
C_STEP_(100_bad, 17, 100, false, true)
C_STEP_(1000, 100, 1000, true, true)
C_STEP(1000_bad, 100, 1000, false)
C_STEP(more_bad, 100000, LIM, false)
CONTRACT(C16_nth_heap)(SE *a, size_t n, size_t t, size_t nth) {
    ARRAY
    t_checked = true;
    SE *r = nullptr;
    bool raised = false;
    try {
        r = nth_element_heap<SE *, Any>(a, a + n, nth, Any{});
    } catch(...) { raised = true; }
    REQUIRE(raised == (nth >= n));
    if(!raised)
        REQUIRE(r == a + nth);
    KEPT;
    REACH();
}
CONTRACT(C16_partial_sort)(SE *a, size_t n, size_t t, size_t nth) {
    ARRAY
    SE *r = nullptr;
    bool raised = false;
    try {
        r = partial_sort<SE *, Any>(a, a + n, nth, Any{});
    } catch(...) { raised = true; }
    if(!raised)
        REQUIRE(r == a + nth);
    KEPT;
    REACH();
}
// Elements that all compare equal stay where they are: the order of equals is kept.
struct Same {
    int compare(const SE &, const SE &) const noexcept { return 0; }
};
CONTRACT(C16_equal_insertion)(SE *a, size_t n, size_t t) {
    ARRAY
    insertion_sort(a, a + n, Same{});
    REQUIRE(vk_token == (const char *)(a + t));
    REACH();
}
CONTRACT(C16_equal_linear)(SE *a, size_t n, size_t t) {
    ARRAY
    ASSUME(n > 1);
    {
        SE scratch;
        linear_insert(a, a + n - 1, scratch, Same{});
    }
    REQUIRE(vk_token == (const char *)(a + t));
    REACH();
}
CONTRACT(C16_equal_extremes)(SE *a, size_t n, size_t t) {
    ARRAY
    REQUIRE(min_element(a, a + n, Same{}) == a);
    REQUIRE(max_element(a, a + n, Same{}) == a);
    REQUIRE(is_sorted(a, a + n, Same{}));
    REACH();
}
CONTRACT(C16_equal_heapify)(SE *a, size_t n, size_t t, size_t i) {
    ARRAY
    ASSUME(i < n);
    HeapInfo<SE *> h{a, a + n};
    heapify(h, a + i, Same{});
    REQUIRE(vk_token == (const char *)(a + t));
    REACH();
}
