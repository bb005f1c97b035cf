// C30: searching, comparing and counting
#include "vk.hpp"
#include <stdlib.h>
extern "C" int vk_opaque_int() noexcept;
extern "C" size_t vk_opaque_index() noexcept;
#include "pystd2026.cpp"
namespace pystd2026 {
constexpr size_t LIM = 1000000000;
// One arbitrary element of the range is asked about; the answers for the others are arbitrary.
static const El *g_lo, *g_hi, *vk_token_fixed;
static bool g_asked, g_answer;
static inline void in_range(const El &e) {
    if((size_t)&e < (size_t)g_lo || (size_t)&e >= (size_t)g_hi)
        UNREACHABLE("only elements of the range are looked at");
}
struct Asked {
    bool operator()(const El &e) const {
        in_range(e);
        const bool r = vk_opaque_int() & 1;
        if(&e == vk_token_fixed) {
            g_asked = true;
            g_answer = r;
        }
        return r;
    }
};
#define RANGE                                                                                      \
    ASSUME(n < LIM);                                                                               \
    ASSUME((size_t)a % 16 == 0);                                                                   \
    ASSUME(k < n);                                                                                 \
    g_lo = a;                                                                                      \
    g_hi = a + n;                                                                                  \
    vk_token_fixed = a + k;                                                                                   \
    g_asked = false;                                                                               \
    g_answer = false;                                                                              \
    vk_side(k);
#define FOUND(want)                                                                                \
    REQUIRE((size_t)r >= (size_t)a && (size_t)r <= (size_t)(a + n));                               \
    if((size_t)r > (size_t)vk_token_fixed) {                                                                  \
        REQUIRE(g_asked);                                                                          \
        REQUIRE(g_answer != want);                                                                 \
    }                                                                                              \
    if(r == vk_token_fixed) {                                                                                 \
        REQUIRE(g_asked);                                                                          \
        REQUIRE(g_answer == want);                                                                 \
    }                                                                                              \
    if((size_t)r < (size_t)vk_token_fixed)                                                                    \
        REQUIRE(!g_asked);                                                                         \
    REACH();
CONTRACT(C30_find_if)(El *a, size_t n, size_t k) {
    RANGE
    El *r = find_if(a, a + n, Asked{});
    FOUND(true)
}
CONTRACT(C30_find_if_not)(El *a, size_t n, size_t k) {
    RANGE
    El *r = find_if_not(a, a + n, Asked{});
    FOUND(false)
}
struct Sought {
    bool operator==(int) const;
};
struct ElQ : El {
    bool operator==(const Sought &) const {
        return Asked{}(*this);
    }
};
CONTRACT(C30_find)(ElQ *a, size_t n, size_t k) {
    RANGE
    El *r = find(a, a + n, Sought{});
    FOUND(true)
}
// lower_bound: the comparator answers as sorted elements do.
struct By {
    char c;
};
static const By *b_lo, *b_hi;
struct Below {
    const By *pivot;
    int compare(const By &e, const int &) const {
        if((size_t)&e < (size_t)b_lo || (size_t)&e >= (size_t)b_hi)
            UNREACHABLE("only elements of the range are looked at");
        return (size_t)&e < (size_t)pivot ? -1 : vk_opaque_int() & 1;
    }
};
CONTRACT(C30_lower_bound)(By *a, size_t n, size_t k, int v) {
    ASSUME(n < LIM);
    ASSUME(k <= n);
    b_lo = a;
    b_hi = a + n;
    By *r = lower_bound(a, a + n, v, Below{a + k});
    REQUIRE(r == a + k);
    REACH();
}
// The one element that is before (after) every other is the one found.
struct Extreme {
    int least;
    int compare(const El &x, const El &y) const {
        in_range(x);
        in_range(y);
        if(&x == vk_token_fixed)
            return &y == vk_token_fixed ? 0 : least;
        if(&y == vk_token_fixed)
            return -least;
        return vk_opaque_int();
    }
};
CONTRACT(C30_min_element)(El *a, size_t n, size_t k) {
    RANGE
    El *r = min_element(a, a + n, Extreme{-1});
    REQUIRE(r == a + k);
    REACH();
}
CONTRACT(C30_max_element)(El *a, size_t n, size_t k) {
    RANGE
    El *r = max_element(a, a + n, Extreme{1});
    REQUIRE(r == a + k);
    REACH();
}
struct Free {
    int compare(const El &x, const El &y) const {
        in_range(x);
        in_range(y);
        return vk_opaque_int();
    }
};
CONTRACT(C30_extremes_range)(El *a, size_t n) {
    ASSUME(n < LIM);
    g_lo = a;
    g_hi = a + n;
    El *r = min_element(a, a + n, Free{});
    REQUIRE((size_t)r >= (size_t)a && (size_t)r <= (size_t)(a + n));
    if(n > 0)
        REQUIRE(r != a + n);
    REACH();
}
CONTRACT(C30_extremes_range2)(El *a, size_t n) {
    ASSUME(n < LIM);
    g_lo = a;
    g_hi = a + n;
    El *r = max_element(a, a + n, Free{});
    REQUIRE((size_t)r >= (size_t)a && (size_t)r <= (size_t)(a + n));
    if(n > 0)
        REQUIRE(r != a + n);
    REACH();
}
// is_sorted: true only if the arbitrary neighbours are in order, false only for a pair out of order.
static bool g_bad;
struct Neighbours {
    int compare(const El &x, const El &y) const {
        in_range(x);
        in_range(y);
        if(&y != &x + 1)
            UNREACHABLE("neighbours are compared, the earlier one first");
        const int r = vk_opaque_int();
        if(&x == vk_token_fixed) {
            g_asked = true;
            g_answer = r > 0;
        }
        if(r > 0)
            g_bad = true;
        return r;
    }
};
CONTRACT(C30_is_sorted)(El *a, size_t n, size_t k) {
    RANGE
    ASSUME(k + 1 < n);
    g_bad = false;
    const bool r = is_sorted(a, a + n, Neighbours{});
    if(r) {
        REQUIRE(g_asked);
        REQUIRE(!g_answer);
    } else {
        REQUIRE(g_bad);
    }
    REACH();
}
CONTRACT(C30_is_sorted_short)(El *a, size_t n) {
    ASSUME(n < 2);
    g_lo = g_hi = a;
    REQUIRE(is_sorted(a, a + n, Neighbours{}));
    REACH();
}
// Numbers.
CONTRACT(C30_clamp)(int64_t v, int64_t lo, int64_t hi) {
    ASSUME(lo <= hi);
    const int64_t r = clamp(v, lo, hi);
    REQUIRE(r >= lo);
    REQUIRE(r <= hi);
    if(v >= lo && v <= hi)
        REQUIRE(r == v);
    if(v < lo)
        REQUIRE(r == lo);
    if(v > hi)
        REQUIRE(r == hi);
    REACH();
}
CONTRACT(C30_clamp_float)(double v, double lo, double hi) {
    ASSUME(lo <= hi);
    const double r = clamp(v, lo, hi);
    if(v >= lo && v <= hi)
        REQUIRE(r == v);
    if(v < lo)
        REQUIRE(r == lo);
    if(v > hi)
        REQUIRE(r == hi);
    if(v != v)
        REQUIRE(r != r);
    REACH();
}
#define C_ORDER(tag, T)                                                                            \
    CONTRACT(C30_extreme_value_##tag)(T x, T y) {                                                  \
        const T hi = maxval(x, y), lo = minval(x, y);                                              \
        REQUIRE(hi >= x && hi >= y && (hi == x || hi == y));                                       \
        REQUIRE(lo <= x && lo <= y && (lo == x || lo == y));                                       \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C30_compare_##tag)(T x, T y) {                                                        \
        const int r = DefaultComparator<T>{}.compare(x, y);                                        \
        REQUIRE((r < 0) == (x < y));                                                               \
        REQUIRE((r > 0) == (x > y));                                                               \
        REQUIRE(DefaultComparator<T>{}.equal(x, y) == (x == y));                                   \
        const int s = OnlyLessComparator<T>{}.compare(x, y);                                       \
        REQUIRE((s < 0) == (x < y));                                                               \
        REQUIRE((s > 0) == (x > y));                                                               \
        REQUIRE(OnlyLessComparator<T>{}.equal(x, y) == (x == y));                                  \
        REACH();                                                                                   \
    }
C_ORDER(i64, int64_t)
C_ORDER(u64, uint64_t)
C_ORDER(i32, int)
C_ORDER(u8, unsigned char)
C_ORDER(i16, short)
#define C_FLOAT(tag, T)                                                                            \
    CONTRACT(C30_total_##tag)(T x, T y) {                                                          \
        const int r = FloatTotalOrderComparator<T>{}.compare(x, y);                                \
        REQUIRE((r < 0) == (x < y || (x == x && y != y)));                                         \
        REQUIRE((r > 0) == (x > y || (x != x && y == y)));                                         \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C30_total_equal_##tag)(T x, T y) {                                                    \
        const int r = FloatTotalOrderComparator<T>{}.compare(x, y);                                \
        REQUIRE(FloatTotalOrderComparator<T>{}.equal(x, y) == (r == 0));                           \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C30_number_##tag)(T x, T y) {                                                         \
        ASSUME(x == x && y == y);                                                                  \
        const int r = FloatIgnoreNanComparator<T>{}.compare(x, y);                                 \
        REQUIRE((r < 0) == (x < y));                                                               \
        REQUIRE((r > 0) == (x > y));                                                               \
        REQUIRE(FloatIgnoreNanComparator<T>{}.equal(x, y) == (x == y));                            \
        REACH();                                                                                   \
    }
C_FLOAT(f32, float)
C_FLOAT(f64, double)
// Ranges.
CONTRACT(C30_range_end)(int64_t i, int64_t end, int64_t step) {
    Range r(i, end, step);
    const bool done = step < 0 ? i <= end : i >= end;
    auto v = r.next();
    REQUIRE((bool)v == !done);
    if(v)
        REQUIRE(*v == i);
    REACH();
}
// The second value given is one step after the first, or there is none.
CONTRACT(C30_range_up)(int64_t i, int64_t end, int64_t step) {
    ASSUME(step > 0);
    ASSUME(i < end);
    Range r(i, end, step);
    r.next();
    auto v = r.next();
    REQUIRE((bool)v == ((uint64_t)end - (uint64_t)i > (uint64_t)step));
    if(v)
        REQUIRE(*v == i + step);
    REACH();
}
CONTRACT(C30_range_down)(int64_t i, int64_t end, int64_t step) {
    ASSUME(step < 0);
    ASSUME(i > end);
    Range r(i, end, step);
    r.next();
    auto v = r.next();
    REQUIRE((bool)v == ((uint64_t)i - (uint64_t)end > -(uint64_t)step));
    if(v)
        REQUIRE(*v == i + step);
    REACH();
}
CONTRACT(C30_range_once_over)(int64_t i, int64_t end, int64_t step) {
    ASSUME(step != 0);
    Range r(i, end, step);
    if(!r.next())
        REQUIRE(!r.next());
    REACH();
}
// The shorter forms start at zero and go by one.
CONTRACT(C30_range_start)(int64_t i, int64_t end) {
    Range r(i, end);
    auto v = r.next();
    REQUIRE((bool)v == (i < end));
    if(v)
        REQUIRE(*v == i);
    REACH();
}
CONTRACT(C30_range_start2)(int64_t i, int64_t end) {
    ASSUME(i < end);
    Range r(i, end);
    r.next();
    auto v = r.next();
    REQUIRE((bool)v == (i + 1 < end));
    if(v)
        REQUIRE(*v == i + 1);
    REACH();
}
CONTRACT(C30_range_only_end)(int64_t end) {
    Range r(end);
    auto v = r.next();
    REQUIRE((bool)v == (end > 0));
    if(v)
        REQUIRE(*v == 0);
    REACH();
}
CONTRACT(C30_range_only_end2)(int64_t end) {
    ASSUME(end > 1);
    Range r(end);
    r.next();
    auto v = r.next();
    REQUIRE((bool)v && *v == 1);
    REACH();
}
CONTRACT(C30_range_empty)() {
    Range r;
    REQUIRE(!r.next());
    REACH();
}
// Iteration helpers.
struct Source {
    size_t given, total;
    Optional<size_t> next() {
        if(given == total)
            return {};
        return Optional<size_t>{size_t(given++)};
    }
};
CONTRACT(C30_loop)(size_t n) {
    ASSUME(n < LIM);
    Source s{0, n};
    LoopView<Source> v{s};
    size_t count = 0;
    for(auto &x : v) {
        REQUIRE(x == count);
        ++count;
    }
    REQUIRE(count == n);
    REACH();
}
CONTRACT(C30_loopsume)(size_t n) {
    ASSUME(n < LIM);
    Loopsume<Source> v{Source{0, n}};
    size_t count = 0;
    for(auto &x : v) {
        REQUIRE(x == count);
        ++count;
    }
    REQUIRE(count == n);
    REACH();
}
struct Seq {
    El *a;
    size_t n;
    El *begin() { return a; }
    El *end() { return a + n; }
};
CONTRACT(C30_enumerate)(El *a, size_t n) {
    ASSUME(n < LIM);
    Seq s{a, n};
    EnumerateView<Seq> v{s};
    size_t count = 0;
    for(auto x : v) {
        REQUIRE(x.i == count);
        REQUIRE(&x.value == a + count);
        ++count;
    }
    REQUIRE(count == n);
    REACH();
}
// Exchanging.
CONTRACT(C30_swap)(El *__restrict a, El *__restrict b) {
    ASSUME(a != b);
    vk_watch32(0, a);
    vk_watch32(1, b);
    const int x = a->v, y = b->v;
    V::swap(*a, *b);
    REQUIRE(a->v == y);
    REQUIRE(b->v == x);
    REACH();
}
CONTRACT(C30_swap_self)(El *a) {
    const int x = a->v;
    V::swap(*a, *a);
    REQUIRE(a->v == x);
    REACH();
}
CONTRACT(C30_swap_number)(int64_t *__restrict a, int64_t *__restrict b) {
    const int64_t x = *a, y = *b;
    V::swap(*a, *b);
    REQUIRE(*a == y);
    REQUIRE(*b == x);
    REACH();
}
CONTRACT(C30_swap_scratch)(El *__restrict a, El *__restrict b, El *__restrict t) {
    ASSUME(a != b);
    const int x = a->v, y = b->v;
    V::swap(*a, *b, *t);
    REQUIRE(a->v == y);
    REQUIRE(b->v == x);
    REACH();
}
}
