// flags: -fno-access-control
// C02: sub-ranges; C32: comparing and searching text
#include "buf.hpp"
static const char *g_text; // a C string of known length
static size_t g_len;
static inline size_t vk_strlen(const char *p) {
    if(p == g_text)
        return g_len;
    const size_t l = vk_opaque_index();
    ASSUME(l < LIM && p[l] == '\0');
    return l;
}
static inline int vk_memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for(size_t i = 0; i < n; ++i)
        if(x[i] != y[i])
            return x[i] < y[i] ? -1 : 1;
    return 0;
}
static inline int vk_strcmp(const char *a, const char *b) {
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for(size_t i = 0;; ++i) {
        if(x[i] != y[i])
            return x[i] < y[i] ? -1 : 1;
        if(x[i] == 0)
            return 0;
    }
}
#define strlen vk_strlen
#define memcmp vk_memcmp
#define strcmp vk_strcmp
#include "pystd2026.cpp"
using namespace V;

const size_t NPOS = (size_t)-1;
#define START                                                                                      \
    g_follow = 0;                                                                                  \
    g_out = g_w1 = g_w4 = g_live = g_text = nullptr;                                               \
    g_nalloc = g_alternate = 0;                                                                    \
    g_top = g_top2 = nullptr;
// Arbitrary text [p, p + n)
#define TEXT(p, n)                                                                                 \
    START                                                                                          \
    ASSUME(n < LIM && (size_t)p < LIM * 8 && p);

// ---- C02 ------------------------------------------------------------------
CONTRACT(C02_span_subspan)(El *p, size_t n, size_t at, size_t count) {
    ASSUME(n < LIM && (size_t)p < LIM * 8);
    const Span<El> s(p, n);
    const Span<El> r = s.subspan(at, count);
    REQUIRE(at <= n);
    REQUIRE(count == NPOS || count <= n - at);
    REQUIRE(r.begin() == p + at);
    REQUIRE(r.size() == (count == NPOS ? n - at : count));
    REACH();
}
CONTRACT(C02_span_subspan_ok)(El *p, size_t n, size_t at, size_t count) {
    ASSUME(n < LIM && (size_t)p < LIM * 8);
    ASSUME(at <= n && (count == NPOS || count <= n - at));
    const Span<El> s(p, n);
    NO_THROW((void)s.subspan(at, count));
    REACH();
}
CONTRACT(C02_span_rest)(El *p, size_t n, size_t at) {
    ASSUME(n < LIM && (size_t)p < LIM * 8 && at <= n);
    const Span<El> s(p, n);
    NO_THROW({
        const Span<El> r = s.subspan(at);
        REQUIRE(r.begin() == p + at && r.size() == n - at && r.end() == p + n);
    });
    REACH();
}
CONTRACT(C02_span_whole)(El *p, size_t n) {
    ASSUME(n < LIM && (size_t)p < LIM * 8);
    const Span<El> s(p, n);
    REQUIRE(s.begin() == p && s.cbegin() == p && s.size() == n);
    REQUIRE(s.end() == p + n && s.cend() == p + n && s.is_empty() == (n == 0));
    REQUIRE(s.size_bytes() == n * sizeof(El));
    REACH();
}
CONTRACT(C02_view_substr)(const char *p, size_t n, size_t at, size_t count) {
    TEXT(p, n)
    const CStringView v(p, n);
    const CStringView r = v.substr(at, count);
    REQUIRE(at < n);
    REQUIRE(r.data() == p + at);
    REQUIRE(r.size() == (count > n - at ? n - at : count));
    REACH();
}
CONTRACT(C02_view_substr_ok)(const char *p, size_t n, size_t at, size_t count) {
    TEXT(p, n)
    ASSUME(at < n);
    const CStringView v(p, n);
    NO_THROW((void)v.substr(at, count));
    NO_THROW({
        const CStringView r = v.substr(at);
        REQUIRE(r.data() == p + at && r.size() == n - at);
    });
    NO_THROW({
        const CStringView r = v.substr();
        REQUIRE(r.data() == p && r.size() == n);
    });
    REACH();
}
CONTRACT(C02_view_range)(const char *p, const char *e) {
    START
    ASSUME((size_t)p < LIM * 8 && (size_t)e < LIM * 8);
    const CStringView r(p, e);
    REQUIRE(p <= e);
    REQUIRE(r.data() == p && r.begin() == p && r.end() == e);
    REQUIRE(r.size() == size_t(e - p) && r.is_empty() == (e == p));
    REACH();
}
CONTRACT(C02_view_range_ok)(const char *p, const char *e) {
    START
    ASSUME((size_t)p < LIM * 8 && (size_t)e < LIM * 8 && p <= e);
    NO_THROW((void)CStringView(p, e));
    REACH();
}
CONTRACT(C02_view_sized)(const char *p, size_t n) {
    TEXT(p, n)
    const CStringView r(p, n);
    REQUIRE(r.data() == p && r.begin() == p && r.end() == p + n && r.size() == n);
    REQUIRE(r.is_empty() == (n == 0));
    const CStringView e;
    REQUIRE(e.size() == 0 && e.is_empty() && e.begin() == e.end());
    REACH();
}
CONTRACT(C02_view_text)(const char *p, size_t n) {
    TEXT(p, n)
    g_text = p;
    g_len = n;
    const CStringView r(p);
    REQUIRE(r.data() == p && r.size() == n);
    const CStringView r2(p, NPOS);
    REQUIRE(r2.data() == p && r2.size() == n);
    const ZStringView z(p);
    REQUIRE(z.c_str() == p && z.size() == n && z.view().data() == p && z.view().size() == n);
    REACH();
}
CONTRACT(C02_zview_subview)(const char *p, size_t n, size_t at) {
    TEXT(p, n)
    const ZStringView z(p, n);
    const ZStringView r = z.subview(at);
    REQUIRE(at <= n);
    REQUIRE(r.c_str() == p + at && r.size() == n - at);
    REACH();
}
CONTRACT(C02_zview_subview_ok)(const char *p, size_t n, size_t at) {
    TEXT(p, n)
    ASSUME(at <= n);
    const ZStringView z(p, n);
    NO_THROW((void)z.subview(at));
    REACH();
}
CONTRACT(C02_string_views)(CString &s_in) {
    START
    CString s(move(s_in));
    const size_t n = s.bytes.size() - 1, cp = s.bytes.capacity();
    const char *const d = ((const CString &)s).data();
    ASSUME(s.bytes.size() >= 1 && n < cp && cp < LIM && (size_t)d < LIM * 8 && d);
    g_text = d;
    g_len = n;
    NO_THROW({
        const CStringView v = s.view();
        REQUIRE(v.data() == d && v.size() == n);
        const CStringView v2(s);
        REQUIRE(v2.data() == d && v2.size() == n);
        const ZStringView z = s.zview();
        REQUIRE(z.c_str() == d && z.size() == n);
    });
    REACH();
}
CONTRACT(C02_overlaps)(const char *p, size_t n, const char *q, size_t m, const char *x) {
    TEXT(p, n)
    ASSUME(m < LIM && (size_t)q < LIM * 8 && q);
    CStringView a(p, n), b(q, m);
    const bool o = a.overlaps(b), o2 = b.overlaps(a);
    REQUIRE(o == o2);
    if(x >= p && x < p + n && x >= q && x < q + m)
        REQUIRE(o);
    if(p + n <= q || q + m <= p)
        REQUIRE(!o);
    REACH();
}

// ---- C32 ------------------------------------------------------------------
// Follow the byte at offset k of text p
#define AT(slot, p, k) (vk_watch8(slot, (p) + (k)), (p)[k])

CONTRACT(C32_find_char)(const char *p, size_t n, char c) {
    TEXT(p, n)
    const CStringView v(p, n);
    size_t r;
    NO_THROW(r = v.find(c));
    REQUIRE(r == NPOS || r < n);
    REACH();
}
CONTRACT(C32_find_char_match)(const char *p, size_t n, char c, size_t k) {
    TEXT(p, n)
    ASSUME(k < n);
    const CStringView v(p, n);
    const char y = AT(1, p, k);
    ASSUME(y != c);
    const size_t r = v.find(c);
    REQUIRE(r != k);
    REACH();
}
CONTRACT(C32_find_char_first)(const char *p, size_t n, char c, size_t k) {
    TEXT(p, n)
    ASSUME(k < n);
    const CStringView v(p, n);
    const char y = AT(1, p, k);
    ASSUME(y == c);
    const size_t r = v.find(c);
    REQUIRE(r <= k);
    REACH();
}
CONTRACT(C32_rfind_char)(CString &s_in, char c) {
    START
    CString s(move(s_in));
    const size_t n = s.bytes.size() - 1, cp = s.bytes.capacity();
    const char *const d = ((const CString &)s).data();
    ASSUME(s.bytes.size() >= 1 && n < cp && cp < LIM && (size_t)d < LIM * 8 && d);
    const size_t r = s.rfind(c);
    REQUIRE(r == NPOS || r < n);
    REACH();
}
CONTRACT(C32_rfind_char_match)(CString &s_in, char c, size_t k) {
    START
    CString s(move(s_in));
    const size_t n = s.bytes.size() - 1, cp = s.bytes.capacity();
    const char *const d = ((const CString &)s).data();
    ASSUME(s.bytes.size() >= 1 && n < cp && cp < LIM && (size_t)d < LIM * 8 && d);
    ASSUME(k < n);
    const char y = AT(1, d, k);
    ASSUME(y != c);
    const size_t r = s.rfind(c);
    REQUIRE(r != k);
    REACH();
}
CONTRACT(C32_rfind_char_last)(CString &s_in, char c, size_t k) {
    START
    CString s(move(s_in));
    const size_t n = s.bytes.size() - 1, cp = s.bytes.capacity();
    const char *const d = ((const CString &)s).data();
    ASSUME(s.bytes.size() >= 1 && n < cp && cp < LIM && (size_t)d < LIM * 8 && d);
    ASSUME(k < n);
    const char y = AT(1, d, k);
    ASSUME(y == c);
    const size_t r = s.rfind(c);
    REQUIRE(r != NPOS && r >= k);
    REACH();
}
// what is found is there
CONTRACT(C32_find_text)(const char *p, size_t n, const char *t, size_t m, size_t j) {
    TEXT(p, n)
    ASSUME(m < LIM && (size_t)t < LIM * 8 && t && j < m);
    const CStringView v(p, n), w(t, m);
    const size_t r = v.find(w);
    if(r != NPOS) {
        REQUIRE(r <= n && m <= n - r);
        REACH();
    }
}
// where text t differs from p at j, it is not found there
#define NOT_FOUND(NAME, M, J)                                                                      \
    CONTRACT(C32_find_text_##NAME)(const char *p, size_t n, const char *t, size_t k, size_t j_) {  \
        TEXT(p, n)                                                                                 \
        const size_t m = M, j = J;                                                                 \
        ASSUME(m < LIM && (size_t)t < LIM * 8 && t && j < m && k < n);                             \
        ASSUME(t > p + n); /* unrelated objects, in either order */                                \
        const CStringView v(p, n), w(t, m);                                                        \
        const char y = AT(1, p, k), z = AT(2, t, j);                                               \
        ASSUME(y != z);                                                                            \
        const size_t r = v.find(w);                                                                \
        REQUIRE(r == NPOS || r + j != k);                                                          \
        REACH();                                                                                   \
    }
NOT_FOUND(differs1, 1, 0)
NOT_FOUND(differs20, (vk_unroll(2), 2), 0)
NOT_FOUND(differs21, (vk_unroll(2), 2), 1)
NOT_FOUND(differs30, (vk_unroll(3), 3), 0)
NOT_FOUND(differs31, (vk_unroll(3), 3), 1)
NOT_FOUND(differs32, (vk_unroll(3), 3), 2)
NOT_FOUND(differs_first, n, 0)
// a text of the same size
NOT_FOUND(differs_same, n, k)
CONTRACT(C32_find_text_none)(const char *p, size_t n, const char *t, size_t m) {
    TEXT(p, n)
    ASSUME(m < LIM && (size_t)t < LIM * 8 && t && m > n);
    ASSUME(t > p + n); // unrelated objects, in either order
    const CStringView v(p, n), w(t, m);
    NO_THROW(REQUIRE(v.find(w) == NPOS));
    REACH();
}
CONTRACT(C32_find_text_empty)(const char *p, size_t n, const char *t) {
    TEXT(p, n)
    ASSUME((size_t)t < LIM * 8 && t);
    ASSUME(t > p + n); // unrelated objects, in either order
    const CStringView v(p, n), w(t, (size_t)0);
    REQUIRE(v.find(w) == 0);
    REACH();
}
CONTRACT(C32_find_text_first1)(const char *p, size_t n, const char *t, size_t k) {
    TEXT(p, n)
    ASSUME((size_t)t < LIM * 8 && t && k < n);
    ASSUME(t > p + n); // unrelated objects, in either order
    const CStringView v(p, n), w(t, (size_t)1);
    const char y = AT(1, p, k), z = AT(2, t, 0);
    ASSUME(y == z);
    const size_t r = v.find(w);
    REQUIRE(r <= k);
    REACH();
}
CONTRACT(C32_find_text_first2)(const char *p, size_t n, const char *t, size_t k) {
    TEXT(p, n)
    ASSUME((size_t)t < LIM * 8 && t && n >= 2 && k < n - 1);
    ASSUME(t > p + n); // unrelated objects, in either order
    const CStringView v(p, n), w(t, (size_t)2);
    const char y0 = AT(1, p, k), z0 = AT(2, t, 0), y1 = AT(3, p, k + 1), z1 = AT(4, t, 1);
    ASSUME(y0 == z0 && y1 == z1);
    vk_unroll(2);
    const size_t r = v.find(w);
    REQUIRE(r <= k);
    REACH();
}
CONTRACT(C32_find_text_first3)(const char *p, size_t n, const char *t, size_t k) {
    TEXT(p, n)
    ASSUME((size_t)t < LIM * 8 && t && n >= 3 && k < n - 2);
    ASSUME(t > p + n); // unrelated objects, in either order
    const CStringView v(p, n), w(t, (size_t)3);
    const char y0 = AT(1, p, k), z0 = AT(2, t, 0), y1 = AT(3, p, k + 1), z1 = AT(4, t, 1), y2 = AT(5, p, k + 2), z2 = AT(6, t, 2);
    ASSUME(y0 == z0 && y1 == z1 && y2 == z2);
    vk_unroll(3);
    const size_t r = v.find(w);
    REQUIRE(r <= k);
    REACH();
}
// comparing a text with itself, or a part of it
CONTRACT(C32_view_equal_self)(const char *p, size_t n, size_t m) {
    TEXT(p, n)
    ASSUME(m <= n);
    const CStringView v(p, n), w(p, m);
    REQUIRE((v == w) == (n == m));
    REQUIRE(v.starts_with(w));
    REQUIRE(w.starts_with(v) == (n == m));
    REACH();
}
#define DIFFER(NAME, ...)                                                                          \
    CONTRACT(C32_view_##NAME)(const char *p, size_t n, const char *t, size_t m, size_t k) {        \
        TEXT(p, n)                                                                                 \
        ASSUME(m < LIM && (size_t)t < LIM * 8 && t && k < n && k < m);                             \
        const CStringView v(p, n), w(t, m);                                                        \
        const char y = AT(1, p, k), z = AT(2, t, k);                                               \
        ASSUME(y != z);                                                                            \
        NO_THROW(REQUIRE(!(__VA_ARGS__)));                                                         \
        REACH();                                                                                   \
    }
DIFFER(equal, v == w)
DIFFER(starts, v.starts_with(w))
CONTRACT(C32_view_sizes)(const char *p, size_t n, const char *t, size_t m) {
    TEXT(p, n)
    ASSUME(m < LIM && (size_t)t < LIM * 8 && t && n < m);
    const CStringView v(p, n), w(t, m);
    REQUIRE(!(v == w) && !(w == v) && !v.starts_with(w));
    REACH();
}
CONTRACT(C32_view_less_prefix)(const char *p, size_t n, size_t m) {
    TEXT(p, n)
    ASSUME(m <= n);
    const CStringView v(p, n), w(p, m);
    REQUIRE((w < v) == (m < n));
    REQUIRE(!(v < w));
    REACH();
}
// the first character decides
CONTRACT(C32_view_less_first)(const char *p, size_t n, const char *t, size_t m) {
    TEXT(p, n)
    ASSUME(m < LIM && (size_t)t < LIM * 8 && t && n > 0 && m > 0);
    const CStringView v(p, n), w(t, m);
    const unsigned char y = AT(1, p, 0), z = AT(2, t, 0);
    ASSUME(y != z);
    REQUIRE((v < w) == (y < z));
    REACH();
}
CONTRACT(C32_view_less_empty)(const char *p, size_t n, const char *t, size_t m) {
    TEXT(p, n)
    ASSUME(m < LIM && (size_t)t < LIM * 8 && t && n == 0);
    const CStringView v(p, n), w(t, m);
    REQUIRE((v < w) == (m > 0) && !(w < v));
    REACH();
}
// all texts of up to three characters
CONTRACT(C32_view_less_short)(const char *p, const char *t, size_t n, size_t m) {
    TEXT(p, n)
    ASSUME((size_t)t < LIM * 8 && t && n <= 3 && m <= 3);
    vk_unroll(5);
    unsigned char y[3] = {0, 0, 0}, z[3] = {0, 0, 0};
    y[0] = AT(1, p, 0);
    y[1] = AT(2, p, 1);
    y[2] = AT(3, p, 2);
    z[0] = AT(4, t, 0);
    z[1] = AT(5, t, 1);
    z[2] = AT(6, t, 2);
    const CStringView v(p, n), w(t, m);
    bool less = n < m, eq = n == m;
    const size_t c = n < m ? n : m;
    if(c > 2 && y[2] != z[2])
        less = y[2] < z[2], eq = false;
    if(c > 1 && y[1] != z[1])
        less = y[1] < z[1], eq = false;
    if(c > 0 && y[0] != z[0])
        less = y[0] < z[0], eq = false;
    REQUIRE((v < w) == less);
    REQUIRE((v == w) == eq);
    REACH();
}
// no comparison and no search reads a byte outside of the texts
#define NEITHER(p, n, t, m, x)                                                                     \
    ASSUME((size_t)x < LIM * 128 && x && (x < p || x >= p + n) && (x < t || x >= t + m));          \
    vk_guard(0, x);
#define QUIET REQUIRE(!vk_guard_hit(0, nullptr));
#define IN_BOUNDS(NAME, ...)                                                                       \
    CONTRACT(C32_bounds_##NAME)(const char *p, size_t n, const char *t, size_t m, const char *x, char c) { \
        TEXT(p, n)                                                                                 \
        ASSUME(m < LIM && (size_t)t < LIM * 8 && t);                                               \
        NEITHER(p, n, t, m, x)                                                                     \
        const CStringView v(p, n), w(t, m);                                                        \
        __VA_ARGS__;                                                                               \
        QUIET                                                                                      \
        REACH();                                                                                   \
    }
IN_BOUNDS(find_text, (void)v.find(w))
IN_BOUNDS(find_char, (void)v.find(c))
IN_BOUNDS(equal, (void)(v == w))
IN_BOUNDS(less, (void)(v < w))
IN_BOUNDS(starts, (void)v.starts_with(w))
IN_BOUNDS(natural, (void)v.natural_order(w))

// ---- byte buffers and strings ---------------------------------------------
static inline void mk(Bytes &b, const char *p, size_t n, size_t cp) {
    b.buf.ptr = const_cast<char *>(p);
    b.buf.array_size = cp;
    b.bufsize = n;
}
#define TWO(p, n, t, m)                                                                            \
    TEXT(p, n)                                                                                     \
    ASSUME(m < LIM && (size_t)t < LIM * 8 && t);                                                   \
    Bytes a, b;                                                                                    \
    mk(a, p, n, n + 5);                                                                            \
    mk(b, t, m, m + 7);
#define ORDER(less, eq)                                                                            \
    NO_THROW({                                                                                     \
        const bool l_ = less, e_ = eq;                                                             \
        REQUIRE((a < b) == l_);                                                                    \
    });                                                                                            \
    NO_THROW({                                                                                     \
        const bool l_ = less, e_ = eq;                                                             \
        const int c_ = a <=> b;                                                                    \
        REQUIRE((c_ < 0) == l_);                                                                   \
    });                                                                                            \
    NO_THROW({                                                                                     \
        const bool e_ = eq;                                                                        \
        const int c_ = a <=> b;                                                                    \
        REQUIRE((c_ == 0) == e_);                                                                  \
    });                                                                                            \
    NO_THROW({                                                                                     \
        const bool e_ = eq;                                                                        \
        REQUIRE((a == b) == e_);                                                                   \
    });
CONTRACT(C32_bytes_self)(const char *p, size_t n, size_t m) {
    TWO(p, n, p, m)
    ASSUME(m <= n);
    ORDER(false, m == n)
    REACH();
}
CONTRACT(C32_bytes_prefix)(const char *p, size_t n, size_t m) {
    TWO(p, n, p, m)
    ASSUME(n < m);
    ORDER(true, false)
    REACH();
}
CONTRACT(C32_bytes_first)(const char *p, size_t n, const char *t, size_t m) {
    TWO(p, n, t, m)
    ASSUME(n > 0 && m > 0);
    const unsigned char y = AT(1, p, 0), z = AT(2, t, 0);
    ASSUME(y != z);
    ORDER(y < z, false)
    REACH();
}
CONTRACT(C32_bytes_empty_left)(const char *p, size_t n, const char *t, size_t m) {
    TWO(p, n, t, m)
    ASSUME(n == 0);
    ORDER(n < m, n == m)
    REACH();
}
CONTRACT(C32_bytes_empty_right)(const char *p, size_t n, const char *t, size_t m) {
    TWO(p, n, t, m)
    ASSUME(m == 0);
    ORDER(false, n == m)
    REACH();
}
CONTRACT(C32_bytes_equal_differ)(const char *p, size_t n, const char *t, size_t m, size_t k) {
    TWO(p, n, t, m)
    ASSUME(k < n && k < m);
    const char y = AT(1, p, k), z = AT(2, t, k);
    ASSUME(y != z);
    NO_THROW(REQUIRE(!(a == b)));
    REACH();
}
CONTRACT(C32_bytes_compare_differ)(const char *p, size_t n, const char *t, size_t m, size_t k) {
    TWO(p, n, t, m)
    ASSUME(k < n && k < m);
    const char y = AT(1, p, k), z = AT(2, t, k);
    ASSUME(y != z);
    NO_THROW(REQUIRE((a <=> b) != 0));
    REACH();
}
CONTRACT(C32_bytes_sizes)(const char *p, size_t n, const char *t, size_t m) {
    TWO(p, n, t, m)
    ASSUME(n != m);
    NO_THROW(REQUIRE(!(a == b)));
    REACH();
}
CONTRACT(C32_bytes_compare_sizes)(const char *p, size_t n, const char *t, size_t m) {
    TWO(p, n, t, m)
    ASSUME(n != m);
    NO_THROW(REQUIRE((a <=> b) != 0));
    REACH();
}
#define SHORT(NAME, ...)                                                                           \
    CONTRACT(C32_bytes_short_##NAME)(const char *p, const char *t, size_t n, size_t m) {           \
        TWO(p, n, t, m)                                                                            \
        ASSUME(n <= 3 && m <= 3);                                                                  \
        vk_unroll(5);                                                                              \
        unsigned char y[3] = {0, 0, 0}, z[3] = {0, 0, 0};                                          \
        y[0] = AT(1, p, 0);                                                                        \
        y[1] = AT(2, p, 1);                                                                        \
        y[2] = AT(3, p, 2);                                                                        \
        z[0] = AT(4, t, 0);                                                                        \
        z[1] = AT(5, t, 1);                                                                        \
        z[2] = AT(6, t, 2);                                                                        \
        bool less = n < m, eq = n == m;                                                            \
        const size_t c = n < m ? n : m;                                                            \
        if(c > 2 && y[2] != z[2])                                                                  \
            less = y[2] < z[2], eq = false;                                                        \
        if(c > 1 && y[1] != z[1])                                                                  \
            less = y[1] < z[1], eq = false;                                                        \
        if(c > 0 && y[0] != z[0])                                                                  \
            less = y[0] < z[0], eq = false;                                                        \
        REQUIRE(__VA_ARGS__);                                                                      \
        REACH();                                                                                   \
    }
SHORT(less, (a < b) == less)
SHORT(compare, ((a <=> b) < 0) == less)
SHORT(compare_eq, ((a <=> b) == 0) == eq)
SHORT(equal, (a == b) == eq)
// strings compare as their text does, views of them likewise
CONTRACT(C32_string_self)(const char *p, size_t n, size_t m) {
    TEXT(p, n)
    ASSUME(m <= n);
    CString a, b;
    mk(a.bytes, p, n + 1, n + 5);
    mk(b.bytes, p, n + 1, n + 9);
    NO_THROW(REQUIRE(a == b && (a <=> b) == 0 && a == a.view() && a == b.view()));
    REQUIRE((a == CStringView(p, m)) == (m == n));
    REACH();
}
#define SDIFFER(NAME, ...)                                                                         \
CONTRACT(C32_string_differ_##NAME)(const char *p, size_t n, const char *t, size_t m, size_t k) {   \
    TEXT(p, n)                                                                                     \
    ASSUME(m < LIM && (size_t)t < LIM * 8 && t);                                                   \
    CString a, b;                                                                                  \
    mk(a.bytes, p, n + 1, n + 5);                                                                  \
    mk(b.bytes, t, m + 1, m + 9);                                                                  \
    ASSUME(k < n && k < m);                                                                        \
    const char y = AT(1, p, k), z = AT(2, t, k);                                                   \
    ASSUME(y != z);                                                                                \
    NO_THROW(REQUIRE(__VA_ARGS__));                                                                \
    REACH();                                                                                       \
}
SDIFFER(equal, !(a == b))
SDIFFER(compare, (a <=> b) != 0)
SDIFFER(view, !(a == b.view()))
// text ending in NUL: equal exactly when it has the same characters and ends there
#define CTEXT(NAME, PREP, ...)                                                                     \
    CONTRACT(C32_text_##NAME)(const char *p, size_t n, const char *t) {                            \
        TEXT(p, n)                                                                                 \
        ASSUME((size_t)t < LIM * 8 && t && n <= 3);                                                \
        vk_unroll(5);                                                                              \
        unsigned char y[4] = {0, 0, 0, 0}, z[4] = {0, 0, 0, 0};                                    \
        y[0] = AT(1, p, 0);                                                                        \
        y[1] = AT(2, p, 1);                                                                        \
        y[2] = AT(3, p, 2);                                                                        \
        z[0] = AT(4, t, 0);                                                                        \
        z[1] = AT(5, t, 1);                                                                        \
        z[2] = AT(6, t, 2);                                                                        \
        z[3] = AT(7, t, 3);                                                                        \
        y[3] = AT(8, p, 3);                                                                        \
        ASSUME((n <= 0 || y[0]) && (n <= 1 || y[1]) && (n <= 2 || y[2]));                          \
        ASSUME(t > p + 8); g_top = p + 8; g_top2 = t + 8;                                          \
        const bool e0 = n <= 0 || y[0] == z[0], e1 = n <= 1 || y[1] == z[1], e2 = n <= 2 || y[2] == z[2]; \
        const bool eq = e0 && e1 && e2 && (n == 0 ? z[0] : n == 1 ? z[1] : n == 2 ? z[2] : z[3]) == 0;                                               \
        PREP;                                                                                      \
        REQUIRE(__VA_ARGS__);                                                                      \
        REACH();                                                                                   \
    }
#define COMMA ,
CTEXT(view, const CStringView v(p COMMA n), (v == t) == eq)
CTEXT(string, ASSUME((n == 0 ? y[0] : n == 1 ? y[1] : n == 2 ? y[2] : y[3]) == 0); CString a; mk(a.bytes COMMA p COMMA n + 1 COMMA n + 5), (a == t) == eq)
CTEXT(zview, ASSUME((n == 0 ? y[0] : n == 1 ? y[1] : n == 2 ? y[2] : y[3]) == 0); const ZStringView a(p COMMA n), (a == t) == eq)
// ---- C15: text that an operation refuses raises; it does not end the program ------------------
CONTRACT(C15_upper)(const char *p, size_t n) {
    TEXT(p, n)
    const CStringView v(p, n);
    try {
        CString r = v.upper();
    } catch(...) {}
    REACH();
}
CONTRACT(C15_lower)(const char *p, size_t n) {
    TEXT(p, n)
    const CStringView v(p, n);
    try {
        CString r = v.lower();
    } catch(...) {}
    REACH();
}
CONTRACT(C15_u8_assign_view)(U8String &s_in, const U8StringView &__restrict v) {
    START
    U8String s(move(s_in));
    const size_t n = s.cstring.bytes.size() - 1, cp = s.cstring.bytes.capacity();
    const char *const d = ((const CString &)s.cstring).data(), *const a = (const char *)v.start.buf, *const e = (const char *)v.stop.buf;
    ASSUME(s.cstring.bytes.size() >= 1 && n < cp && cp < LIM && (size_t)d < LIM * 8 && d);
    ASSUME(a && a <= e && (size_t)e < LIM * 8);
    g_top = d + cp;
    g_top2 = e;
    try {
        s = v;
    } catch(...) {}
    REACH();
}
