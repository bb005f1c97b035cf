// flags: -fno-access-control
// C34: FixedCString
#include "vk.hpp"
extern "C" size_t vk_opaque_index() noexcept;
const size_t LIM = size_t(1) << 40;
static const char *g_text; // a C string of known length
static size_t g_len;
static inline size_t vk_strlen(const char *p) {
    if(p == g_text)
        return g_len;
    const size_t l = vk_opaque_index();
    ASSUME(l < LIM && p[l] == '\0');
    return l;
}
#define strlen vk_strlen
#include "pystd2026.cpp"
using namespace V;
#define WATCH8(slot, p) vk_watch8(slot, p)

// Storage for a FixedCString at an arbitrary place
#define PLACE(s)                                                                                   \
    ASSUME((size_t)&s < LIM * 8 && &s);
// A well-formed one of n characters
#define GIVEN(s, n)                                                                                \
    PLACE(s)                                                                                       \
    vk_watch32(8, &s.strsize);                                                                     \
    const uint32_t n = s.strsize;                                                                  \
    ASSUME(n <= N);
#define SECOND(s, n)                                                                               \
    PLACE(s)                                                                                       \
    vk_watch32(9, &s.strsize);                                                                     \
    const uint32_t n = s.strsize;                                                                  \
    ASSUME(n <= N);
#define APART(a, an, b, bn)                                                                        \
    ASSUME((size_t)(a) + (an) <= (size_t)(b) || (size_t)(b) + (bn) <= (size_t)(a));
#define TEXT(p, n)                                                                                 \
    ASSUME(n < LIM && (size_t)p < LIM * 8 && p);
// s holds m characters, and the followed byte (slot 2) is its terminator
#define HOLDS(s, m)                                                                                \
    {                                                                                              \
        const FixedCString<N> &c_ = s;                                                             \
        REQUIRE(c_.size() == (m) && (m) <= N);                                                     \
        REQUIRE(c_.buf[m] == '\0');                                                                \
        REQUIRE(c_.is_empty() == ((m) == 0));                                                      \
        REQUIRE(c_.c_str() == &c_.buf[0] && s.c_str() == &c_.buf[0]);                              \
        const CStringView v_ = c_.view();                                                          \
        REQUIRE(v_.data() == &c_.buf[0] && v_.size() == (m));                                      \
    }

// an arbitrary byte outside of s and [p, p + n)
#define OUTSIDE(s, p, n, x)                                                                        \
    ASSUME((size_t)x < LIM * 128 && x && (x < (const char *)&s || x >= (const char *)&s + sizeof s) && (x < p || x >= p + n));    \
    vk_guard(0, x);
#define QUIET REQUIRE(!vk_guard_hit(0, nullptr));

#define ALL(FIX) FIX(10, small) FIX(1000, large)
#define NAME(x, tag) CONTRACT(C34_##x##_##tag)

#define C_DEFAULT(N_, tag)                                                                         \
    NAME(default, tag)(FixedCString<N_> &s) {                                                      \
        constexpr size_t N = N_;                                                                   \
        PLACE(s)                                                                                   \
        WATCH8(2, s.buf);                                                                          \
        NO_THROW(new(&s) FixedCString<N>());                                                       \
        HOLDS(s, 0)                                                                                \
        REACH();                                                                                   \
    }
ALL(C_DEFAULT)

#define C_COPY(N_, tag)                                                                            \
    NAME(copy, tag)(FixedCString<N_> &__restrict s, FixedCString<N_> &__restrict t, unsigned k) {    \
        constexpr size_t N = N_;                                                                   \
        SECOND(t, m)                                                                               \
        PLACE(s)                                                                                   \
        APART(&s, sizeof s, &t, sizeof t)                                                          \
        ASSUME(k <= m);                                                                            \
        WATCH8(1, t.buf + k);                                                                      \
        const char y = t.buf[k];                                                                   \
        ASSUME((y == '\0') == (k == m));                                                                          \
        WATCH8(2, s.buf + k);                                                                      \
        NO_THROW(new(&s) FixedCString<N>((const FixedCString<N> &)t));\
        REQUIRE(s.buf[k] == y && s.size() == m && t.buf[k] == y && t.size() == m);                 \
        REACH();                                                                                   \
    }
ALL(C_COPY)
#define C_COPY_ASSIGN(N_, tag)                                                                            \
    NAME(copy_assign, tag)(FixedCString<N_> &__restrict s, FixedCString<N_> &__restrict t, unsigned k) {    \
        constexpr size_t N = N_;                                                                   \
        SECOND(t, m)                                                                               \
        PLACE(s)                                                                                   \
        APART(&s, sizeof s, &t, sizeof t)                                                          \
        ASSUME(k <= m);                                                                            \
        WATCH8(1, t.buf + k);                                                                      \
        const char y = t.buf[k];                                                                   \
        ASSUME((y == '\0') == (k == m));                                                                          \
        WATCH8(2, s.buf + k);                                                                      \
        vk_watch32(8, &s.strsize); NO_THROW(s = (const FixedCString<N> &)t);\
        REQUIRE(s.buf[k] == y && s.size() == m && t.buf[k] == y && t.size() == m);                 \
        REACH();                                                                                   \
    }
ALL(C_COPY_ASSIGN)

#define C_MOVE(N_, tag)                                                                            \
    NAME(move, tag)(FixedCString<N_> &__restrict s, FixedCString<N_> &__restrict t, unsigned k) {    \
        constexpr size_t N = N_;                                                                   \
        SECOND(t, m)                                                                               \
        PLACE(s)                                                                                   \
        APART(&s, sizeof s, &t, sizeof t)                                                          \
        ASSUME(k <= m);                                                                            \
        WATCH8(1, t.buf + k);                                                                      \
        const char y = t.buf[k];                                                                   \
        WATCH8(2, s.buf + k);                                                                      \
        WATCH8(3, t.buf);                                                                          \
        NO_THROW(new(&s) FixedCString<N>(move(t)));\
        REQUIRE(s.buf[k] == y && s.size() == m);                                                   \
        HOLDS(t, 0)                                                                                \
        REACH();                                                                                   \
    }
ALL(C_MOVE)
#define C_MOVE_ASSIGN(N_, tag)                                                                            \
    NAME(move_assign, tag)(FixedCString<N_> &__restrict s, FixedCString<N_> &__restrict t, unsigned k) {    \
        constexpr size_t N = N_;                                                                   \
        SECOND(t, m)                                                                               \
        PLACE(s)                                                                                   \
        APART(&s, sizeof s, &t, sizeof t)                                                          \
        ASSUME(k <= m);                                                                            \
        WATCH8(1, t.buf + k);                                                                      \
        const char y = t.buf[k];                                                                   \
        WATCH8(2, s.buf + k);                                                                      \
        WATCH8(3, t.buf);                                                                          \
        vk_watch32(8, &s.strsize); NO_THROW(s = move(t));\
        REQUIRE(s.buf[k] == y && s.size() == m);                                                   \
        HOLDS(t, 0)                                                                                \
        REACH();                                                                                   \
    }
ALL(C_MOVE_ASSIGN)

#define C_SELF(N_, tag)                                                                            \
    NAME(self, tag)(FixedCString<N_> &s, unsigned k) {                                             \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        ASSUME(k <= n);                                                                            \
        WATCH8(1, s.buf + k);                                                                      \
        const char y = s.buf[k];                                                                   \
        const size_t how = vk_opaque_index();                                                      \
        if(how == 0)                                                                               \
            NO_THROW(s = move(s));                                                                 \
        else if(how == 1)                                                                          \
            NO_THROW(s = (const FixedCString<N> &)s);                                              \
        else                                                                                       \
            NO_THROW(s = s.view());                                                                \
        REQUIRE(s.buf[k] == y && s.size() == n);                                                   \
        REACH();                                                                                   \
    }
ALL(C_SELF)
#define C_PREFIX(N_, tag)                                                                          \
    NAME(prefix, tag)(FixedCString<N_> &s, unsigned k, unsigned m) {                               \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        ASSUME(k < m && m <= n);                                                                   \
        WATCH8(1, s.buf + k);                                                                      \
        const char y = s.buf[k];                                                                   \
        WATCH8(2, s.buf + m);                                                                      \
        const char z = s.buf[m];                                                                   \
        ASSUME(m < n || z == 0);                                                                   \
        NO_THROW(s = CStringView(s.buf, m));                                                       \
        REQUIRE(s.buf[k] == y);                                                                    \
        HOLDS(s, m)                                                                                \
        REACH();                                                                                   \
    }
ALL(C_PREFIX)

// construction and assignment from text
#define C_SIZED(N_, tag)                                                                           \
    NAME(sized, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, unsigned m, unsigned k) {                 \
        constexpr size_t N = N_;                                                                   \
        PLACE(s)                                                                                   \
        ASSUME(m != (uint32_t)-1);                                                                 \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m)                                                                  \
        ASSUME(k < m);                                                                             \
        WATCH8(1, p + k);                                                                          \
        const char y = p[k];                                                                       \
        WATCH8(2, s.buf + k);                                                                      \
        new(&s) FixedCString<N>(p, m);                                                             \
        REQUIRE(m <= N && s.size() == m);                                                          \
        REQUIRE(s.buf[k] == y);                                                                    \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(sized_end, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, unsigned m) {   \
        constexpr size_t N = N_;                                                                   \
        PLACE(s)                                                                                   \
        ASSUME(m != (uint32_t)-1);                                                                 \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m)                                                                  \
        ASSUME(m <= N);                                                                            \
        WATCH8(2, s.buf + m);                                                                      \
        NO_THROW(new(&s) FixedCString<N>(p, m));                                                   \
        HOLDS(s, m)                                                                                \
        REACH();                                                                                   \
    }
ALL(C_SIZED)
#define C_TEXT(N_, tag)                                                                            \
    NAME(text, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m, unsigned k) {                    \
        constexpr size_t N = N_;                                                                   \
        PLACE(s)                                                                                   \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        g_text = p;                                                                                \
        g_len = m;                                                                                 \
        ASSUME(k <= m && k <= N);                                                                  \
        WATCH8(3, p + m);                                                                          \
        const char e = p[m];                                                                       \
        ASSUME(e == 0);                                                                            \
        WATCH8(1, p + k);                                                                          \
        const char y = p[k];                                                                       \
        ASSUME((y == 0) == (k == m));                                                              \
        WATCH8(2, s.buf + k);                                                                      \
        new(&s) FixedCString<N>(p);                                                                \
        const size_t r = s.size();                                                                 \
        REQUIRE(r <= N && r <= m);                                                                 \
        REQUIRE(k > r || s.buf[k] == y);                                                           \
        REQUIRE(k != r || k == m);                                                                 \
        REACH();                                                                                   \
    }
ALL(C_TEXT)
#define C_TEXT_OK(N_, tag)                                                                         \
    NAME(text_ok, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m) {       \
        constexpr size_t N = N_;                                                                   \
        PLACE(s)                                                                                   \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        g_text = p;                                                                                \
        g_len = m;                                                                                 \
        ASSUME(m <= N);                                                                            \
        WATCH8(3, p + m);                                                                          \
        const char e = p[m];                                                                       \
        ASSUME(e == 0);                                                                            \
        NO_THROW(new(&s) FixedCString<N>(p));                                                      \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(text_bounds, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m, const char *x) {       \
        constexpr size_t N = N_;                                                                   \
        PLACE(s)                                                                                   \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        g_text = p;                                                                                \
        g_len = m;                                                                                 \
        WATCH8(3, p + m);                                                                          \
        const char e = p[m];                                                                       \
        ASSUME(e == 0);                                                                            \
        OUTSIDE(s, p, m + 1, x)                                                                    \
        try {                                                                                      \
            new(&s) FixedCString<N>(p);                                                            \
        } catch(...) {}                                                                            \
        QUIET                                                                                      \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(sized_bounds, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, unsigned m, const char *x) {       \
        constexpr size_t N = N_;                                                                   \
        PLACE(s)                                                                                   \
        ASSUME(m != (uint32_t)-1);                                                                 \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m)                                                                  \
        OUTSIDE(s, p, m, x)                                                                        \
        try {                                                                                      \
            new(&s) FixedCString<N>(p, m);                                                         \
        } catch(...) {}                                                                            \
        QUIET                                                                                      \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(view_bounds, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m, const char *x) {       \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m)                                                                  \
        OUTSIDE(s, p, m, x)                                                                        \
        try {                                                                                      \
            s = CStringView(p, m);                                                                 \
        } catch(...) {}                                                                            \
        QUIET                                                                                      \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(copy_bounds, tag)(FixedCString<N_> &__restrict s, FixedCString<N_> &__restrict t, const char *x) {    \
        constexpr size_t N = N_;                                                                   \
        SECOND(t, m)                                                                               \
        GIVEN(s, n)                                                                                \
        APART(&s, sizeof s, &t, sizeof t)                                                          \
        OUTSIDE(s, (const char *)&t, sizeof t, x)                                                  \
        NO_THROW(s = (const FixedCString<N> &)t);                                                  \
        QUIET                                                                                      \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(move_bounds, tag)(FixedCString<N_> &__restrict s, FixedCString<N_> &__restrict t, const char *x) {    \
        constexpr size_t N = N_;                                                                   \
        SECOND(t, m)                                                                               \
        GIVEN(s, n)                                                                                \
        APART(&s, sizeof s, &t, sizeof t)                                                          \
        OUTSIDE(s, (const char *)&t, sizeof t, x)                                                  \
        NO_THROW(s = move(t));                                                                     \
        QUIET                                                                                      \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(compare_bounds, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m, const char *x) {       \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        WATCH8(3, p + m);                                                                          \
        const char e = p[m];                                                                       \
        ASSUME(e == 0);                                                                            \
        OUTSIDE(s, p, m + 1, x)                                                                    \
        NO_THROW((void)(s == p));                                                                  \
        QUIET                                                                                      \
        REACH();                                                                                   \
    }
ALL(C_TEXT_OK)
CONTRACT(C34_equal_same)(FixedCString<10> &__restrict s, const char *__restrict p, size_t n) {
    constexpr size_t N = 10;
    vk_unroll(4);
    ASSUME(n == 0 || n == 1 || n == 2 || n == 3);
    PLACE(s)
    TEXT(p, n)
    APART(&s, sizeof s, p, n + 1)
    vk_watch32(8, &s.strsize);
    const uint32_t m = s.strsize;
    ASSUME(m == n);
    WATCH8(1, s.buf);
    WATCH8(2, s.buf + 1);
    WATCH8(3, s.buf + 2);
    WATCH8(4, p);
    WATCH8(5, p + 1);
    WATCH8(6, p + 2);
    WATCH8(7, p + n);
    const char a0 = s.buf[0], a1 = s.buf[1], a2 = s.buf[2], b0 = p[0], b1 = p[1], b2 = p[2], e = p[n];
    ASSUME(e == 0);
    ASSUME(n < 1 || (a0 == b0 && b0 != 0));
    ASSUME(n < 2 || (a1 == b1 && b1 != 0));
    ASSUME(n < 3 || (a2 == b2 && b2 != 0));
    NO_THROW(REQUIRE(s == p));
    REACH();
}
#define C_VIEW(N_, tag)                                                                            \
    NAME(view, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m, size_t k) {                      \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        ASSUME(k < m);                                                                             \
        WATCH8(1, p + k);                                                                          \
        const char y = p[k];                                                                       \
        WATCH8(2, s.buf + k);                                                                      \
        s = CStringView(p, m);                                                                     \
        REQUIRE(m <= N && s.size() == m);                                                          \
        REQUIRE(s.buf[k] == y);                                                                    \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(view_end, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m) {      \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        ASSUME(m <= N);                                                                            \
        WATCH8(2, s.buf + m);                                                                      \
        NO_THROW(s = CStringView(p, m));                                                           \
        HOLDS(s, m)                                                                                \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(view_long, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m, size_t k) {      \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        ASSUME(m > N && k <= n);                                                                   \
        WATCH8(2, s.buf + k);                                                                      \
        const char y = s.buf[k];                                                                   \
        try {                                                                                      \
            s = CStringView(p, m);                                                                 \
            UNREACHABLE("a text that is too long is refused");                                     \
        } catch(...) {}                                                                            \
        REQUIRE(s.buf[k] == y && s.size() == n);                                                   \
        REACH();                                                                                   \
    }
ALL(C_VIEW)
#define C_POP(N_, tag)                                                                             \
    NAME(pop, tag)(FixedCString<N_> &s) {                                                          \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        WATCH8(1, s.buf + n);                                                                      \
        const char e = s.buf[n];                                                                   \
        ASSUME(e == 0);                                                                            \
        const uint32_t m = n == 0 ? 0 : n - 1;                                                     \
        WATCH8(2, s.buf + m);                                                                      \
        const char f = s.buf[m];                                                                   \
        ASSUME(m < n || f == 0);                                                                   \
        NO_THROW(s.pop_back());                                                                    \
        HOLDS(s, m)                                                                                \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(pop_content, tag)(FixedCString<N_> &s, unsigned k) {                                      \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        ASSUME(k + 1 < n && k < N);                                                                         \
        WATCH8(1, s.buf + k);                                                                      \
        const char y = s.buf[k];                                                                   \
        s.pop_back();                                                                              \
        REQUIRE(s.buf[k] == y);                                                                    \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(index, tag)(FixedCString<N_> &s, unsigned k) {                                            \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        const char *const r = &s[k];                                                               \
        REQUIRE(k <= N && r == s.buf + k);                                                         \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(index_const, tag)(FixedCString<N_> &s, unsigned k) {                                      \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        const char *const r = &((const FixedCString<N> &)s)[k];                                    \
        REQUIRE(k <= N && r == s.buf + k);                                                         \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(index_ok, tag)(FixedCString<N_> &s, unsigned k) {                                         \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        ASSUME(k <= n);                                                                            \
        NO_THROW((void)s[k]; (void)((const FixedCString<N> &)s)[k]);                               \
        REACH();                                                                                   \
    }
ALL(C_POP)
// other capacities
CONTRACT(C34_other_small)(FixedCString<7> &__restrict s, FixedCString<12> &__restrict t, unsigned k) {
    constexpr size_t N = 7;
    GIVEN(s, n)
    PLACE(t)
    vk_watch32(9, &t.strsize);
    const uint32_t m = t.strsize;
    ASSUME(m <= 12);
    APART(&s, sizeof s, &t, sizeof t)
    ASSUME(k < m);
    WATCH8(1, t.buf + k);
    const char y = t.buf[k];
    WATCH8(2, s.buf + k);
    s = t;
    REQUIRE(m <= N && s.size() == m && s.buf[k] == y);
    REACH();
}
CONTRACT(C34_other_refused)(FixedCString<7> &__restrict s, FixedCString<12> &__restrict t, unsigned k) {
    constexpr size_t N = 7;
    GIVEN(s, n)
    PLACE(t)
    vk_watch32(9, &t.strsize);
    const uint32_t m = t.strsize;
    ASSUME(m > 7 && m <= 12);
    APART(&s, sizeof s, &t, sizeof t)
    ASSUME(k <= n);
    WATCH8(1, s.buf + k);
    const char y = s.buf[k];
    try {
        s = t;
        UNREACHABLE("a text that is too long is refused");
    } catch(...) {}
    REQUIRE(s.size() == n && s.buf[k] == y);
    REACH();
}
// comparison
#define C_EQ(N_, tag)                                                                              \
    NAME(equal_view, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m) {                         \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        ASSUME(m != n);                                                                            \
        NO_THROW(REQUIRE(!(s == CStringView(p, m))));                                              \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(equal_view_differ, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t k) {                         \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, n)                                                                                 \
        APART(&s, sizeof s, p, n + 1)                                                              \
        ASSUME(k < n);                                                                             \
        WATCH8(1, s.buf + k);                                                                      \
        WATCH8(2, p + k);                                                                          \
        const char y = s.buf[k], z = p[k];                                                         \
        ASSUME(y != z);                                                                            \
        NO_THROW(REQUIRE(!(s == CStringView(p, n))));                                              \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(equal_self, tag)(FixedCString<N_> &s) {                                                   \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        NO_THROW(REQUIRE(s == s.view()));                                                          \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(equal_text_differ, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m, size_t k) {                         \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        ASSUME(k < n && k < m);                                                                    \
        WATCH8(1, s.buf + k);                                                                      \
        WATCH8(2, p + k);                                                                          \
        const char y = s.buf[k], z = p[k];                                                         \
        ASSUME(y != z);                                                                            \
        NO_THROW(REQUIRE(!(s == p)));                                                              \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(equal_text_size, tag)(FixedCString<N_> &__restrict s, const char *__restrict p, size_t m) {                         \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, m)                                                                                 \
        APART(&s, sizeof s, p, m + 1)                                                              \
        ASSUME(m < n);                                                                             \
        WATCH8(2, p + m);                                                                          \
        const char z = p[m];                                                                       \
        ASSUME(z == 0);                                                                            \
        NO_THROW(REQUIRE(!(s == p)));                                                              \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(equal_text_longer, tag)(FixedCString<N_> &__restrict s, const char *__restrict p) {                         \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        TEXT(p, n)                                                                                 \
        APART(&s, sizeof s, p, n + 1)                                                              \
        WATCH8(2, p + n);                                                                          \
        const char z = p[n];                                                                       \
        ASSUME(z != 0);                                                                            \
        NO_THROW(REQUIRE(!(s == p)));                                                              \
        REACH();                                                                                   \
    }                                                                                              \
    NAME(equal_text_self, tag)(FixedCString<N_> &s) {                                                   \
        constexpr size_t N = N_;                                                                   \
        GIVEN(s, n)                                                                                \
        WATCH8(2, s.buf + n);                                                                      \
        const char z = s.buf[n];                                                                   \
        ASSUME(z == 0);                                                                            \
        REACH();                                                                                   \
        NO_THROW((void)(s == s.c_str()));                                                          \
    }
ALL(C_EQ)
