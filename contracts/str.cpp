// flags: -fno-access-control
// C09: CString
#include "buf.hpp"
static const char *g_text; // a C string of known length
static size_t g_len;
static inline size_t vk_strlen(const char *p) {
    if(p == g_text)
        return g_len;
    const size_t l = vk_opaque_index();
    ASSUME(l < LIM && p[l] == '\0');
    return l;
}
#define strlen vk_strlen
#include "pystd2026.cpp"
using namespace V;

// An arbitrary well-formed string s of n characters.
#define GIVEN(s)                                                                                   \
    g_follow = 0;                                                                                  \
    g_out = g_w1 = g_w4 = g_live = g_text = nullptr;                                                                 \
    g_nalloc = g_alternate = 0;                                                                    \
    CString s(move(s_in));                                                                         \
    const size_t n = s.bytes.size() - 1, cp = s.bytes.capacity();                                  \
    const char *const d = ((const CString &)s).data();                                             \
    ASSUME(s.bytes.size() >= 1 && n < cp && cp < LIM && (size_t)d < LIM * 8 && d);                 \
    g_top2 = nullptr;                                                                              \
    g_top = d + cp;
// A foreign piece of text [t, t + m)
#define SOURCE(t, m)                                                                               \
    ASSUME(m < LIM && t && (size_t)t < LIM * 8 && (t + m < d || d + cp < t));                      \
    ASSUME(!(t >= d && t < d + (n + 1)));                                                          \
    g_top2 = t + m;
// The character at offset k is not NUL; it is followed, also to offset k2
#define FOLLOW(k, k2)                                                                              \
    g_live = d;                                                                                    \
    g_w1 = d + (k);                                                                                \
    vk_watch8(1, d + (k));                                                                         \
    g_w4 = d + (k2);                                                                               \
    vk_watch8(4, d + (k2));                                                                        \
    g_k0 = (k);                                                                                    \
    g_k1 = (k2);                                                                                   \
    g_follow = 2;                                                                                  \
    const char y = d[k];
#define FOLLOW1(k)                                                                                 \
    g_live = d;                                                                                    \
    g_w1 = d + (k);                                                                                \
    vk_watch8(1, d + (k));                                                                         \
    g_k0 = (k);                                                                                    \
    g_follow = 1;                                                                                  \
    const char y = d[k];
// Character j of foreign text, followed to offset k of the string
#define FROM(t, j, k)                                                                              \
    vk_watch8(1, (t) + (j));                                                                       \
    g_w4 = d + (k);                                                                                \
    vk_watch8(4, d + (k));                                                                         \
    g_k0 = (k);                                                                                    \
    g_follow = 1;                                                                                  \
    const char y = (t)[j];
// The terminator of the string before, and its place m afterwards
#define TERMINATOR(m)                                                                              \
    FOLLOW(n, m)                                                                                   \
    ASSUME(y == '\0');
#define TERMINATED(s, m)                                                                           \
    {                                                                                              \
        const char *const d2 = ((const CString &)s).data();                                        \
        const size_t n2 = s.bytes.size(), c2 = s.bytes.capacity();                                 \
        REQUIRE(d2[m] == '\0');                                                                    \
        REQUIRE(n2 == (m) + 1 && n2 <= c2);                                                        \
        REQUIRE(s.c_str() == d2 && s.size() == (m) && s.length() == (m));                          \
        REQUIRE(s.is_empty() == ((m) == 0));                                                       \
    }

CONTRACT(C09_append_char)(CString &s_in, char c) {
    GIVEN(s)
    TERMINATOR(n + 1)
    const size_t how = vk_opaque_index();
    if(how == 0)
        s.append(c);
    else if(how == 1)
        s.push_back(c);
    else
        s += c;
    REQUIRE(c != '\0');
    TERMINATED(s, n + 1)
    REACH();
}
CONTRACT(C09_append_char_content)(CString &s_in, char c, size_t k) {
    GIVEN(s)
    ASSUME(c != '\0' && k <= n);
    FOLLOW1(k)
    NO_THROW(s.append(c));
    REQUIRE(s.data()[k] == (k < n ? y : c));
    REACH();
}
CONTRACT(C09_append_nul)(CString &s_in, size_t k) {
    GIVEN(s)
    TERMINATOR(n)
    bool raised = false;
    try {
        const size_t how = vk_opaque_index();
        if(how == 0)
            s.append('\0');
        else if(how == 1)
            s.push_back('\0');
        else
            s += '\0';
    } catch(...) { raised = true; }
    REQUIRE(raised);
    TERMINATED(s, n)
    REACH();
}
CONTRACT(C09_pop_back)(CString &s_in) {
    GIVEN(s)
    const size_t m = n == 0 ? 0 : n - 1;
    TERMINATOR(m)
    NO_THROW(s.pop_back());
    TERMINATED(s, m)
    REACH();
}
CONTRACT(C09_pop_back_content)(CString &s_in, size_t k) {
    GIVEN(s)
    ASSUME(n > 0 && k < n - 1);
    FOLLOW1(k)
    s.pop_back();
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_clear)(CString &s_in) {
    GIVEN(s)
    TERMINATOR(0)
    NO_THROW(s.clear());
    TERMINATED(s, 0)
    REACH();
}
CONTRACT(C09_default)() {
    g_follow = 1;
    g_out = nullptr;
    g_nalloc = g_alternate = 0;
    g_top = g_top2 = nullptr;
    g_k0 = 0;
    CString s;
    TERMINATED(s, 0)
    REACH();
}
CONTRACT(C09_remove)(CString &s_in, size_t from, size_t to) {
    GIVEN(s)
    ASSUME(from <= to && to <= n);
    TERMINATOR(n - (to - from))
    NO_THROW(s.remove(from, to));
    TERMINATED(s, n - (to - from))
    REACH();
}
CONTRACT(C09_remove_content)(CString &s_in, size_t from, size_t to, size_t k) {
    GIVEN(s)
    ASSUME(k < n && from <= to && to <= n && (k < from || k >= to));
    const size_t k2 = k < from ? k : k - (to - from);
    FOLLOW(k, k2)
    s.remove(from, to);
    REQUIRE(s.data()[k2] == y);
    REACH();
}
CONTRACT(C09_remove_invalid)(CString &s_in, size_t from, size_t to) {
    GIVEN(s)
    ASSUME(from > to || to > n);
    TERMINATOR(n)
    bool raised = false;
    try {
        s.remove(from, to);
    } catch(...) { raised = true; }
    REQUIRE(raised);
    TERMINATED(s, n)
    REACH();
}
CONTRACT(C09_resize)(CString &s_in, size_t m) {
    GIVEN(s)
    ASSUME(m <= n);
    TERMINATOR(m)
    NO_THROW(s.resize(m));
    TERMINATED(s, m)
    REACH();
}
CONTRACT(C09_resize_content)(CString &s_in, size_t m, size_t k) {
    GIVEN(s)
    ASSUME(m <= n && k < m);
    FOLLOW1(k)
    s.resize(m);
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_resize_up)(CString &s_in, size_t m) {
    GIVEN(s)
    ASSUME(m > n && m < cp && m + 2 < cp);
    TERMINATOR(m)
    NO_THROW(s.resize(m));
    TERMINATED(s, m)
    REACH();
}
CONTRACT(C09_resize_up_grow)(CString &s_in, size_t m) {
    GIVEN(s)
    ASSUME(m > n && m <= n + 2);
    TERMINATOR(m)
    vk_unroll(4);
    NO_THROW(s.resize(m));
    TERMINATED(s, m)
    REACH();
}
CONTRACT(C09_resize_up_keeps)(CString &s_in, size_t m, size_t k) {
    GIVEN(s)
    ASSUME(m > n && m < cp && m + 2 < cp && k < n);
    vk_watch8(1, d + k);
    const char y = d[k];
    s.resize(m);
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_resize_up_fills)(CString &s_in, size_t m, size_t k) {
    GIVEN(s)
    ASSUME(m > n && m < cp && m + 2 < cp && k >= n && k < m);
    vk_watch8(1, d + k);
    s.resize(m);
    REQUIRE(s.data()[k] == ' ');
    REACH();
}
CONTRACT(C09_insert)(CString &s_in, size_t i, const char *t, size_t m) {
    GIVEN(s)
    SOURCE(t, m)
    ASSUME(i <= n);
    TERMINATOR(n + m)
    NO_THROW(s.insert(i, CStringView(t, m)));
    TERMINATED(s, n + m)
    REACH();
}
CONTRACT(C09_insert_keeps)(CString &s_in, size_t i, const char *t, size_t m, size_t k) {
    GIVEN(s)
    SOURCE(t, m)
    ASSUME(i <= n && k < n);
    const size_t k2 = k < i ? k : k + m;
    FOLLOW(k, k2)
    s.insert(i, CStringView(t, m));
    REQUIRE(s.data()[k2] == y);
    REACH();
}
CONTRACT(C09_insert_adds)(CString &s_in, size_t i, const char *t, size_t m, size_t k) {
    GIVEN(s)
    SOURCE(t, m)
    ASSUME(i <= n && k < m);
    FROM(t, k, i + k)
    s.insert(i, CStringView(t, m));
    REQUIRE(s.data()[i + k] == y);
    REACH();
}
CONTRACT(C09_insert_invalid)(CString &s_in, size_t i, const char *t, size_t m) {
    GIVEN(s)
    SOURCE(t, m)
    ASSUME(i > n);
    TERMINATOR(n)
    bool raised = false;
    try {
        s.insert(i, CStringView(t, m));
    } catch(...) { raised = true; }
    REQUIRE(raised);
    TERMINATED(s, n)
    REACH();
}
CONTRACT(C09_append_text)(CString &s_in, const char *t, size_t m) {
    GIVEN(s)
    SOURCE(t, m)
    ASSUME(m > 0 && n + m + 2 < cp);
    s.append(t, m);
    const size_t n2 = s.bytes.size(), c2 = s.bytes.capacity();
    REQUIRE(n2 == n + m + 1 && n2 <= c2);
    REACH();
}
CONTRACT(C09_append_text_ends)(CString &s_in, const char *t, size_t m) {
    GIVEN(s)
    SOURCE(t, m)
    ASSUME(m > 0 && n + m + 2 < cp);
    vk_watch8(4, d + n + m);
    s.append(t, m);
    REQUIRE(s.data()[n + m] == '\0');
    REACH();
}
CONTRACT(C09_append_text_keeps)(CString &s_in, const char *t, size_t m, size_t k) {
    GIVEN(s)
    SOURCE(t, m)
    ASSUME(n + m + 2 < cp && k < n);
    vk_watch8(1, d + k);
    const char y = d[k];
    s.append(t, t + m);
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_append_text_adds)(CString &s_in, const char *t, size_t m, size_t k) {
    GIVEN(s)
    SOURCE(t, m)
    ASSUME(n + m + 2 < cp && k < m);
    vk_watch8(1, t + k);
    vk_watch8(4, d + n + k);
    const char y = t[k];
    s.append(t, m);
    REQUIRE(y != '\0');
    REQUIRE(s.data()[n + k] == y);
    REACH();
}
CONTRACT(C09_append_text_grow)(CString &s_in, const char *t, size_t m) {
    GIVEN(s)
    SOURCE(t, m)
    ASSUME(m <= 2);
    TERMINATOR(n + m)
    vk_unroll(3);
    s.append(t, m);
    TERMINATED(s, n + m)
    REACH();
}

// own content
CONTRACT(C09_append_own)(CString &s_in, size_t i, size_t k) {
    GIVEN(s)
    g_alternate = 1;
    ASSUME(i < n && k < n);
    FOLLOW1(k)
    vk_unroll(2);
    s.append(d + i, 1);
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_append_own_adds)(CString &s_in, size_t i) {
    GIVEN(s)
    g_alternate = 1;
    ASSUME(i < n);
    g_live = d;
    g_w1 = d + i;
    vk_watch8(1, d + i);
    vk_watch8(4, d + n);
    g_w4 = d + n;
    g_k0 = 0;
    g_k1 = n;
    g_follow = 2;
    const char y = d[i];
    vk_unroll(2);
    s.append(d + i, 1);
    REQUIRE(s.data()[n] == y);
    REACH();
}
CONTRACT(C09_add_string)(CString &s_in, CString &o_in) {
    GIVEN(s)
    CString o(move(o_in));
    const size_t m = o.bytes.size() - 1;
    const char *const t = ((const CString &)o).data();
    ASSUME(o.bytes.size() >= 1 && m < o.bytes.capacity());
    SOURCE(t, m + 1)
    FROM(t, m, n + m)
    ASSUME(y == '\0');
    NO_THROW(s += o);
    TERMINATED(s, n + m)
    REACH();
}
CONTRACT(C09_add_string_keeps)(CString &s_in, CString &o_in, size_t k) {
    GIVEN(s)
    CString o(move(o_in));
    const size_t m = o.bytes.size() - 1;
    const char *const t = ((const CString &)o).data();
    ASSUME(o.bytes.size() >= 1 && m < o.bytes.capacity() && k < n);
    SOURCE(t, m + 1)
    FOLLOW1(k)
    s += o;
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_add_string_adds)(CString &s_in, CString &o_in, size_t k) {
    GIVEN(s)
    CString o(move(o_in));
    const size_t m = o.bytes.size() - 1;
    const char *const t = ((const CString &)o).data();
    ASSUME(o.bytes.size() >= 1 && m < o.bytes.capacity() && k < m);
    SOURCE(t, m + 1)
    FROM(t, k, n + k)
    s += o;
    REQUIRE(s.data()[n + k] == y);
    REACH();
}
CONTRACT(C09_add_self)(CString &s_in) {
    GIVEN(s)
    g_alternate = 1;
    g_live = d;
    g_w1 = d + n;
    vk_watch8(1, d + n);
    g_w4 = d + n + n;
    vk_watch8(4, d + n + n);
    g_k0 = n;
    g_k1 = n + n;
    g_follow = 2;
    ASSUME(d[n] == '\0');
    NO_THROW(s += s);
    TERMINATED(s, n + n)
    REACH();
}
CONTRACT(C09_add_self_content)(CString &s_in, size_t k) {
    GIVEN(s)
    g_alternate = 1;
    ASSUME(k < n);
    g_live = d;
    g_w1 = d + k;
    vk_watch8(1, d + k);
    g_w4 = d + n + k;
    vk_watch8(4, d + n + k);
    g_k0 = k;
    g_k1 = n + k;
    g_follow = 2;
    const char y = d[k];
    s += s;
    REQUIRE(s.data()[k] == y);
    REQUIRE(s.data()[n + k] == y);
    REACH();
}
// a NUL-terminated text t of m characters
#define TEXT(t, m)                                                                                 \
    ASSUME(m < LIM);                                                                               \
    SOURCE(t, m + 1)                                                                               \
    g_text = t;                                                                                    \
    g_len = m;
CONTRACT(C09_assign_text)(CString &s_in, const char *t, size_t m) {
    GIVEN(s)
    TEXT(t, m)
    g_alternate = 1;
    FROM(t, m, m)
    ASSUME(y == '\0');
    s = t;
    TERMINATED(s, m)
    REACH();
}
CONTRACT(C09_assign_text_copies)(CString &s_in, const char *t, size_t m, size_t k) {
    GIVEN(s)
    TEXT(t, m)
    g_alternate = 1;
    ASSUME(k < m);
    FROM(t, k, k)
    s = t;
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_add_text)(CString &s_in, const char *t, size_t m) {
    GIVEN(s)
    TEXT(t, m)
    vk_watch8(1, t + m);
    vk_watch8(4, d + (n + m));
    g_k0 = m;
    g_k1 = n + m;
    g_follow = 2;
    g_alternate = 1;
    ASSUME(t[m] == '\0');
    s += t;
    TERMINATED(s, n + m)
    REACH();
}
CONTRACT(C09_add_text_adds)(CString &s_in, const char *t, size_t m, size_t k) {
    GIVEN(s)
    TEXT(t, m)
    ASSUME(k < m && n + m + 2 < cp);
    vk_watch8(1, t + k);
    vk_watch8(4, d + (n + k));
    g_k0 = k;
    g_follow = 1;
    g_alternate = 1;
    const char y = t[k];
    s += t;
    REQUIRE(s.data()[n + k] == y);
    REACH();
}
CONTRACT(C09_add_text_adds_grow)(CString &s_in, const char *t, size_t m, size_t k) {
    GIVEN(s)
    TEXT(t, m)
    ASSUME(k < m && n + m >= cp);
    vk_watch8(1, t + k);
    g_k0 = k;
    g_k1 = n + k;
    g_follow = 2;
    g_alternate = 1;
    const char y = t[k];
    s += t;
    REQUIRE(s.data()[n + k] == y);
    REACH();
}
CONTRACT(C09_add_text_keeps)(CString &s_in, const char *t, size_t m, size_t k) {
    GIVEN(s)
    TEXT(t, m)
    ASSUME(k < n);
    g_alternate = 1;
    FOLLOW1(k)
    s += t;
    REQUIRE(s.data()[k] == y);
    REACH();
}
// construction
#define FRESH(k)                                                                                   \
    g_out = g_w1 = g_w4 = g_live = g_text = nullptr;                                               \
    g_nalloc = g_alternate = 0;                                                                    \
    g_follow = 1;                                                                                  \
    g_k0 = (k);                                                                                    \
    g_top = g_top2 = nullptr;
#define FRESH_TEXT(t, m, k)                                                                        \
    FRESH(k)                                                                                       \
    ASSUME(m < LIM && t && (size_t)t < LIM * 8);                                                   \
    g_top = t + m + 1;
CONTRACT(C09_make_sized)(const char *t, size_t m) {
    FRESH_TEXT(t, m, m)
    g_alternate = 1;
    CString s(t, m);
    TERMINATED(s, m)
    REACH();
}
CONTRACT(C09_make_sized_copies)(const char *t, size_t m, size_t k) {
    FRESH_TEXT(t, m, k)
    g_alternate = 1;
    ASSUME(k < m);
    vk_watch8(1, t + k);
    const char y = t[k];
    CString s(t, m);
    REQUIRE(y != '\0');
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_make_text)(const char *t, size_t m) {
    FRESH_TEXT(t, m, m)
    g_text = t;
    g_len = m;
    vk_watch8(1, t + m);
    ASSUME(t[m] == '\0');
    NO_THROW({
        CString s(t);
        TERMINATED(s, m)
    });
    REACH();
}
CONTRACT(C09_make_text_copies)(const char *t, size_t m, size_t k) {
    FRESH_TEXT(t, m, k)
    g_text = t;
    g_len = m;
    ASSUME(k < m);
    vk_watch8(1, t + k);
    const char y = t[k];
    CString s(t);
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_make_view)(const char *t, size_t m) {
    FRESH_TEXT(t, m, m)
    g_alternate = 1;
    CStringView v(t, m);
    CString s(v);
    TERMINATED(s, m)
    REACH();
}
CONTRACT(C09_make_view_copies)(const char *t, size_t m, size_t k) {
    FRESH_TEXT(t, m, k)
    g_alternate = 1;
    ASSUME(k < m);
    vk_watch8(1, t + k);
    const char y = t[k];
    CStringView v(t, m);
    CString s(v);
    REQUIRE(y != '\0');
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_make_bytes)(Bytes &b_in) {
    Bytes b(move(b_in));
    const size_t n = b.size(), cp = b.capacity();
    const char *const d = ((const Bytes &)b).data();
    FRESH(n)
    ASSUME(n <= cp && cp < LIM && (cp == 0 || d) && (size_t)d < LIM * 8);
    g_top = d + cp;
    vk_watch8(1, d + n);
    CString s(move(b));
    TERMINATED(s, n)
    REACH();
}
CONTRACT(C09_make_bytes_content)(Bytes &b_in, size_t k) {
    Bytes b(move(b_in));
    const size_t n = b.size(), cp = b.capacity();
    const char *const d = ((const Bytes &)b).data();
    FRESH(k)
    ASSUME(n <= cp && cp < LIM && (cp == 0 || d) && (size_t)d < LIM * 8 && k < n);
    g_top = d + cp;
    vk_watch8(1, d + k);
    const char y = d[k];
    CString s(move(b));
    REQUIRE(y != '\0');
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_copy)(CString &s_in) {
    GIVEN(s)
    TERMINATOR(n)
    CString c(s);
    TERMINATED(c, n)
    TERMINATED(s, n)
    REACH();
}
CONTRACT(C09_copy_content)(CString &s_in, size_t k) {
    GIVEN(s)
    ASSUME(k < n);
    FOLLOW1(k)
    CString c(s);
    REQUIRE(c.data()[k] == y);
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_copy_assign)(CString &s_in, CString &o_in) {
    GIVEN(s)
    CString o(move(o_in));
    const size_t m = o.bytes.size() - 1;
    const char *const t = ((const CString &)o).data();
    ASSUME(o.bytes.size() >= 1 && m < o.bytes.capacity());
    SOURCE(t, m + 1)
    FROM(t, m, m)
    ASSUME(y == '\0');
    NO_THROW(s = o);
    TERMINATED(s, m)
    TERMINATED(o, m)
    REACH();
}
CONTRACT(C09_copy_assign_content)(CString &s_in, CString &o_in, size_t k) {
    GIVEN(s)
    CString o(move(o_in));
    const size_t m = o.bytes.size() - 1;
    const char *const t = ((const CString &)o).data();
    ASSUME(o.bytes.size() >= 1 && m < o.bytes.capacity() && k < m);
    SOURCE(t, m + 1)
    FROM(t, k, k)
    s = o;
    REQUIRE(s.data()[k] == y);
    REACH();
}
CONTRACT(C09_assign_self)(CString &s_in, size_t k) {
    GIVEN(s)
    ASSUME(k <= n);
    FOLLOW1(k)
    s = s;
    REQUIRE(s.data()[k] == y);
    REQUIRE(s.size() == n);
    REACH();
}
CONTRACT(C09_substr)(CString &s_in, size_t at, size_t m) {
    GIVEN(s)
    g_alternate = 1;
    const size_t want = m == (size_t)-1 ? n - at : m;
    g_k0 = want;
    g_follow = 1;
    CString r = s.substr(at, m);
    REQUIRE(at <= n && want <= n - at);
    TERMINATED(r, want)
    REACH();
}
CONTRACT(C09_substr_content)(CString &s_in, size_t at, size_t m, size_t k) {
    GIVEN(s)
    g_alternate = 1;
    const size_t want = m == (size_t)-1 ? n - at : m;
    ASSUME(at <= n && want <= n - at && k < want);
    vk_watch8(1, d + at + k);
    g_k0 = k;
    g_follow = 1;
    const char y = d[at + k];
    CString r = s.substr(at, m);
    REQUIRE(r.data()[k] == y);
    REACH();
}
