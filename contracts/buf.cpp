// C07: Bytes
#include "buf.hpp"
#include "pystd2026.cpp"
using namespace V;

// An arbitrary well-formed buffer b; nothing is followed yet.
#define GIVEN(b)                                                                                   \
    g_follow = 0;                                                                              \
    g_out = g_w1 = g_w4 = g_live = nullptr;                                                                 \
    Bytes b(move(b_in));                                                                           \
    const size_t n = b.size(), cp = b.capacity();                                                  \
    const char *const d = ((const Bytes &)b).data();                                               \
    ASSUME(n <= cp && cp < LIM && (cp == 0 || d) && (size_t)d < LIM * 8);                          \
    g_nalloc = g_alternate = 0;                                                                    \
    g_top2 = nullptr;                                                                              \
    g_top = d + cp;
// Follow bytes at offset k (slot 1 before, slots 2 and 3 in fresh storage, slot 4 at offset k2)
#define FOLLOW(k, k2)                                                                              \
    g_live = d;                                                                                    \
    g_w1 = d + (k);                                                                                \
    vk_watch8(1, d + (k));                                                                         \
    g_w4 = d + (k2);                                                                               \
    vk_watch8(4, d + (k2));                                                                        \
    g_k0 = (k);                                                                                    \
    g_k1 = (k2);                                                                                   \
    g_follow = 2;                                                                               \
    const char y = d[k];
// The byte at offset k stays there
#define FOLLOW1(k)                                                                                 \
    g_live = d;                                                                                    \
    g_w1 = d + (k);                                                                                \
    vk_watch8(1, d + (k));                                                                         \
    g_k0 = (k);                                                                                    \
    g_follow = 1;                                                                                  \
    const char y = d[k];
// An arbitrary byte that belongs to no buffer is not accessed
#define OUTSIDE(p)                                                                                 \
    ASSUME((size_t)p < LIM * 128 && p);                                                            \
    g_out = p;                                                                                     \
    vk_side(d, cp);                                                                                \
    vk_guard(0, p);
// A foreign buffer [s, s + m)
#define SOURCE(s, m)                                                                               \
    ASSUME(m < LIM && s && (size_t)s < LIM * 8 && (s + m < d || d + cp < s));                      \
    ASSUME(!(s >= d && s < d + n));                                                                \
    g_top2 = s + m;
// Its byte at offset j is followed to offset k of the buffer
#define FROM(s, j, k)                                                                              \
    vk_watch8(1, (s) + (j));                                                                       \
    g_w4 = d + (k);                                                                                \
    vk_watch8(4, d + (k));                                                                         \
    g_k0 = (k);                                                                                    \
    g_follow = 1;                                                                               \
    const char y = (s)[j];
#define UNTOUCHED(p)                                                                               \
    vk_opaque_use(g_side);                                                                         \
    REQUIRE(!vk_guard_hit(0, b.data()));
#define WF(b) REQUIRE(b.size() <= b.capacity())

CONTRACT(C07_bytes_append)(Bytes &b_in, char c) {
    GIVEN(b)
    g_k0 = n;
    g_follow = 1;
    vk_watch8(1, d + n);
    NO_THROW(b.append(c));
    REQUIRE(b.size() == n + 1);
    WF(b);
    REQUIRE(b.data()[n] == c);
    REACH();
}
CONTRACT(C07_bytes_append_keeps)(Bytes &b_in, char c, size_t k) {
    GIVEN(b)
    ASSUME(k < n);
    FOLLOW1(k)
    b.append(c);
    REQUIRE(b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_append_bounds)(Bytes &b_in, char c, const char *p) {
    GIVEN(b)
    OUTSIDE(p)
    b.append(c);
    UNTOUCHED(p)
    REACH();
}

CONTRACT(C07_bytes_insert)(Bytes &b_in, size_t i, const char *s, size_t m) {
    GIVEN(b)
    SOURCE(s, m)
    b.insert(i, s, m);
    REQUIRE(i <= n);
    REQUIRE(b.size() == n + m);
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_insert_keeps)(Bytes &b_in, size_t i, const char *s, size_t m, size_t k) {
    GIVEN(b)
    SOURCE(s, m)
    ASSUME(i <= n && k < n);
    const size_t k2 = k < i ? k : k + m;
    FOLLOW(k, k2)
    NO_THROW(b.insert(i, s, m));
    REQUIRE(b.data()[k2] == y);
    REACH();
}
CONTRACT(C07_bytes_insert_adds)(Bytes &b_in, size_t i, const char *s, size_t m, size_t k) {
    GIVEN(b)
    SOURCE(s, m)
    ASSUME(i <= n && k < m);
    FROM(s, k, i + k)
    b.insert(i, s, m);
    REQUIRE(b.data()[i + k] == y);
    REACH();
}
CONTRACT(C07_bytes_insert_bounds)(Bytes &b_in, size_t i, const char *s, size_t m, const char *p) {
    GIVEN(b)
    SOURCE(s, m)
    OUTSIDE(p)
    ASSUME(vk_apart(p, 1, s, m));
    b.insert(i, s, m);
    UNTOUCHED(p)
    REACH();
}
CONTRACT(C07_bytes_pop_back)(Bytes &b_in, size_t m, size_t k) {
    GIVEN(b)
    NO_THROW(b.pop_back(m));
    REQUIRE(b.size() == (m >= n ? 0 : n - m));
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_pop_back_keeps)(Bytes &b_in, size_t m, size_t k) {
    GIVEN(b)
    ASSUME(m <= n && k < n - m);
    FOLLOW1(k)
    b.pop_back(m);
    REQUIRE(b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_pop_front)(Bytes &b_in, size_t m) {
    GIVEN(b)
    NO_THROW(b.pop_front(m));
    REQUIRE(b.size() == (m >= n ? 0 : n - m));
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_pop_front_keeps)(Bytes &b_in, size_t m, size_t k) {
    GIVEN(b)
    ASSUME(k < n && k >= m);
    FOLLOW(k, k - m)
    b.pop_front(m);
    REQUIRE(b.data()[k - m] == y);
    REACH();
}
CONTRACT(C07_bytes_pop_front_bounds)(Bytes &b_in, size_t m, const char *p) {
    GIVEN(b)
    OUTSIDE(p)
    b.pop_front(m);
    UNTOUCHED(p)
    REACH();
}
CONTRACT(C07_bytes_remove)(Bytes &b_in, size_t from, size_t to) {
    GIVEN(b)
    b.remove(from, to);
    REQUIRE(from <= to && to <= n);
    REQUIRE(b.size() == n - (to - from));
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_remove_keeps)(Bytes &b_in, size_t from, size_t to, size_t k) {
    GIVEN(b)
    ASSUME(k < n && from <= to && to <= n && (k < from || k >= to));
    const size_t k2 = k < from ? k : k - (to - from);
    FOLLOW(k, k2)
    NO_THROW(b.remove(from, to));
    REQUIRE(b.data()[k2] == y);
    REACH();
}
CONTRACT(C07_bytes_remove_bounds)(Bytes &b_in, size_t from, size_t to, const char *p) {
    GIVEN(b)
    OUTSIDE(p)
    b.remove(from, to);
    UNTOUCHED(p)
    REACH();
}
CONTRACT(C07_bytes_sizes)(Bytes &b_in, size_t m) {
    GIVEN(b)
    ASSUME(m < LIM);
    const size_t how = vk_opaque_index();
    if(how == 0) {
        NO_THROW(b.extend(m));
        REQUIRE(b.size() == n + m);
    } else if(how == 1) {
        NO_THROW(b.shrink(m));
        REQUIRE(b.size() == (m > n ? 0 : n - m));
    } else if(how == 2) {
        NO_THROW(b.resize_to(m));
        REQUIRE(b.size() == m);
    } else if(how == 3) {
        NO_THROW(b.resize(m));
        REQUIRE(b.size() == m);
    } else if(how == 4) {
        NO_THROW(b.reserve(m));
        REQUIRE(b.size() == n && b.capacity() >= m);
    } else {
        NO_THROW(b.clear());
        REQUIRE(b.size() == 0 && b.is_empty());
    }
    REQUIRE(b.is_empty() == (b.size() == 0));
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_sizes_keep)(Bytes &b_in, size_t m, size_t k) {
    GIVEN(b)
    ASSUME(m < LIM && k < n);
    FOLLOW1(k)
    const size_t how = vk_opaque_index();
    if(how == 0)
        b.extend(m);
    else if(how == 1)
        b.shrink(m);
    else if(how == 2)
        b.resize_to(m);
    else if(how == 3)
        b.resize(m);
    else
        b.reserve(m);
    ASSUME(k < b.size());
    REQUIRE(b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_sizes_bounds)(Bytes &b_in, size_t m, const char *p) {
    GIVEN(b)
    OUTSIDE(p)
    ASSUME(m < LIM);
    const size_t how = vk_opaque_index();
    if(how == 0)
        b.extend(m);
    else if(how == 1)
        b.shrink(m);
    else if(how == 2)
        b.resize_to(m);
    else
        b.reserve(m);
    UNTOUCHED(p)
    REACH();
}
CONTRACT(C07_bytes_assign)(Bytes &b_in, const char *s, size_t m) {
    GIVEN(b)
    SOURCE(s, m)
    NO_THROW(b.assign(s, m));
    REQUIRE(b.size() == m);
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_assign_copies)(Bytes &b_in, const char *s, size_t m, size_t k) {
    GIVEN(b)
    SOURCE(s, m)
    ASSUME(k < m);
    FROM(s, k, k)
    b.assign(s, m);
    REQUIRE(b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_assign_bounds)(Bytes &b_in, const char *s, size_t m, const char *p) {
    GIVEN(b)
    SOURCE(s, m)
    OUTSIDE(p)
    ASSUME(vk_apart(p, 1, s, m));
    b.assign(s, m);
    UNTOUCHED(p)
    REACH();
}
// the source lies below or above the buffer
#define BELOW(s, m)                                                                                \
    ASSUME(m < LIM && s && s + m < d && s < d);                                                    \
    g_top2 = s + m;
#define ABOVE(s, m)                                                                                \
    ASSUME(m < LIM && (size_t)s < LIM * 8 && s > d + cp && s >= d + n);                            \
    g_top2 = s + m;
#define APPEND_RANGE(where)                                                                        \
    CONTRACT(C07_bytes_append_range_##where)(Bytes & b_in, const char *s, size_t m) {              \
        GIVEN(b)                                                                                   \
        where(s, m);                                                                               \
        NO_THROW(b.append(s, s + m));                                                              \
        REQUIRE(b.size() == n + m);                                                                \
        WF(b);                                                                                     \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C07_bytes_append_range_bounds_##where)                                                \
    (Bytes & b_in, const char *s, size_t m, const char *p) {                                       \
        GIVEN(b)                                                                                   \
        where(s, m);                                                                               \
        OUTSIDE(p)                                                                                 \
        ASSUME(vk_apart(p, 1, s, m));                                                              \
        b.append(s, s + m);                                                                        \
        UNTOUCHED(p)                                                                               \
        REACH();                                                                                   \
    }
APPEND_RANGE(BELOW)
APPEND_RANGE(ABOVE)
CONTRACT(C07_bytes_append_range_keeps)(Bytes &b_in, const char *s, size_t m, size_t k) {
    GIVEN(b)
    SOURCE(s, m)
    ASSUME(k < n && n + m < cp); // fits
    vk_watch8(1, d + k);
    const char y = d[k];
    b.append(s, s + m);
    REQUIRE(b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_append_range_adds)(Bytes &b_in, const char *s, size_t m, size_t k) {
    GIVEN(b)
    SOURCE(s, m)
    ASSUME(k < m && n + m < cp);
    vk_watch8(1, s + k);
    vk_watch8(4, d + n + k);
    const char y = s[k];
    b.append(s, s + m);
    REQUIRE(b.data()[n + k] == y);
    REACH();
}
CONTRACT(C07_bytes_append_range_grow_keeps)(Bytes &b_in, const char *s, size_t m, size_t k) {
    GIVEN(b)
    SOURCE(s, m)
    ASSUME(k < n && m <= 3);
    FOLLOW1(k)
    vk_unroll(4);
    b.append(s, s + m);
    REQUIRE(b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_append_range_grow_adds)(Bytes &b_in, const char *s, size_t m, size_t k) {
    GIVEN(b)
    SOURCE(s, m)
    ASSUME(k < m && m <= 3);
    FROM(s, k, n + k)
    vk_unroll(4);
    b.append(s, s + m);
    REQUIRE(b.data()[n + k] == y);
    REACH();
}
CONTRACT(C07_bytes_append_own)(Bytes &b_in, size_t i, size_t j, size_t k) {
    GIVEN(b)
    g_alternate = 1;
    ASSUME(i < j && j <= n && k < n);
    FOLLOW1(k)
    b.append(d + i, d + j);
    REQUIRE(b.data()[k] == y);
    REQUIRE(b.size() == n + (j - i));
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_append_own_adds)(Bytes &b_in, size_t i, size_t j, size_t k) {
    GIVEN(b)
    g_alternate = 1;
    ASSUME(i < j && j <= n && k < j - i);
    vk_watch8(1, d + i + k);
    g_live = d;
    g_w1 = d + i + k;
    vk_watch8(4, d + n + k);
    g_w4 = d + n + k;
    g_k0 = k;
    g_k1 = n + k;
    g_follow = 2;
    const char y = d[i + k];
    b.append(d + i, d + j);
    REQUIRE(b.data()[n + k] == y);
    REACH();
}
CONTRACT(C07_bytes_assign_own)(Bytes &b_in, size_t i, size_t m, size_t k) {
    GIVEN(b)
    g_alternate = 1;
    ASSUME(i < n && m <= n - i && k < m);
    vk_watch8(1, d + i + k);
    g_live = d;
    g_w1 = d + i + k;
    vk_watch8(4, d + k);
    g_w4 = d + k;
    g_k0 = k;
    g_follow = 1;
    const char y = d[i + k];
    b.assign(d + i, m);
    REQUIRE(b.data()[k] == y);
    REQUIRE(b.size() == m);
    WF(b);
    REACH();
}
// two buffers
#define OTHER(o)                                                                                   \
    Bytes o(move(o_in));                                                                           \
    const size_t m = o.size();                                                                     \
    const char *const s = ((const Bytes &)o).data();                                               \
    ASSUME(m <= o.capacity() && (m == 0 || s));                                                    \
    ASSUME(o.capacity() < LIM && (size_t)s < LIM * 8 && vk_apart(s, o.capacity(), d, cp));         \
    g_top2 = s + o.capacity();
CONTRACT(C07_bytes_plus)(Bytes &__restrict b_in, Bytes &__restrict o_in) {
    GIVEN(b)
    OTHER(o)
    NO_THROW(b += o);
    REQUIRE(b.size() == n + m && o.size() == m && ((const Bytes &)o).data() == s);
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_plus_keeps)(Bytes &__restrict b_in, Bytes &__restrict o_in, size_t k) {
    GIVEN(b)
    OTHER(o)
    ASSUME(k < n);
    FOLLOW1(k)
    b += o;
    REQUIRE(b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_plus_adds)(Bytes &__restrict b_in, Bytes &__restrict o_in, size_t k) {
    GIVEN(b)
    OTHER(o)
    ASSUME(k < m);
    FROM(s, k, n + k)
    b += o;
    REQUIRE(b.data()[n + k] == y);
    REACH();
}
CONTRACT(C07_bytes_plus_bounds)(Bytes &__restrict b_in, Bytes &__restrict o_in, const char *p) {
    GIVEN(b)
    OTHER(o)
    OUTSIDE(p)
    ASSUME(vk_apart(p, 1, s, o.capacity()));
    b += o;
    UNTOUCHED(p)
    REACH();
}
CONTRACT(C07_bytes_plus_self)(Bytes &b_in) {
    GIVEN(b)
    NO_THROW(b += b);
    REQUIRE(b.size() == 2 * n);
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_plus_self_keeps)(Bytes &b_in, size_t k) {
    GIVEN(b)
    ASSUME(k < n);
    FOLLOW1(k)
    b += b;
    REQUIRE(b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_plus_self_adds)(Bytes &b_in, size_t k) {
    GIVEN(b)
    ASSUME(k < n);
    FOLLOW(k, n + k)
    g_alternate = 1;
    b += b;
    REQUIRE(b.data()[n + k] == y);
    REACH();
}
CONTRACT(C07_bytes_copy_assign)(Bytes &__restrict b_in, Bytes &__restrict o_in) {
    GIVEN(b)
    OTHER(o)
    NO_THROW(b = o);
    REQUIRE(b.size() == m && o.size() == m && ((const Bytes &)o).data() == s);
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_copy_assign_copies)(Bytes &__restrict b_in, Bytes &__restrict o_in, size_t k) {
    GIVEN(b)
    OTHER(o)
    ASSUME(k < m);
    FROM(s, k, k)
    b = o;
    REQUIRE(b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_copy_assign_bounds)(Bytes &__restrict b_in, Bytes &__restrict o_in, const char *p) {
    GIVEN(b)
    OTHER(o)
    OUTSIDE(p)
    ASSUME(vk_apart(p, 1, s, o.capacity()));
    b = o;
    UNTOUCHED(p)
    REACH();
}
CONTRACT(C07_bytes_copy_assign_self)(Bytes &b_in, size_t k) {
    GIVEN(b)
    ASSUME(k < n);
    FOLLOW1(k)
    Bytes &r = b;
    NO_THROW(b = r);
    REQUIRE(b.size() == n && b.data()[k] == y);
    REACH();
}
CONTRACT(C07_bytes_copy)(Bytes &b_in, size_t k) {
    GIVEN(b)
    ASSUME(k < n);
    FOLLOW1(k)
    Bytes c(b);
    REQUIRE(c.size() == n && c.data() != b.data());
    REQUIRE(c.data()[k] == y);
    WF(c);
    REACH();
}
CONTRACT(C07_bytes_copy_size)(Bytes &b_in) {
    GIVEN(b)
    Bytes c(b);
    REQUIRE(c.size() == n && b.size() == n);
    WF(c);
    REACH();
}
CONTRACT(C07_bytes_from_buffer)(Bytes &b_in, const char *s, size_t m, size_t k) {
    GIVEN(b)
    SOURCE(s, m)
    ASSUME(k < m);
    FROM(s, k, k)
    const bool range = vk_opaque_index() == 0;
    if(range) {
        Bytes c(s, s + m);
        REQUIRE(c.size() == m && c.data()[k] == y);
        WF(c);
    } else {
        Bytes c(s, m);
        REQUIRE(c.size() == m && c.data()[k] == y);
        WF(c);
    }
    REACH();
}
CONTRACT(C07_bytes_bad_range)(const char *s, const char *e) {
    ASSUME(e < s);
    bool raised = false;
    try {
        Bytes c(s, e);
    } catch(...) { raised = true; }
    REQUIRE(raised);
    REACH();
}
CONTRACT(C07_bytes_filled)(size_t m, char c, size_t k) {
    ASSUME(m < LIM && k < m);
    g_nalloc = g_alternate = 0;
    g_top = g_top2 = g_out = nullptr;
    g_k0 = k;
    g_follow = 1;
    Bytes b(m, c);
    REQUIRE(b.size() == m && b.data()[k] == c);
    WF(b);
    REACH();
}
CONTRACT(C07_bytes_sized)(size_t m) {
    ASSUME(m < LIM);
    g_follow = 0;
    g_nalloc = g_alternate = 0;
    g_top = g_top2 = g_out = nullptr;
    Bytes b(m);
    REQUIRE(b.size() == 0 && b.capacity() >= m);
    REACH();
}
