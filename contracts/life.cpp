// Element lifetime and placement in Vector and FixedVector.
#include "elem.hpp"
#if EPOCH == 2026
#include "pystd2026.cpp"
#else
#include "pystd2025.cpp"
#endif
using namespace V;
using Vec = Vector<Tr>;
using Fix = FixedVector<Tr, 5>;

// An arbitrary vector: n live elements at d, room for cp.
#define GIVEN(v)                                                                                   \
    e_reset();                                                                                     \
    Vec v(move(v##_in));                                                                           \
    const size_t n = v.size(), cp = v.capacity();                                                  \
    const char *const d = (const char *)v.data();                                                  \
    ASSUME(n <= cp && cp < LIM && (cp == 0 || d) && (size_t)d < LIM * 4);                          \
    e_base0 = d;                                                                                   \
    e_len0 = cp * sizeof(Tr);
// Follow the k-th cell of the storage (and, should new storage be allocated, its k1-th).
#define CELL(k, k1)                                                                                \
    ASSUME(k < cp && d && k1 < LIM);                                                               \
    e_pick1 = k1;                                                                                  \
    e_cells = true;                                                                                \
    e_cell0 = d + (k) * sizeof(Tr);                                                                \
    e_alive0 = (k) < n;
#define CELL_NEW(k1)                                                                               \
    ASSUME(k1 < LIM);                                                                              \
    e_pick1 = k1;
// Afterwards exactly the first size() cells of the storage are alive.
#define CHECK_NEW(v)                                                                               \
    {                                                                                              \
        const size_t n2 = v.size();                                                                \
        const char *e = (const char *)v.data();                                                    \
        REQUIRE(n2 <= v.capacity());                                                               \
        REQUIRE(e == e_base1 && !e_freed1);                                                        \
        REQUIRE(v.capacity() * sizeof(Tr) <= e_len1);                                              \
        ASSUME(e_pick1 < v.capacity());                                                            \
        REQUIRE(e_alive1 == (e_pick1 < n2));                                                       \
    }
#define CHECK(v, k)                                                                                \
    {                                                                                              \
        const size_t n2 = v.size();                                                                \
        const char *e = (const char *)v.data();                                                    \
        REQUIRE(n2 <= v.capacity());                                                               \
        if(e == d) {                                                                               \
            REQUIRE(!e_freed0);                                                                    \
            REQUIRE(e_alive0 == ((k) < n2));                                                       \
        } else {                                                                                   \
            REQUIRE(e_freed0 == 1 || !d);                                                          \
            CHECK_NEW(v)                                                                           \
        }                                                                                          \
    }
#define KEEP(v) new(&v##_in) Vec(move(v))
// Follow the value of the k-th element.
#define FOLLOW(k)                                                                                  \
    ASSUME(k < n && d);                                                                            \
    e_follow = true;                                                                               \
    e_at = d + (k) * sizeof(Tr);
#define AT(v, i) ((const char *)v.data() + (i) * sizeof(Tr))
#define OUTSIDE(x)                                                                                 \
    e_ext = (const char *)&x;                                                                      \
    ASSUME(e_ext + sizeof(Tr) <= d || e_ext >= d + e_len0);

template<typename T> struct alignas(T) Raw {
    char b[sizeof(T)];
};
CONTRACT(C06_vector_destroy)(Vec &v_in, size_t k) {
    {
        GIVEN(v)
        CELL(k, 0)
    }
    REQUIRE(!e_alive0);
    REQUIRE(e_freed0 == 1);
    REACH();
}
CONTRACT(C06_vector_clear)(Vec &v_in, size_t k) {
    GIVEN(v)
    CELL(k, 0)
    v.clear();
    REQUIRE(v.size() == 0);
    CHECK(v, k)
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_pop_back)(Vec &v_in, size_t k) {
    GIVEN(v)
    CELL(k, 0)
    { auto o = v.pop_back(); }
    REQUIRE(v.size() == (n ? n - 1 : 0));
    CHECK(v, k)
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_pop_back_value)(Vec &v_in, size_t k) {
    GIVEN(v)
    FOLLOW(k)
    {
        auto o = v.pop_back();
        REQUIRE(bool(o));
        if(k + 1 == n)
            REQUIRE(e_at == (const char *)&*o);
        else
            REQUIRE(e_at == AT(v, k));
    }
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_reserve)(Vec &v_in, size_t m, size_t k, size_t k1) {
    GIVEN(v)
    CELL(k, k1)
    ASSUME(m < LIM);
    v.reserve(m);
    REQUIRE(v.size() == n && v.capacity() >= m && v.capacity() >= cp);
    CHECK(v, k)
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_reserve_order)(Vec &v_in, size_t m, size_t k) {
    GIVEN(v)
    FOLLOW(k)
    ASSUME(m < LIM);
    v.reserve(m);
    REQUIRE(e_at == AT(v, k));
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_push_back_copy)(Vec &v_in, const Tr &x, size_t k, size_t k1) {
    GIVEN(v)
    CELL(k, k1)
    OUTSIDE(x)
    v.push_back(x);
    REQUIRE(v.size() == n + 1);
    CHECK(v, k)
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_push_back_move)(Vec &v_in, Tr &x, size_t k, size_t k1) {
    GIVEN(v)
    CELL(k, k1)
    OUTSIDE(x)
    v.push_back(move(x));
    REQUIRE(v.size() == n + 1);
    CHECK(v, k)
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_push_back_order)(Vec &v_in, const Tr &x, size_t k) {
    GIVEN(v)
    FOLLOW(k)
    OUTSIDE(x)
    v.push_back(x);
    REQUIRE(e_at == AT(v, k));
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_push_back_move_value)(Vec &v_in, Tr &x) {
    GIVEN(v)
    OUTSIDE(x)
    e_follow = true;
    e_at = (const char *)&x;
    v.push_back(move(x));
    REQUIRE(e_at == AT(v, n));
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_push_back_copy_value)(Vec &v_in, const Tr &x) {
    GIVEN(v)
    OUTSIDE(x)
    e_follow = true;
    e_at = (const char *)&x;
    v.push_back(x);
    REQUIRE(e_at == (const char *)&x);
    REQUIRE(e_copyat == AT(v, n));
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_emplace_back)(Vec &v_in, int x, size_t k, size_t k1) {
    GIVEN(v)
    CELL(k, k1)
    v.emplace_back(x);
    REQUIRE(v.size() == n + 1);
    CHECK(v, k)
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_append_with_default)(Vec &v_in, size_t m, size_t k, size_t k1) {
    GIVEN(v)
    CELL(k, k1)
    ASSUME(m < LIM);
    v.append_with_default(m);
    REQUIRE(v.size() == n + m);
    CHECK(v, k)
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_copy_size)(Vec &v_in) {
    GIVEN(v)
    Vec w(v);
    REQUIRE(w.size() == n && v.size() == n && AT(v, 0) == d);
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_move_construct)(Vec &v_in, size_t k) {
    GIVEN(v)
    CELL(k, 0)
    {
        Vec w(move(v));
        REQUIRE(w.size() == n && w.capacity() == cp && AT(w, 0) == d);
        REQUIRE(v.size() == 0 && v.capacity() == 0);
        REQUIRE(e_alive0 == (k < n) && !e_freed0);
    }
    REQUIRE(!e_alive0 && e_freed0 == 1);
    REACH();
    KEEP(v);
}
CONTRACT(C06_vector_move_assign)(Vec &v_in, Vec &w, size_t k) {
    GIVEN(v)
    CELL(k, 0)
    const size_t wn = w.size(), wc = w.capacity();
    const char *const wd = (const char *)w.data();
    ASSUME(wn <= wc && wc < LIM && wd != d);
    v = move(w);
    REQUIRE(!e_alive0 && e_freed0 == 1);
    REQUIRE(v.size() == wn && v.capacity() == wc && AT(v, 0) == wd);
    REQUIRE(w.size() == 0 && w.capacity() == 0);
    REACH();
    KEEP(v);
}
CONTRACT(C08_vector_push_back_own_element)(Vec &v_in, size_t k, size_t k1, size_t i) {
    GIVEN(v)
    CELL(k, k1)
    ASSUME(i < n);
    v.push_back(v[i]);
    REQUIRE(v.size() == n + 1);
    CHECK(v, k)
    REACH();
    KEEP(v);
}
CONTRACT(C08_vector_push_back_own_element_value)(Vec &v_in, size_t i) {
    GIVEN(v)
    FOLLOW(i)
    v.push_back(v[i]);
    REQUIRE(e_at == AT(v, i));
    REQUIRE(e_copyat == AT(v, n));
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C08_vector_push_back_own_element_moved)(Vec &v_in, size_t i) {
    GIVEN(v)
    FOLLOW(i)
    v.push_back(move(v[i]));
    REQUIRE(e_at == AT(v, n));
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C08_vector_emplace_back_own_element)(Vec &v_in, size_t i) {
    GIVEN(v)
    FOLLOW(i)
    v.emplace_back(v[i]);
    REQUIRE(e_at == AT(v, i));
    REQUIRE(e_copyat == AT(v, n));
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C08_vector_push_back_own_element_others)(Vec &v_in, size_t i, size_t k) {
    GIVEN(v)
    FOLLOW(k)
    ASSUME(i < n && i != k);
    v.push_back(v[i]);
    REQUIRE(e_at == AT(v, k) && e_copyat == nullptr);
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C08_vector_push_back_own_element_moved_others)(Vec &v_in, size_t i, size_t k) {
    GIVEN(v)
    FOLLOW(k)
    ASSUME(i < n && i != k);
    v.push_back(move(v[i]));
    REQUIRE(e_at == AT(v, k) && v.size() == n + 1);
    HOPS();
    REACH();
    KEEP(v);
}
CONTRACT(C08_vector_emplace_back_own_element_moved)(Vec &v_in, size_t i) {
    GIVEN(v)
    FOLLOW(i)
    v.emplace_back(move(v[i]));
    REQUIRE(e_at == AT(v, n) && v.size() == n + 1);
    HOPS();
    REACH();
    KEEP(v);
}

#if EPOCH == 2026
// An arbitrary FixedVector: n live elements in its own storage.
#define GIVENF(v)                                                                                  \
    e_reset();                                                                                     \
    const size_t n = v.size(), cp = v.capacity();                                                  \
    const char *const d = (const char *)v.data();                                                  \
    ASSUME(n <= cp && (size_t)d < LIM * 4);                                                        \
    e_base0 = d;                                                                                   \
    e_len0 = cp * sizeof(Tr);
#define CHECKF(v, k)                                                                               \
    {                                                                                              \
        REQUIRE((const char *)v.data() == d);                                                      \
        REQUIRE(v.size() <= cp);                                                                   \
        REQUIRE(e_alive0 == ((k) < v.size()));                                                     \
    }
CONTRACT(C06_fixed_destroy)(Fix &v, size_t k) {
    GIVENF(v)
    CELL(k, 0)
    v.~Fix();
    REQUIRE(!e_alive0);
    REACH();
}
CONTRACT(C06_fixed_pop_back)(Fix &v, size_t k) {
    GIVENF(v)
    CELL(k, 0)
    v.pop_back();
    REQUIRE(v.size() == (n ? n - 1 : 0));
    CHECKF(v, k)
    REACH();
}
CONTRACT(C06_fixed_try_push_back_copy)(Fix &v, const Tr &x, size_t k) {
    GIVENF(v)
    OUTSIDE(x)
    CELL(k, 0)
    bool r = v.try_push_back(x);
    REQUIRE(r == (n < cp));
    REQUIRE(v.size() == (r ? n + 1 : n));
    CHECKF(v, k)
    REACH();
}
CONTRACT(C06_fixed_try_push_back_move)(Fix &v, Tr &x, size_t k) {
    GIVENF(v)
    OUTSIDE(x)
    CELL(k, 0)
    bool r = v.try_push_back(move(x));
    REQUIRE(r == (n < cp));
    REQUIRE(v.size() == (r ? n + 1 : n));
    CHECKF(v, k)
    REACH();
}
CONTRACT(C06_fixed_push_back_full)(Fix &v, const Tr &x, size_t k) {
    GIVENF(v)
    OUTSIDE(x)
    CELL(k, 0)
    try {
        v.push_back(x);
        REQUIRE(!(n == cp));
        REQUIRE(v.size() == n + 1);
        CHECKF(v, k)
        REACH();
    } catch(...) {
        REQUIRE(n == cp);
        REQUIRE(v.size() == n);
        CHECKF(v, k)
        REACH();
    }
}
CONTRACT(C06_fixed_emplace_back)(Fix &v, int x, size_t k) {
    GIVENF(v)
    CELL(k, 0)
    bool r = v.try_emplace_back(x);
    REQUIRE(r == (n < cp));
    REQUIRE(v.size() == (r ? n + 1 : n));
    CHECKF(v, k)
    REACH();
}
CONTRACT(C06_fixed_insert)(Fix &v, Tr &x, size_t at, size_t k) {
    GIVENF(v)
    OUTSIDE(x)
    CELL(k, 0)
    try {
        v.insert(at, move(x));
        REQUIRE(!(n == cp || at > n));
        REQUIRE(v.size() == n + 1);
        CHECKF(v, k)
        REACH();
    } catch(...) {
        REQUIRE(n == cp || at > n);
        REQUIRE(v.size() == n);
        CHECKF(v, k)
        REACH();
    }
}
CONTRACT(C06_fixed_insert_order)(Fix &v, Tr &x, size_t at, size_t k) {
    GIVENF(v)
    FOLLOW(k)
    OUTSIDE(x)
    ASSUME(n < cp && at <= n);
    v.insert(at, move(x));
    REQUIRE(e_at == AT(v, (k < at ? k : k + 1)));
    HOPS();
    REACH();
}
CONTRACT(C06_fixed_insert_value)(Fix &v, Tr &x, size_t at) {
    GIVENF(v)
    OUTSIDE(x)
    ASSUME(n < cp && at <= n);
    e_follow = true;
    e_at = (const char *)&x;
    v.insert(at, move(x));
    REQUIRE(e_at == AT(v, at));
    HOPS();
    REACH();
}
CONTRACT(C06_fixed_delete_at)(Fix &v, size_t at, size_t k) {
    GIVENF(v)
    CELL(k, 0)
    try {
        v.delete_at(at);
        REQUIRE(!(at >= n));
        REQUIRE(v.size() == n - 1);
        CHECKF(v, k)
        REACH();
    } catch(...) {
        REQUIRE(at >= n);
        REQUIRE(v.size() == n);
        CHECKF(v, k)
        REACH();
    }
}
CONTRACT(C06_fixed_delete_at_order)(Fix &v, size_t at, size_t k) {
    GIVENF(v)
    FOLLOW(k)
    ASSUME(at < n && at != k);
    v.delete_at(at);
    REQUIRE(e_at == AT(v, (k < at ? k : k - 1)));
    HOPS();
    REACH();
}
CONTRACT(C06_fixed_pop_front_order)(Fix &v, size_t k) {
    GIVENF(v)
    FOLLOW(k)
    ASSUME(k > 0);
    v.pop_front();
    REQUIRE(v.size() == n - 1 && e_at == AT(v, k - 1));
    HOPS();
    REACH();
}
CONTRACT(C06_fixed_move_construct)(Fix &v, size_t k) {
    GIVENF(v)
    CELL(k, 0)
    {
        Fix w(move(v));
        REQUIRE(w.size() == n && v.size() == 0);
        REQUIRE(!e_alive0);
    }
    REACH();
}
// A second FixedVector elsewhere: m live elements at f.
#define GIVENF2(w)                                                                                 \
    const size_t m = w.size();                                                                     \
    const char *const f = (const char *)w.data();                                                  \
    ASSUME(m <= cp && (size_t)f < LIM * 4 && (f + cp * sizeof(Tr) <= d || f >= d + cp * sizeof(Tr))); \
    e_base1 = f;                                                                                   \
    e_len1 = cp * sizeof(Tr);
#define CELL2(k1)                                                                                  \
    ASSUME(k1 < cp);                                                                               \
    e_cell1 = f + (k1) * sizeof(Tr);                                                               \
    e_alive1 = (k1) < m;
CONTRACT(C06_fixed_move_construct_target)(Fix &__restrict v, Raw<Fix> &__restrict r, size_t k, size_t k1) {
    GIVENF(v)
    const size_t m = 0;
    const char *const f = (const char *)&r;
    ASSUME((size_t)f < LIM * 4 && (f + sizeof(Fix) <= d || f >= d + sizeof(Fix)));
    e_base1 = f;
    e_len1 = cp * sizeof(Tr);
    CELL(k, 0)
    CELL2(k1)
    new(&r) Fix(move(v));
    Fix &w = *(Fix *)&r;
    REQUIRE((const char *)w.data() == f);
    REQUIRE(w.size() == n && v.size() == 0 && !e_alive0 && e_alive1 == (k1 < n));
    REACH();
}
CONTRACT(C06_fixed_move_construct_order)(Fix &__restrict v, Raw<Fix> &__restrict r, size_t k) {
    GIVENF(v)
    const char *const f = (const char *)&r;
    ASSUME((size_t)f < LIM * 4 && (f + sizeof(Fix) <= d || f >= d + sizeof(Fix)));
    FOLLOW(k)
    new(&r) Fix(move(v));
    REQUIRE(e_at == f + k * sizeof(Tr));
    HOPS();
    REACH();
}
CONTRACT(C06_fixed_move_assign)(Fix &__restrict v, Fix &__restrict w, size_t k, size_t k1) {
    GIVENF(v)
    GIVENF2(w)
    CELL(k, 0)
    CELL2(k1)
    v = move(w);
    REQUIRE(v.size() == m && w.size() == 0 && !e_alive1 && e_alive0 == (k < m));
    REACH();
}
CONTRACT(C06_fixed_move_assign_order)(Fix &__restrict v, Fix &__restrict w, size_t k) {
    GIVENF(v)
    GIVENF2(w)
    ASSUME(k < m);
    e_follow = true;
    e_at = f + k * sizeof(Tr);
    v = move(w);
    REQUIRE(e_at == AT(v, k));
    HOPS();
    REACH();
}
CONTRACT(C06_fixed_move_assign_self)(Fix &v, size_t k) {
    GIVENF(v)
    CELL(k, 0)
    Fix &w = v;
    v = move(w);
    REQUIRE(v.size() == n);
    CHECKF(v, k)
    REACH();
}
CONTRACT(C06_fixed_move_append_full)(Fix &__restrict v, Fix &__restrict w, size_t k, size_t k1) {
    GIVENF(v)
    GIVENF2(w)
    CELL(k, 0)
    CELL2(k1)
    ASSUME(n + m > cp);
    try {
        v.move_append(w);
    } catch(...) {
        REQUIRE(v.size() == n && w.size() == m);
        REQUIRE(e_alive0 == (k < n) && e_alive1 == (k1 < m));
        REACH();
        return;
    }
    UNREACHABLE("appending more elements than fit is refused");
}
CONTRACT(C06_fixed_pop_front)(Fix &v, size_t k) {
    GIVENF(v)
    CELL(k, 0)
    v.pop_front();
    REQUIRE(v.size() == (n ? n - 1 : 0));
    CHECKF(v, k)
    REACH();
}
CONTRACT(C06_fixed_emplace_back_full)(Fix &v, int x, size_t k) {
    GIVENF(v)
    CELL(k, 0)
    try {
        v.emplace_back(x);
    } catch(...) {
        REQUIRE(n == cp && v.size() == n);
        CHECKF(v, k)
        REACH();
        return;
    }
    REQUIRE(n < cp && v.size() == n + 1);
    CHECKF(v, k)
    REACH();
}
CONTRACT(C06_fixed_push_back_move_full)(Fix &v, Tr &x, size_t k) {
    GIVENF(v)
    OUTSIDE(x)
    CELL(k, 0)
    try {
        v.push_back(move(x));
    } catch(...) {
        REQUIRE(n == cp && v.size() == n);
        CHECKF(v, k)
        REACH();
        return;
    }
    REQUIRE(n < cp && v.size() == n + 1);
    CHECKF(v, k)
    REACH();
}
CONTRACT(C06_fixed_push_back_value)(Fix &v, Tr &x) {
    GIVENF(v)
    OUTSIDE(x)
    ASSUME(n < cp);
    e_follow = true;
    e_at = (const char *)&x;
    v.push_back(move(x));
    REQUIRE(e_at == AT(v, n));
    HOPS();
    REACH();
}
CONTRACT(C06_fixed_push_back_copy_value)(Fix &v, const Tr &x) {
    GIVENF(v)
    OUTSIDE(x)
    ASSUME(n < cp);
    e_follow = true;
    e_at = (const char *)&x;
    v.push_back(x);
    REQUIRE(e_at == (const char *)&x && e_copyat == AT(v, n));
    HOPS();
    REACH();
}
#define FIXED_KEEPS(name, pre, expr)                                                               \
    CONTRACT(C06_fixed_##name##_others)(Fix & v, Tr & x, int y, size_t k) {                        \
        GIVENF(v)                                                                                  \
        OUTSIDE(x)                                                                                 \
        FOLLOW(k)                                                                                  \
        ASSUME(pre);                                                                               \
        expr;                                                                                      \
        REQUIRE(e_at == AT(v, k));                                                                 \
        HOPS();                                                                                    \
        REACH();                                                                                   \
    }
FIXED_KEEPS(push_back, n < cp, v.push_back((const Tr &)x))
FIXED_KEEPS(push_back_move, n < cp, v.push_back(move(x)))
FIXED_KEEPS(emplace_back, n < cp, v.emplace_back(y))
FIXED_KEEPS(pop_back, k + 1 < n, v.pop_back())
#endif
