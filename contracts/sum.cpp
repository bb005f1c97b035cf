// Optional, Expected and Variant: what is alive in the object is exactly what it says it holds.
#include "vk.hpp"
#include <pystd2026_variant.hpp>
using namespace V;

static const char *s_addr0, *s_addr1; // storage of the objects followed
static unsigned char s_kind0, s_kind1; // what lives there: 0 nothing, 1 A, 2 B, 3 C
static int s_live;                     // constructed minus destroyed
static unsigned char s_copies, s_moves;

#define S_FAIL(t) [[clang::nomerge]] vk_fail(t, __LINE__)
template<int K> struct Tag {
    int v;
    static void born(const char *p) noexcept {
        if(p == s_addr0) {
            if(s_kind0)
                S_FAIL("no value is constructed over a live one");
            s_kind0 = K;
        }
        if(p == s_addr1) {
            if(s_kind1)
                S_FAIL("no value is constructed over a live one");
            s_kind1 = K;
        }
        ++s_live;
    }
    static void use(const char *p) noexcept {
        if(p == s_addr0 && s_kind0 != K)
            S_FAIL("only the alternative that is held is accessed");
        if(p == s_addr1 && s_kind1 != K)
            S_FAIL("only the alternative that is held is accessed");
    }
    static void dies(const char *p) noexcept {
        use(p);
        if(p == s_addr0)
            s_kind0 = 0;
        if(p == s_addr1)
            s_kind1 = 0;
        --s_live;
    }
    const char *self() const noexcept { return (const char *)this; }
    Tag() noexcept : v{0} { born(self()); }
    explicit Tag(int x) noexcept : v{x} { born(self()); }
    Tag(const Tag &o) noexcept {
        use(o.self());
        born(self());
        v = o.v;
        ++s_copies;
    }
    Tag(Tag &&o) noexcept {
        use(o.self());
        born(self());
        v = o.v;
        ++s_moves;
    }
    Tag &operator=(const Tag &o) noexcept {
        use(self());
        use(o.self());
        v = o.v;
        ++s_copies;
        return *this;
    }
    Tag &operator=(Tag &&o) noexcept {
        use(self());
        use(o.self());
        v = o.v;
        ++s_moves;
        return *this;
    }
    ~Tag() { dies(self()); }
    bool operator==(const Tag &o) const noexcept {
        use(self());
        use(o.self());
        return v == o.v;
    }
    bool operator<(const Tag &o) const noexcept {
        use(self());
        use(o.self());
        return v < o.v;
    }
};
using A = Tag<1>;
using B = Tag<2>;
using C = Tag<3>;

using Opt = Optional<A>;
using Exp = Expected<A, B>;
using Var = Variant<A, B, C>;
template<typename T> struct alignas(T) Raw {
    char b[sizeof(T)];
    T &get() { return *reinterpret_cast<T *>(b); }
};
#define APART(a, b)                                                                                \
    ASSUME((const char *)&(a) + sizeof(a) <= (const char *)&(b) ||                                 \
           (const char *)&(a) >= (const char *)&(b) + sizeof(b));
// The storage of the value is at the start of the object.
#define FOLLOW0(o, k)                                                                              \
    s_addr0 = (const char *)&o;                                                                    \
    s_kind0 = k;                                                                                   \
    s_addr1 = nullptr;                                                                             \
    s_live = k != 0;
#define FOLLOW1(o, k)                                                                              \
    s_addr1 = (const char *)&o;                                                                    \
    s_kind1 = k;                                                                                   \
    s_live += k != 0;

// ---- Optional
#define OPT(o)                                                                                     \
    const bool h = bool(o);                                                                        \
    FOLLOW0(o, h)
#define VAL(o) (*(const int *)(const char *)&o)
CONTRACT(C04_optional_empty)(Raw<Opt> & r) {
    FOLLOW0(r, 0)
    new(&r) Opt();
    REQUIRE(!bool(r.get()) && s_kind0 == 0);
    REACH();
}
CONTRACT(C04_optional_from_copy)(const A &__restrict x, Raw<Opt> &__restrict r) {
        APART(x, r)
    FOLLOW0(r, 0)
    new(&r) Opt(x);
    REQUIRE(bool(r.get()) && s_kind0 == 1 && VAL(r) == x.v);
    REACH();
}
CONTRACT(C04_optional_from_move)(A &__restrict x, Raw<Opt> &__restrict r) {
        APART(x, r)
    FOLLOW0(r, 0)
    const int y = x.v;
    new(&r) Opt(move(x));
    REQUIRE(bool(r.get()) && s_kind0 == 1 && VAL(r) == y);
    REACH();
}
CONTRACT(C04_optional_copy)(const Opt &__restrict o, Raw<Opt> &__restrict r) {
        APART(o, r)
    OPT(o)
    FOLLOW1(r, 0)
    new(&r) Opt(o);
    REQUIRE(bool(r.get()) == h && s_kind1 == h && s_kind0 == h && bool(o) == h);
    if(h)
        REQUIRE(VAL(r) == VAL(o));
    REACH();
}
CONTRACT(C04_optional_move)(Opt &__restrict o, Raw<Opt> &__restrict r) {
        APART(o, r)
    OPT(o)
    FOLLOW1(r, 0)
    new(&r) Opt(move(o));
    REQUIRE(bool(r.get()) == h && s_kind1 == h);
    REQUIRE(s_kind0 == bool(o));
    REACH();
}
CONTRACT(C04_optional_destroy)(Opt &o) {
    OPT(o)
    o.~Opt();
    REQUIRE(s_kind0 == 0 && s_live == 0);
    REACH();
}
CONTRACT(C04_optional_reset)(Opt &o) {
    OPT(o)
    o.reset();
    REQUIRE(!bool(o) && s_kind0 == 0 && s_live == 0);
    REACH();
}
CONTRACT(C04_optional_assign_copy)(Opt &__restrict o, Opt &__restrict p) {
    OPT(p)
    APART(o, p)
    const bool ho = bool(o);
    FOLLOW1(o, ho)
    const int y = VAL(p);
    o = (const Opt &)p;
    REQUIRE(bool(o) == h && s_kind1 == h && s_kind0 == h && bool(p) == h);
    if(h) {
        REQUIRE(VAL(o) == y);
        REQUIRE(VAL(p) == y);
    }
    REQUIRE(s_live == 2 * h);
    REACH();
}
CONTRACT(C04_optional_assign_move)(Opt &__restrict o, Opt &__restrict p) {
    OPT(p)
    APART(o, p)
    const bool ho = bool(o);
    FOLLOW1(o, ho)
    o = move(p);
    REQUIRE(bool(o) == h && s_kind1 == h && s_kind0 == bool(p));
    REACH();
}
CONTRACT(C04_optional_assign_self)(Opt &o) {
    OPT(o)
    const int y = VAL(o);
    Opt &p = o;
    o = (const Opt &)p;
    o = move(p);
    REQUIRE(bool(o) == h && s_kind0 == h && s_live == h);
    if(h)
        REQUIRE(VAL(o) == y);
    REACH();
}
CONTRACT(C04_optional_assign_value)(Opt &__restrict o, A &__restrict x) {
    OPT(o)
    APART(x, o)
    const int y = x.v;
    o = (const A &)x;
    REQUIRE(bool(o) && s_kind0 == 1 && s_live == 1 && VAL(o) == y && x.v == y);
    REACH();
}
CONTRACT(C04_optional_assign_value_move)(Opt &__restrict o, A &__restrict x) {
    OPT(o)
    APART(x, o)
    const int y = x.v;
    o = move(x);
    REQUIRE(bool(o) && s_kind0 == 1 && s_live == 1 && VAL(o) == y);
    REACH();
}
CONTRACT(C04_optional_assign_own_value)(Opt &o) {
    OPT(o)
    ASSUME(h);
    const int y = VAL(o);
    A &x = *o;
    o = (const A &)x;
    o = move(x);
    REQUIRE(bool(o) && s_kind0 == 1 && s_live == 1 && VAL(o) == y);
    REACH();
}
#define OPT_ACCESS(name, type, expr)                                                               \
    CONTRACT(C04_optional_##name)(type & o) {                                                      \
        OPT(o)                                                                                     \
        try {                                                                                      \
            const void *p = expr;                                                                  \
            REQUIRE(h && p == (const void *)&o);                                                   \
            REACH();                                                                               \
        } catch(...) {                                                                             \
            REQUIRE(!h);                                                                           \
            REACH();                                                                               \
        }                                                                                          \
    }
OPT_ACCESS(star, Opt, &*o)
OPT_ACCESS(star_const, const Opt, &*o)
OPT_ACCESS(arrow, Opt, &o->v)
OPT_ACCESS(arrow_const, const Opt, &o->v)
OPT_ACCESS(value, Opt, &o.value())
OPT_ACCESS(value_const, const Opt, &o.value())

// a pointer's null state is the empty state
using OptP = Optional<A *>;
CONTRACT(C04_optional_pointer_make)(A *p) {
    OptP e, o{p};
    const OptP &co = o;
    REQUIRE(!bool(e) && bool(o) == (p != nullptr));
    OptP q{co}, m{move(o)}, a, b;
    a = (const OptP &)q;
    b = move(q);
    REQUIRE(bool(m) == (p != nullptr) && bool(a) == (p != nullptr) && bool(b) == (p != nullptr));
    if(p) {
        NO_THROW({
            REQUIRE(m.value() == p && a.value() == p && b.value() == p && &*m == p && m.operator->() == p);
            const OptP &c = m;
            REQUIRE(c.value() == p && &*c == p && c.operator->() == p);
        });
    }
    b.reset();
    REQUIRE(!bool(b));
    REACH();
}
#define OPTP_ACCESS(name, type, expr)                                                              \
    CONTRACT(C04_optional_pointer_##name)(type & o) {                                              \
        const bool h = bool(o);                                                                    \
        try {                                                                                      \
            (void)(expr);                                                                          \
        } catch(...) {                                                                             \
            REQUIRE(!h);                                                                           \
            REACH();                                                                               \
            return;                                                                                \
        }                                                                                          \
        REQUIRE(h);                                                                                \
        REACH();                                                                                   \
    }
OPTP_ACCESS(star, OptP, &*o)
OPTP_ACCESS(star_const, const OptP, &*o)
OPTP_ACCESS(arrow, OptP, o.operator->())
OPTP_ACCESS(arrow_const, const OptP, o.operator->())
OPTP_ACCESS(value, OptP, o.value())
OPTP_ACCESS(value_const, const OptP, o.value())

// ---- Expected
#define EKIND(o) ((o).has_value() ? 1 : (o).has_error() ? 2 : 0)
#define EXP(o)                                                                                     \
    const unsigned char h = EKIND(o);                                                              \
    ASSUME(!((o).has_value() && (o).has_error()));                                                 \
    FOLLOW0(o, h)
#define EXP_MAKE(name, arg, expr, kind)                                                            \
    CONTRACT(C04_expected_##name)(arg x, Raw<Exp> &__restrict r) {                                     \
        APART(x, r) \
        FOLLOW0(r, 0)                                                                              \
        const int y = x.v;                                                                         \
        new(&r) Exp(expr);                                                                         \
        REQUIRE(EKIND(r.get()) == kind && s_kind0 == kind && VAL(r) == y);                         \
        REQUIRE(bool(r.get()) == (kind == 1));                                                     \
        REACH();                                                                                   \
    }
EXP_MAKE(from_value, const A &, x, 1)
EXP_MAKE(from_value_move, A &, move(x), 1)
EXP_MAKE(from_error, const B &, x, 2)
EXP_MAKE(from_error_move, B &, move(x), 2)
CONTRACT(C04_expected_empty)(Raw<Exp> & r) {
    FOLLOW0(r, 0)
    new(&r) Exp();
    REQUIRE(EKIND(r.get()) == 0 && s_kind0 == 0 && !bool(r.get()));
    REACH();
}
CONTRACT(C04_expected_from_unexpected)(Unexpected<B> &__restrict u, Raw<Exp> &__restrict r) {
        APART(u, r)
    FOLLOW0(r, 0)
    const int y = u.error().v;
    new(&r) Exp(move(u));
    REQUIRE(EKIND(r.get()) == 2 && s_kind0 == 2 && VAL(r) == y);
    REACH();
}
CONTRACT(C04_expected_move)(Exp &__restrict o, Raw<Exp> &__restrict r) {
        APART(o, r)
    EXP(o)
    FOLLOW1(r, 0)
    new(&r) Exp(move(o));
    REQUIRE(EKIND(r.get()) == h && s_kind1 == h && s_kind0 == EKIND(o));
    REACH();
}
CONTRACT(C04_expected_destroy)(Exp &o) {
    EXP(o)
    o.~Exp();
    REQUIRE(s_kind0 == 0 && s_live == 0);
    REACH();
}
CONTRACT(C04_expected_assign_move)(Exp &__restrict o, Exp &__restrict p) {
    EXP(p)
    APART(o, p)
    ASSUME(!(o.has_value() && o.has_error()));
    const unsigned char ho = EKIND(o);
    FOLLOW1(o, ho)
    o = move(p);
    REQUIRE(EKIND(o) == h && s_kind1 == h && s_kind0 == EKIND(p));
    REACH();
}
CONTRACT(C04_expected_assign_self)(Exp &o) {
    EXP(o)
    const int y = VAL(o);
    Exp &p = o;
    o = move(p);
    REQUIRE(EKIND(o) == h && s_kind0 == h && s_live == (h != 0));
    if(h)
        REQUIRE(VAL(o) == y);
    REACH();
}
CONTRACT(C04_expected_value)(Exp &o) {
    EXP(o)
    vk_may_end = true;
    const void *p = &o.value();
    REQUIRE(h == 1 && p == (const void *)&o);
    REACH();
}
CONTRACT(C04_expected_error)(Exp &o) {
    EXP(o)
    vk_may_end = true;
    const void *p = &o.error();
    REQUIRE(h == 2 && p == (const void *)&o);
    REACH();
}

// ---- Variant
#define VARI(o)                                                                                    \
    const int h = (o).index() + 1;                                                                 \
    ASSUME(h >= 1 && h <= 3);                                                                      \
    FOLLOW0(o, h)
#define VARCHECK(o, kind)                                                                          \
    REQUIRE((o).index() + 1 == kind);
#define VAR_MAKE(name, arg, expr, kind)                                                            \
    CONTRACT(C05_variant_##name)(arg x, Raw<Var> &__restrict r) {                                      \
        APART(x, r) \
        FOLLOW0(r, 0)                                                                              \
        const int y = x.v;                                                                         \
        new(&r) Var(expr);                                                                         \
        REQUIRE(r.get().index() + 1 == kind && s_kind0 == kind && VAL(r) == y);                    \
        REACH();                                                                                   \
    }
VAR_MAKE(from_first, const A &, x, 1)
VAR_MAKE(from_first_lvalue, A &, x, 1)
VAR_MAKE(from_first_move, A &, move(x), 1)
VAR_MAKE(from_second, const B &, x, 2)
VAR_MAKE(from_second_lvalue, B &, x, 2)
VAR_MAKE(from_second_move, B &, move(x), 2)
VAR_MAKE(from_third, const C &, x, 3)
VAR_MAKE(from_third_move, C &, move(x), 3)
CONTRACT(C05_variant_default)(Raw<Var> & r) {
    FOLLOW0(r, 0)
    new(&r) Var();
    REQUIRE(r.get().index() == 0 && s_kind0 == 1);
    REACH();
}
CONTRACT(C05_variant_copy)(const Var &__restrict o, Raw<Var> &__restrict r) {
        APART(o, r)
    VARI(o)
    FOLLOW1(r, 0)
    const int y = VAL(o);
    new(&r) Var(o);
    REQUIRE(r.get().index() + 1 == h && s_kind1 == h && VAL(r) == y);
    REQUIRE(o.index() + 1 == h && s_kind0 == h && VAL(o) == y);
    REACH();
}
CONTRACT(C05_variant_move)(Var &__restrict o, Raw<Var> &__restrict r) {
        APART(o, r)
    VARI(o)
    FOLLOW1(r, 0)
    const int y = VAL(o);
    new(&r) Var(move(o));
    REQUIRE(r.get().index() + 1 == h && s_kind1 == h && VAL(r) == y);
    REQUIRE(s_kind0 == o.index() + 1);
    REACH();
}
CONTRACT(C05_variant_destroy)(Var &o) {
    VARI(o)
    o.~Var();
    REQUIRE(s_kind0 == 0 && s_live == 0);
    REACH();
}
#define VAR_ASSIGN(name, expr)                                                                     \
    CONTRACT(C05_variant_##name)(Var &__restrict o, Var &__restrict p) {                                               \
        VARI(p)                                                                                    \
        APART(o, p)                                \
        const int ho = o.index() + 1;                                                              \
        ASSUME(ho >= 1 && ho <= 3);                                                                \
        FOLLOW1(o, ho)                                                                             \
        const int y = VAL(p);                                                                      \
        expr;                                                                                      \
        REQUIRE(o.index() + 1 == h && s_kind1 == h && VAL(o) == y);                                \
        REQUIRE(s_kind0 == p.index() + 1);                                                         \
        REACH();                                                                                   \
    }
VAR_ASSIGN(assign_copy, o = (const Var &)p; REQUIRE(p.index() + 1 == h && VAL(p) == y))
VAR_ASSIGN(assign_move, o = move(p))
CONTRACT(C05_variant_assign_self)(Var &o) {
    VARI(o)
    const int y = VAL(o);
    Var &p = o;
    o = (const Var &)p;
    o = move(p);
    REQUIRE(o.index() + 1 == h && s_kind0 == h && s_live == 1 && VAL(o) == y);
    REACH();
}
#define VAR_INSERT(name, T, kind)                                                                  \
    CONTRACT(C05_variant_insert_##name)(Var &__restrict o, int y) {                                          \
        VARI(o)                                                                                    \
        o.insert(T(y));                                                                            \
        REQUIRE(o.index() + 1 == kind && s_kind0 == kind && s_live == 1 && VAL(o) == y);           \
        REACH();                                                                                   \
    }
VAR_INSERT(first, A, 1)
VAR_INSERT(second, B, 2)
VAR_INSERT(third, C, 3)
CONTRACT(C05_variant_insert_own)(Var &o) {
    VARI(o)
    ASSUME(h == 2);
    const int y = VAL(o);
    o.insert<B>(o.get<B>());
    REQUIRE(o.index() + 1 == 2 && s_kind0 == 2 && s_live == 1 && VAL(o) == y);
    REACH();
}
#define VAR_ACCESS(name, T, kind)                                                                  \
    CONTRACT(C05_variant_ask_##name)(Var & o) {                                                    \
        VARI(o)                                                                                    \
        const Var &c = o;                                                                          \
        REQUIRE(o.contains<T>() == (h == kind));                                                   \
        REQUIRE(o.get_if<T>() == (h == kind ? (T *)(void *)&o : nullptr));                         \
        REQUIRE(c.get_if<T>() == (h == kind ? (const T *)(const void *)&o : nullptr));             \
        REACH();                                                                                   \
    }                                                                                              \
    VAR_GET(name, T, kind, Var)                                                                    \
    VAR_GET(const_##name, T, kind, const Var)
#define VAR_GET(name, T, kind, type)                                                               \
    CONTRACT(C05_variant_get_##name)(type & o) {                                                   \
        VARI(o)                                                                                    \
        const void *p = nullptr;                                                                   \
        try {                                                                                      \
            p = &o.get<T>();                                                                       \
        } catch(...) {                                                                             \
            REQUIRE(h != kind);                                                                    \
            REACH();                                                                               \
            return;                                                                                \
        }                                                                                          \
        REQUIRE(h == kind && p == (const void *)&o);                                               \
        REACH();                                                                                   \
    }
VAR_ACCESS(first, A, 1)
VAR_ACCESS(second, B, 2)
VAR_ACCESS(third, C, 3)

// ---- the value itself travels with the move
#define MOVE_VALUE(name, T, pre)                                                                   \
    CONTRACT(name##_construct_value)(T & __restrict o, Raw<T> & __restrict r) {                    \
        APART(o, r)                                                                                \
        ASSUME(pre);                                                                               \
        FOLLOW0(o, 0)                                                                              \
        s_addr0 = nullptr;                                                                         \
        const int y = VAL(o);                                                                      \
        new(&r) T(move(o));                                                                        \
        REQUIRE(VAL(r) == y);                                                                      \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(name##_assign_value)(T & __restrict o, T & __restrict p) {                            \
        APART(o, p)                                                                                \
        ASSUME(pre);                                                                               \
        FOLLOW0(o, 0)                                                                              \
        s_addr0 = nullptr;                                                                         \
        const int y = VAL(o);                                                                      \
        p = move(o);                                                                               \
        REQUIRE(VAL(p) == y);                                                                      \
        REACH();                                                                                   \
    }
MOVE_VALUE(C04_optional_moves, Opt, bool(o))
MOVE_VALUE(C04_expected_moves_value, Exp, o.has_value() && !o.has_error())
MOVE_VALUE(C04_expected_moves_error, Exp, o.has_error() && !o.has_value())

// ---- every one of the 30 alternatives a Variant may have
using Wide = Variant<Tag<1>, Tag<2>, Tag<3>, Tag<4>, Tag<5>, Tag<6>, Tag<7>, Tag<8>, Tag<9>, Tag<10>, Tag<11>,
                     Tag<12>, Tag<13>, Tag<14>, Tag<15>, Tag<16>, Tag<17>, Tag<18>, Tag<19>, Tag<20>, Tag<21>,
                     Tag<22>, Tag<23>, Tag<24>, Tag<25>, Tag<26>, Tag<27>, Tag<28>, Tag<29>, Tag<30>>;
#define WIDE(o)                                                                                    \
    const int h = (o).index() + 1;                                                                 \
    ASSUME(h >= 1 && h <= 30);                                                                     \
    FOLLOW0(o, h)
CONTRACT(C05_wide_copy)(const Wide &__restrict o, Raw<Wide> &__restrict r) {
    APART(o, r)
    WIDE(o)
    FOLLOW1(r, 0)
    const int y = VAL(o);
    new(&r) Wide(o);
    REQUIRE(r.get().index() + 1 == h && s_kind1 == h && VAL(r) == y);
    REQUIRE(o.index() + 1 == h && s_kind0 == h && VAL(o) == y);
    REACH();
}
CONTRACT(C05_wide_move)(Wide &__restrict o, Raw<Wide> &__restrict r) {
    APART(o, r)
    WIDE(o)
    FOLLOW1(r, 0)
    const int y = VAL(o);
    new(&r) Wide(move(o));
    REQUIRE(r.get().index() + 1 == h && s_kind1 == h && VAL(r) == y);
    REQUIRE(s_kind0 == o.index() + 1);
    REACH();
}
CONTRACT(C05_wide_destroy)(Wide &o) {
    WIDE(o)
    o.~Wide();
    REQUIRE(s_kind0 == 0 && s_live == 0);
    REACH();
}
#define WIDE_ASSIGN(name, K, expr)                                                                 \
    CONTRACT(C05_wide_##name##_##K)(Wide & __restrict o, Wide & __restrict p) {                    \
        APART(o, p)                                                                                \
        WIDE(p)                                                                                    \
        ASSUME(h == K);                                                                            \
        const int ho = o.index() + 1;                                                              \
        ASSUME(ho >= 1 && ho <= 30);                                                               \
        FOLLOW1(o, ho)                                                                             \
        const int y = VAL(p);                                                                      \
        expr;                                                                                      \
        REQUIRE(o.index() + 1 == K && s_kind1 == K && VAL(o) == y);                                \
        REQUIRE(s_kind0 == p.index() + 1);                                                         \
        REACH();                                                                                   \
    }
#define WIDE_EACH(K)                                                                               \
    WIDE_ASSIGN(assign_copy, K, o = (const Wide &)p)                                               \
    WIDE_ASSIGN(assign_move, K, o = move(p))                                                       \
    CONTRACT(C05_wide_from_##K)(const Tag<K> &__restrict x, Raw<Wide> &__restrict r) {             \
        APART(x, r)                                                                                \
        FOLLOW0(r, 0)                                                                              \
        const int y = x.v;                                                                         \
        new(&r) Wide(x);                                                                           \
        REQUIRE(r.get().index() + 1 == K && s_kind0 == K && VAL(r) == y);                          \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C05_wide_from_lvalue_##K)(Tag<K> & __restrict x, Raw<Wide> & __restrict r) {          \
        APART(x, r)                                                                                \
        FOLLOW0(r, 0)                                                                              \
        const int y = x.v;                                                                         \
        new(&r) Wide(x);                                                                           \
        REQUIRE(r.get().index() + 1 == K && s_kind0 == K && VAL(r) == y);                          \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C05_wide_from_move_##K)(Tag<K> & __restrict x, Raw<Wide> & __restrict r) {            \
        APART(x, r)                                                                                \
        FOLLOW0(r, 0)                                                                              \
        const int y = x.v;                                                                         \
        new(&r) Wide(move(x));                                                                     \
        REQUIRE(r.get().index() + 1 == K && s_kind0 == K && VAL(r) == y);                          \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C05_wide_insert_##K)(Wide & o, int y) {                                               \
        WIDE(o)                                                                                    \
        o.insert(Tag<K>(y));                                                                       \
        REQUIRE(o.index() + 1 == K && s_kind0 == K && s_live == 1 && VAL(o) == y);                 \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C05_wide_ask_##K)(Wide & o) {                                                         \
        WIDE(o)                                                                                    \
        const Wide &c = o;                                                                         \
        REQUIRE(o.contains<Tag<K>>() == (h == K));                                                 \
        REQUIRE(o.get_if<Tag<K>>() == (h == K ? (Tag<K> *)(void *)&o : nullptr));                  \
        REQUIRE(c.get_if<Tag<K>>() == (h == K ? (const Tag<K> *)(const void *)&o : nullptr));      \
        REACH();                                                                                   \
    }
WIDE_EACH(1) WIDE_EACH(2) WIDE_EACH(3) WIDE_EACH(4) WIDE_EACH(5) WIDE_EACH(6) WIDE_EACH(7) WIDE_EACH(8)
WIDE_EACH(9) WIDE_EACH(10) WIDE_EACH(11) WIDE_EACH(12) WIDE_EACH(13) WIDE_EACH(14) WIDE_EACH(15) WIDE_EACH(16)
WIDE_EACH(17) WIDE_EACH(18) WIDE_EACH(19) WIDE_EACH(20) WIDE_EACH(21) WIDE_EACH(22) WIDE_EACH(23) WIDE_EACH(24)
WIDE_EACH(25) WIDE_EACH(26) WIDE_EACH(27) WIDE_EACH(28) WIDE_EACH(29) WIDE_EACH(30)

// ---- the storage fits the largest alternative, wherever it is in the list, and nothing overlaps it
template<int N, int Al> struct alignas(Al) Big {
    int first;
    char pad[N];
    int last;
    Big() noexcept : first{0}, last{0} {}
    explicit Big(int a, int b) noexcept : first{a}, last{b} {}
};
#define FITS(name, T, ...)                                                                         \
    CONTRACT(C05_variant_fits_##name)(Raw<Variant<__VA_ARGS__>> & __restrict r, int a, int b) {    \
        new(&r) Variant<__VA_ARGS__>(T(a, b));                                                     \
        auto &v = r.get();                                                                         \
        T *p = v.get_if<T>();                                                                      \
        REQUIRE(p);                                                                                \
        REQUIRE((char *)p >= (char *)&r);                                                          \
        REQUIRE((char *)p + sizeof(T) <= (char *)&r + sizeof(r));                                  \
        REQUIRE(alignof(Variant<__VA_ARGS__>) >= alignof(T));                                      \
        REQUIRE(p->first == a && p->last == b);                                                    \
        REACH();                                                                                   \
    }
using Big1 = Big<40, 8>;
using Big2 = Big<9, 32>;
FITS(first, Big1, Big1, A, B)
FITS(middle, Big1, A, Big1, B)
FITS(last, Big1, A, B, Big1)
FITS(aligned_first, Big2, Big2, A, B)
FITS(aligned_middle, Big2, A, Big2, B)
FITS(aligned_last, Big2, A, B, Big2)
FITS(both, Big2, Big1, Big2, A)
