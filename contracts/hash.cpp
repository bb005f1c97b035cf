// flags: -fno-access-control
// C21: HashMap and HashSet
#include "vk.hpp"
#include <stdlib.h>
#include <string.h>
extern "C" size_t vk_opaque_index() noexcept;
extern "C" int vk_opaque_bool() noexcept;
extern "C" char *vk_opaque_alloc(size_t n) noexcept __attribute__((malloc));
extern "C" void vk_use(size_t) noexcept;
const size_t LIM = size_t(1) << 40;
#define E_FAIL(t) [[clang::nomerge]] vk_fail(t, __LINE__)

// One arbitrary key cell and one arbitrary value cell: is a live object there?
static const char *k_cell, *v_cell;
static bool k_alive, v_alive;
static const char *k_lo, *v_lo; // the storage of keys and values
static size_t k_len, v_len;
static bool v_count; // are those counted?
static size_t v_births, v_deaths; // of values inside the table's storage
static const char *q_slot; // the stored key compared last
static bool q_equal;
static const char *w_obj; // an arbitrary value cell that must not be assigned
static bool w_hit;
static inline bool h_in(const char *p, const char *lo, size_t len) {
    return (size_t)p >= (size_t)lo && (size_t)p < (size_t)lo + len;
}
struct HK {
    char pad[23]; // odd: no shifts in the addresses;
    HK() noexcept { born(); }
    HK(const HK &o) noexcept {
        o.use();
        born();
    }
    HK(HK &&o) noexcept {
        o.use();
        born();
    }
    HK &operator=(const HK &o) noexcept {
        use();
        o.use();
        return *this;
    }
    HK &operator=(HK &&o) noexcept {
        use();
        o.use();
        return *this;
    }
    ~HK() {
        use();
        if((const char *)this == k_cell)
            k_alive = false;
    }
    bool operator==(const HK &o) const noexcept {
        use();
        o.use();
        const bool r = vk_opaque_bool();
        q_slot = (const char *)this;
        q_equal = r;
        return r;
    }
    void use() const {
        if((const char *)this == k_cell && !k_alive)
            E_FAIL("no key is used before it is constructed or after it is destroyed");
    }
    void born() {
        if((const char *)this == k_cell) {
            if(k_alive)
                E_FAIL("no key is constructed over a live one");
            k_alive = true;
        }
    }
    template<typename H> void feed_hash(H &) const noexcept { use(); }
};
struct HV {
    char pad[41];;
    HV() noexcept { born(); }
    HV(const HV &o) noexcept {
        o.use();
        born();
    }
    HV(HV &&o) noexcept {
        o.use();
        born();
    }
    HV &operator=(const HV &o) noexcept {
        use();
        o.use();
        return *this;
    }
    HV &operator=(HV &&o) noexcept {
        use();
        o.use();
        return *this;
    }
    ~HV() {
        use();
        if((const char *)this == v_cell)
            v_alive = false;
        if(v_count && h_in((const char *)this, v_lo, v_len))
            ++v_deaths;
    }
    void use() const {
        if((const char *)this == v_cell && !v_alive)
            E_FAIL("no value is used before it is constructed or after it is destroyed");
    }
    void born() {
        if((const char *)this == v_cell) {
            if(v_alive)
                E_FAIL("no value is constructed over a live one");
            v_alive = true;
        }
        if(v_count && h_in((const char *)this, v_lo, v_len))
            ++v_births;
    }
};
struct HH { // any hash function
    size_t v{0};
    void feed_bytes(const char *, size_t) noexcept {}
    size_t get_hash_value() const noexcept { return vk_opaque_index(); }
    void reset() noexcept {}
};
#include "pystd2026.cpp"
#include <pystd2026_hashtable.hpp>
using namespace V;
using Map = HashMap<HK, HV, HH>;
void operator delete[](void *) noexcept {}
void operator delete(void *) noexcept {}
void *operator new[](size_t n) {
    char *const p = vk_opaque_alloc(n);
    ASSUME((size_t)p > LIM * 8192 && (size_t)p < LIM * 16384); // apart from what is there
    return p;
}

union Hold { // not destroyed by itself
    Map m;
    Hold(Map &&o) : m(move(o)) {}
    ~Hold() {}
};
// An arbitrary well-formed map of T slots with n entries and d tombstones
#define GIVEN(m)                                                                                   \
    v_count = true;                                                                                \
    k_cell = v_cell = nullptr;                                                                     \
    v_births = v_deaths = 0;                                                                       \
    q_slot = nullptr;                                                                              \
    q_equal = false;                                                                               \
    k_lo = v_lo = nullptr;                                                                         \
    k_len = v_len = 0;                                                                             \
    Hold hold(move(m##_in));                                                                       \
    Map &m = hold.m;                                                                               \
    const size_t T = m.data.md.size(), n = m.num_entries, dead = m.num_tombstones;                 \
    const char *const mb = (const char *)m.data.md.get();                                          \
    const char *const kb = (const char *)m.data.keyptr(0);                                         \
    const char *const vb = (const char *)m.data.valueptr(0);                                       \
    ASSUME(mb && kb && vb && T > 0 && T < LIM && n <= T && dead <= T && n + dead < T);                                             \
    ASSUME(m.size_in_powers_of_two < 40);                                                          \
    const size_t mask_ = (size_t{1} << m.size_in_powers_of_two) - 1;                               \
    ASSUME(mask_ < T && T - mask_ <= 1);                                                           \
    ASSUME((size_t)mb < LIM * 8 && (size_t)kb < LIM * 256 && (size_t)kb > LIM * 8 + T);            \
    ASSUME((size_t)vb < LIM * 1024 && (size_t)vb > LIM * 512);                                     \
    k_lo = kb;                                                                                     \
    v_lo = vb;                                                                                     \
    k_len = T * sizeof(HK);                                                                        \
    v_len = T * sizeof(HV);
// Follow slot k, which holds state st (0 empty, 1 value, 2 tombstone)
#define SLOT(k, st)                                                                                \
    ASSUME(k < T);                                                                                 \
    vk_watch8(1, mb + k);                                                                          \
    const unsigned char by = *(const unsigned char *)(mb + k);                                     \
    ASSUME(bloom < 64 && by == (unsigned)bloom * 4 + (st));                                                                      \
    v_count = false;                                                                               \
    k_cell = kb + k * sizeof(HK);                                                                  \
    v_cell = vb + k * sizeof(HV);                                                                  \
    k_alive = v_alive = (st) == 1;
#define NOW (*(const unsigned char *)(mb + k) & 3)
#define KEEP(m)                                                                                    \
    vk_use(bloom);                                                                                 \
    KEEPS(m)
#define KEEPS(m) new(&m##_in) Map(move(m))
// afterwards the slot is alive exactly when it says so
#define CHECK(m)                                                                                   \
    {                                                                                              \
        REQUIRE((const char *)m.data.md.get() == mb && (const char *)m.data.keyptr(0) == kb);      \
        REQUIRE((const char *)m.data.valueptr(0) == vb && m.table_size() == T);                    \
        const unsigned now = NOW;                                                                  \
        REQUIRE(k_alive == (now == 1));                                                            \
        REQUIRE(v_alive == (now == 1));                                                            \
    }
#define OUTSIDE(x, v)                                                                              \
    ASSUME((size_t)&x > LIM * 2048 && (size_t)&x < LIM * 4096);
#define STATES(F) F(0, empty) F(1, taken) F(2, tombstone)

#define C_INSERT(st, tag)                                                                          \
    CONTRACT(C21_insert_##tag)(Map & m_in, const HK &key, size_t k, unsigned char bloom) {                              \
        GIVEN(m)                                                                                   \
        OUTSIDE(key, v)                                                                            \
        SLOT(k, st)                                                                                \
        vk_side(k);                                                                                \
        HV *r;                                                                                     \
        {                                                                                          \
            HV v;                                                                                  \
            r = &m.insert_internal(vk_opaque_index(), key, move(v));                               \
        }                                                                                          \
        CHECK(m)                                                                                   \
        if((const char *)r == v_cell)                                                              \
            REQUIRE(v_alive && k_alive);                                                           \
        else                                                                                       \
            REQUIRE(v_alive == (st == 1));                                                         \
        REACH();                                                                                   \
        KEEP(m);                                                                                   \
    }
STATES(C_INSERT)
CONTRACT(C21_insert_count)(Map &m_in, const HK &key) {
    GIVEN(m)
    OUTSIDE(key, v)
    {
        HV v;
        m.insert_internal(vk_opaque_index(), key, move(v));
    }
    REQUIRE(m.num_entries == n + v_births - v_deaths);
    REQUIRE(m.size() == m.num_entries && m.is_empty() == (m.num_entries == 0));
    REACH();
    KEEPS(m);
}
#define C_REMOVE(st, tag)                                                                          \
    CONTRACT(C21_remove_##tag)(Map & m_in, const HK &key, size_t k, unsigned char bloom) {                              \
        GIVEN(m)                                                                                   \
        OUTSIDE(key, v)                                                                            \
        SLOT(k, st)                                                                                \
        m.remove(key);                                                                             \
        CHECK(m)                                                                                   \
        REACH();                                                                                   \
        KEEP(m);                                                                                   \
    }
STATES(C_REMOVE)
// A slot becomes empty only when the one after it is: what was stored behind it is still found.
#define C_CHAIN(st, tag, NEXT, LAST)                                                               \
    CONTRACT(C21_remove_chain_##tag)(Map & m_in, const HK &key, size_t any, unsigned char bloom) { \
        vk_wrap_masks();                                                                           \
        GIVEN(m)                                                                                   \
        OUTSIDE(key, v)                                                                            \
        const size_t k = LAST ? mask_ : any;                                                       \
        SLOT(k, st)                                                                                \
        if(!LAST)                                                                                  \
            ASSUME(k < mask_);                                                                     \
        vk_watch8(2, mb + (NEXT));                                                                 \
        const unsigned char after = *(const unsigned char *)(mb + (NEXT));                         \
        vk_side(k);                                                                                \
        m.remove(key);                                                                             \
        const unsigned now = NOW;                                                                  \
        const unsigned char then = *(const unsigned char *)(mb + (NEXT));                          \
        const unsigned next = then & 3;                                                            \
        if(now == 0)                                                                               \
            REQUIRE(next == 0);                                                                    \
        REACH();                                                                                   \
        vk_use(after);                                                                             \
        KEEP(m);                                                                                   \
    }
C_CHAIN(1, taken, k + 1, false)
C_CHAIN(2, tombstone, k + 1, false)
C_CHAIN(1, taken_last, 0, true)
C_CHAIN(2, tombstone_last, 0, true)
CONTRACT(C21_remove_count)(Map &m_in, const HK &key) {
    GIVEN(m)
    OUTSIDE(key, v)
    ASSUME(n > 0);
    v_lo = nullptr; // all of them
    v_len = ~size_t(0);
    m.remove(key);
    REQUIRE(v_births == 0);
    REQUIRE(v_deaths <= 1);
    const size_t now = m.size();
    if(v_deaths == 0)
        REQUIRE(now == n);
    else
        REQUIRE(now + 1 == n);
    REACH();
    KEEPS(m);
}
#define C_CLEAR(st, tag)                                                                           \
    CONTRACT(C21_clear_##tag)(Map & m_in, size_t k, unsigned char bloom) {                                              \
        GIVEN(m)                                                                                   \
        SLOT(k, st)                                                                                \
        m.clear();                                                                                 \
        CHECK(m)                                                                                   \
        REQUIRE(NOW == 0 && m.size() == 0 && m.is_empty() && m.num_tombstones == 0);               \
        REACH();                                                                                   \
        KEEP(m);                                                                                   \
    }                                                                                              \
    CONTRACT(C21_destroy_##tag)(Map & m_in, size_t k, unsigned char bloom) {                                            \
        {                                                                                          \
            GIVEN(m)                                                                               \
            SLOT(k, st)                                                                            \
            m.~Map();                                                                              \
        }                                                                                          \
        REQUIRE(!k_alive && !v_alive);                                                             \
        vk_use(bloom);                                                                             \
        REACH();                                                                                   \
    }
STATES(C_CLEAR)
#define C_LOOKUP(st, tag)                                                                          \
    CONTRACT(C21_lookup_##tag)(Map & m_in, const HK &key, size_t k, unsigned char bloom) {                              \
        GIVEN(m)                                                                                   \
        OUTSIDE(key, v)                                                                            \
        SLOT(k, st)                                                                                \
        HV *const r = m.lookup(key);                                                               \
        CHECK(m)                                                                                   \
        REQUIRE(m.size() == n);                                                                    \
        if((const char *)r == v_cell) {                                                            \
            REQUIRE(st == 1);                                                                      \
            REQUIRE(q_slot == k_cell);                                                             \
            REQUIRE(q_equal);                                                                      \
            if(st == 1)                                                                            \
                REACH();                                                                           \
        }                                                                                          \
        if(st != 1)                                                                                \
            REACH();                                                                               \
        KEEP(m);                                                                                   \
    }
STATES(C_LOOKUP)

// at() and contains() follow lookup()
CONTRACT(C21_at)(Map &m_in, const HK &key, size_t k, unsigned char bloom) {
    GIVEN(m)
    OUTSIDE(key, v)
    SLOT(k, 1)
    bool raised = false;
    HV *r = nullptr;
    try {
        r = &m.at(key);
    } catch(...) { raised = true; }
    if(raised)
        REQUIRE(!q_equal);
    else {
        REQUIRE(q_equal);
        if((const char *)r == v_cell)
            REQUIRE(q_slot == k_cell);
        REACH();
    }
    KEEP(m);
}
CONTRACT(C21_contains)(Map &m_in, const HK &key) {
    GIVEN(m)
    OUTSIDE(key, v)
    q_equal = false;
    const bool r = m.contains(key);
    REQUIRE(r == q_equal);
    REACH();
    KEEPS(m);
}
// iteration visits exactly the entries, each once
#define C_ITER(st, tag)                                                                            \
    CONTRACT(C21_begin_##tag)(Map & m_in, size_t k, unsigned char bloom) {                         \
        GIVEN(m)                                                                                   \
        SLOT(k, st)                                                                                \
        auto it = m.begin();                                                                       \
        const size_t o = it.offset;                                                                \
        REQUIRE(o <= T);                                                                           \
        if(st == 1)                                                                                \
            REQUIRE(o <= k);                                                                       \
        else                                                                                       \
            REQUIRE(o != k);                                                                       \
        REACH();                                                                                   \
        KEEP(m);                                                                                   \
    }                                                                                              \
    CONTRACT(C21_next_##tag)(Map & m_in, size_t k, size_t from, unsigned char bloom) {             \
        GIVEN(m)                                                                                   \
        SLOT(k, st)                                                                                \
        ASSUME(from < T && (st != 1 || from < k));                                                 \
        HashMapIterator<HK, HV, HH> it(&m, T);                                                     \
        it.offset = from;                                                                          \
        ++it;                                                                                      \
        const size_t o = it.offset;                                                                \
        REQUIRE(o <= T && o > from);                                                               \
        if(st == 1)                                                                                \
            REQUIRE(o <= k);                                                          \
        else                                                                                       \
            REQUIRE(o != k);                                                                       \
        REACH();                                                                                   \
        KEEP(m);                                                                                   \
    }
STATES(C_ITER)
CONTRACT(C21_iterators)(Map &m_in, size_t k, size_t j) {
    GIVEN(m)
    ASSUME(k < T && j <= T && k > 0);
    HashMapIterator<HK, HV, HH> it(&m, k), e = m.end(), i2(&m, T);
    i2.offset = j;
    REQUIRE((const char *)(*it).key == kb + k * sizeof(HK));
    REQUIRE((const char *)(*it).value == vb + k * sizeof(HV));
    REQUIRE(e.offset == T && (it != e) && (i2 != e) == (j != T));
    REACH();
    KEEPS(m);
}
// growing moves every entry out of the old table and destroys what is left there, once
#define C_GROW(tag, st, larger)                                                                    \
    CONTRACT(C21_grow_##tag)(Map & m_in, size_t k, unsigned char bloom) {                          \
        GIVEN(m)                                                                                   \
        SLOT(k, st)                                                                                \
        ASSUME((n >= dead) == larger);                                                             \
        if(st == 1)                                                                                \
            vk_side(larger ? 2 * T : T);                                                               \
        m.grow();                                                                                  \
        REQUIRE(!k_alive);                                                                         \
        REQUIRE(!v_alive);                                                                         \
        REACH();                                                                                   \
        KEEP(m);                                                                                   \
    }
C_GROW(empty, 0, true)
C_GROW(taken, 1, true)
C_GROW(tombstone, 2, true)
C_GROW(empty_same, 0, false)
C_GROW(taken_same, 1, false)
C_GROW(tombstone_same, 2, false)
#define C_GROWN(tag, larger)                                                                       \
    CONTRACT(C21_grown_##tag)(Map & m_in) {                                                        \
        GIVEN(m)                                                                                   \
        const unsigned p = m.size_in_powers_of_two;                                                \
        ASSUME((n >= dead) == larger);                                                             \
        v_lo = nullptr; /* all of them */                                                          \
        v_len = ~size_t(0);                                                                        \
        m.grow();                                                                                  \
        REQUIRE(m.num_entries == v_births);                                                        \
        REQUIRE(m.table_size() == (larger ? 2 * T : T));                                           \
        REQUIRE(m.size_in_powers_of_two == (larger ? p + 1 : p));                                  \
        REACH();                                                                                   \
        KEEPS(m);                                                                                  \
    }
C_GROWN(larger, true)
C_GROWN(same, false)
CONTRACT(C21_fresh)() {
    union U {
        Map m;
        U() : m{} {}
        ~U() {} // not destroyed
    } u;
    Map &m = u.m;
    REQUIRE(m.size() == 0 && m.is_empty() && m.num_tombstones == 0);
    REQUIRE(m.table_size() == 16 && m.mod_mask() == 15);
    REACH();
}
// the public way in: a table with room
#define ROOM(m) ASSUME(m.fill_ratio() < Map::MAX_LOAD_PERCENTAGE);
#define C_PUBLIC(st, tag)                                                                          \
    CONTRACT(C21_public_insert_##tag)(Map & m_in, const HK &key, size_t k, unsigned char bloom) {  \
        GIVEN(m)                                                                                   \
        OUTSIDE(key, v)                                                                            \
        ROOM(m)                                                                                    \
        SLOT(k, st)                                                                                \
        vk_side(k);                                                                                \
        HV *const r = &m.insert(key, HV{});                                                        \
        CHECK(m)                                                                                   \
        if((const char *)r == v_cell)                                                              \
            REQUIRE(v_alive && k_alive);                                                           \
        else                                                                                       \
            REQUIRE(v_alive == (st == 1));                                                         \
        REACH();                                                                                   \
        KEEP(m);                                                                                   \
    }
STATES(C_PUBLIC)
