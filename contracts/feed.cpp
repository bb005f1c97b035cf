// flags: -fno-access-control
// C20: what is hashed is the content
#include "buf.hpp"
static const char *g_text;
static size_t g_len;
static inline size_t vk_strlen(const char *p) {
    if(p == g_text)
        return g_len;
    const size_t l = vk_opaque_index();
    ASSUME(l < LIM && p[l] == '\0');
    return l;
}
#define strlen vk_strlen
#include "pystd2026.cpp"
using namespace V;

#define START                                                                                      \
    g_follow = 0;                                                                                  \
    g_out = g_w1 = g_w4 = g_live = g_text = nullptr;                                               \
    g_nalloc = g_alternate = 0;                                                                    \
    g_top = g_top2 = nullptr;

// What a hash algorithm is given: how many bytes in all, and byte k of them.
static size_t f_total, f_k;
static char f_byte;
static bool f_got;
static size_t f_value;
struct Feed {
    Feed() noexcept { reset(); }
    void feed_bytes(const char *p, size_t n) noexcept {
        if(f_k >= f_total && f_k - f_total < n) {
            f_byte = p[f_k - f_total];
            f_got = true;
        }
        f_total += n;
    }
    size_t get_hash_value() const noexcept { return f_value; }
    void reset() noexcept {
        f_total = 0;
        f_got = false;
    }
};
#define FEED(k)                                                                                    \
    f_total = 0;                                                                                   \
    f_k = (k);                                                                                     \
    f_got = false;                                                                                 \
    Hasher<Feed> h;
// an arbitrary text at p of n characters, character k of it is y
#define TEXT(p, n)                                                                                 \
    START                                                                                          \
    ASSUME(n < LIM && (size_t)p < LIM * 8 && p);                                                   \
    vk_watch8(1, p + k);                                                                           \
    const char y = p[k];
#define FED(n)                                                                                     \
    REQUIRE(f_total == (n));                                                                       \
    if(k < (n))                                                                                    \
        REQUIRE(f_got && f_byte == y);                                                             \
    REACH();

CONTRACT(C20_view)(const char *p, size_t n, size_t k) {
    TEXT(p, n)
    const CStringView v(p, n);
    FEED(k)
    NO_THROW(h.feed_hash(v));
    FED(n)
}
CONTRACT(C20_zview)(const char *p, size_t n, size_t k) {
    TEXT(p, n)
    ZStringView v;
    v.buf = p;
    v.bufsize = n;
    FEED(k)
    NO_THROW(h.feed_hash(v));
    FED(n)
}
CONTRACT(C20_u8view)(const char *p, size_t n, size_t k) {
    TEXT(p, n)
    U8StringView v;
    v.start.buf = (const unsigned char *)p;
    v.stop.buf = (const unsigned char *)p + n;
    FEED(k)
    NO_THROW(h.feed_hash(v));
    FED(n)
}
#define BUFFER(b)                                                                                  \
    const size_t cp = b.capacity();                                                                \
    const char *const d = b.buf.get();                                                             \
    ASSUME(b.bufsize <= cp && cp < LIM && (size_t)d < LIM * 8 && d);                               \
    vk_watch8(1, d + k);                                                                           \
    const char y = d[k];
CONTRACT(C20_bytes)(Bytes &b_in, size_t k) {
    START
    Bytes b(move(b_in));
    const size_t n = b.bufsize;
    BUFFER(b)
    FEED(k)
    NO_THROW(h.feed_hash(b));
    FED(n)
}
CONTRACT(C20_string)(CString &s_in, size_t k) {
    START
    CString s(move(s_in));
    ASSUME(s.bytes.bufsize >= 1);
    const size_t n = s.bytes.bufsize - 1;
    BUFFER(s.bytes)
    FEED(k)
    NO_THROW(h.feed_hash(s));
    FED(n)
}
CONTRACT(C20_u8string)(U8String &s_in, size_t k) {
    START
    U8String s(move(s_in));
    ASSUME(s.cstring.bytes.bufsize >= 1);
    const size_t n = s.cstring.bytes.bufsize - 1;
    BUFFER(s.cstring.bytes)
    FEED(k)
    NO_THROW(h.feed_hash(s));
    FED(n)
}
// numbers: their bytes
template<typename T> struct Number {
    size_t total = 0;
    T value{};
    void feed_bytes(const char *p, size_t n) noexcept {
        if(total == 0 && n == sizeof(T))
            value = *(const T *)p;
        total += n;
    }
    size_t get_hash_value() const noexcept { return total; }
    void reset() noexcept {}
};
#define NUMBER(T)                                                                                  \
    CONTRACT(C20_##T)(T x) {                                                                       \
        START                                                                                      \
        Hasher<Number<T>> h;                                                                       \
        NO_THROW(h.feed_hash(x));                                                                  \
        const size_t n = h.get_hash_value();                                                       \
        REQUIRE(n == sizeof(T));                                                                   \
        REQUIRE(h.h.value == x);                                                                   \
        REACH();                                                                                   \
    }
NUMBER(int8_t) NUMBER(uint8_t) NUMBER(int16_t) NUMBER(uint16_t) NUMBER(int32_t) NUMBER(uint32_t) NUMBER(int64_t) NUMBER(uint64_t)
// several parts one after the other; the result is the algorithm's
CONTRACT(C20_parts)(const char *p, size_t n, const char *q, size_t m, size_t k) {
    START
    ASSUME(n < LIM && (size_t)p < LIM * 8 && p && m < LIM && (size_t)q < LIM * 8 && q);
    vk_watch8(1, p + k);
    vk_watch8(2, q + (k - n));
    const char y = p[k], z = q[k - n];
    FEED(k)
    NO_THROW({
        h.feed_hash(CStringView(p, n));
        h.feed_bytes(q, m);
    });
    REQUIRE(f_total == n + m);
    if(k < n)
        REQUIRE(f_got && f_byte == y);
    else if(k < n + m)
        REQUIRE(f_got && f_byte == z);
    REACH();
}
CONTRACT(C20_value)(size_t v) {
    FEED(0)
    f_value = v;
    REQUIRE(h.get_hash_value() == v);
    f_total = 5;
    h.reset();
    REQUIRE(f_total == 0);
    REACH();
}
// The library's algorithm uses every byte.
CONTRACT(C20_simple_every)(const char *p, size_t n, size_t k) {
    START
    ASSUME(n < LIM && (size_t)p < LIM * 8 && p && k < n);
    vk_guard(0, p + k);
    SimpleHash a;
    a.feed_bytes(p, n);
    vk_opaque_use((int)a.get_hash_value());
    REQUIRE(vk_guard_hit(0, p));
    REACH();
}
