// flags: -fno-access-control
// C11: encoding, decoding and validating agree; C10: U8 types hold valid UTF-8 only
// What is copied when it has the length of the character followed
static unsigned char g_want; // its length
static unsigned g_at;        // which byte of it
static unsigned g_seen;      // that byte
#define VK_COPY(s, n)                                                                              \
    if(g_want == 1 && n == 1)                                                                      \
        g_seen = ((const unsigned char *)s)[0];                                                    \
    if(g_want == 2 && n == 2)                                                                      \
        g_seen = ((const unsigned char *)s)[g_at == 0 ? 0 : 1];                                    \
    if(g_want == 3 && n == 3)                                                                      \
        g_seen = ((const unsigned char *)s)[g_at == 0 ? 0 : g_at == 1 ? 1 : 2];                    \
    if(g_want == 4 && n == 4)                                                                      \
        g_seen = ((const unsigned char *)s)[g_at == 0 ? 0 : g_at == 1 ? 1 : g_at == 2 ? 2 : 3];    \
    if(g_want && n == g_want)                                                                      \
        g_want = 0;
#include "buf.hpp"
static const char *g_text;
static size_t g_len;
static inline size_t vk_strlen(const char *p) {
    if(p == g_text)
        return g_len;
    // short text
    if(!p[0])
        return 0;
    if(!p[1])
        return 1;
    if(!p[2])
        return 2;
    if(!p[3])
        return 3;
    ASSUME(!p[4]);
    return 4;
}
#define strlen vk_strlen
#include "pystd2026.cpp"
int vk_opaque_recursion; // an exception's own text is made by the constructor that raises it
using namespace V;

#define START                                                                                      \
    vk_unroll(8);                                                                                  \
    g_follow = 0;                                                                                  \
    g_out = g_w1 = g_w4 = g_live = g_text = nullptr;                                               \
    g_nalloc = g_alternate = 0;                                                                    \
    g_top = g_top2 = nullptr;                                                                      \
    g_want = 0;
#define CONT(b) (b >= 0x80 && b <= 0xBF)
// Bytes at p: the encoding of c, L bytes long
#define GET(slot, p, i) (vk_watch8(slot, (p) + (i)), ((const unsigned char *)(p))[i])
#define CHAR1(c) b0 < 0x80 && c == b0
#define CHAR2(c) b0 >= 0xC2 && b0 <= 0xDF && CONT(b1) && c == (b0 - 0xC0u) * 64 + (b1 - 0x80u)
#define CHAR3(c)                                                                                   \
    b0 >= 0xE0 && b0 <= 0xEF && CONT(b1) && CONT(b2) && (b0 != 0xE0 || b1 >= 0xA0) &&              \
        (b0 != 0xED || b1 <= 0x9F) && c == (b0 - 0xE0u) * 4096 + (b1 - 0x80u) * 64 + (b2 - 0x80u)
#define CHAR4(c)                                                                                   \
    b0 >= 0xF0 && b0 <= 0xF4 && CONT(b1) && CONT(b2) && CONT(b3) && (b0 != 0xF0 || b1 >= 0x90) &&  \
        (b0 != 0xF4 || b1 <= 0x8F) &&                                                              \
        c == (b0 - 0xF0u) * 262144 + (b1 - 0x80u) * 4096 + (b2 - 0x80u) * 64 + (b3 - 0x80u)
#define BYTES4(p)                                                                                  \
    ASSUME((size_t)p < LIM * 8 && p);                                                              \
    const uint32_t b0 = GET(1, p, 0), b1 = GET(2, p, 1), b2 = GET(3, p, 2), b3 = GET(4, p, 3);

#define DECODE(L)                                                                                  \
    CONTRACT(C11_decode_##L)(const char *p, uint32_t c) {                                          \
        START                                                                                      \
        BYTES4(p)                                                                                  \
        ASSUME(CHAR##L(c));                                                                        \
        ValidU8Iterator it((const unsigned char *)p);                                              \
        NO_THROW({                                                                                 \
            const uint32_t got = *it;                                                              \
            REQUIRE(got == c);                                                                     \
        });                                                                                        \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C11_step_##L)(const char *p, uint32_t c) {                                            \
        START                                                                                      \
        BYTES4(p)                                                                                  \
        ASSUME(CHAR##L(c));                                                                        \
        ValidU8Iterator it((const unsigned char *)p);                                              \
        NO_THROW({                                                                                 \
            ++it;                                                                                  \
            REQUIRE(it.data() == p + L);                                                           \
        });                                                                                        \
        REACH();                                                                                   \
    }
DECODE(1) DECODE(2) DECODE(3) DECODE(4)
// the step back from the end of a character is to its first byte
#define BACK(L)                                                                                    \
    CONTRACT(C11_back_##L)(const char *p, uint32_t c) {                                            \
        START                                                                                      \
        BYTES4(p)                                                                                  \
        ASSUME(CHAR##L(c));                                                                        \
        ValidU8Iterator it((const unsigned char *)p + L);                                          \
        NO_THROW({                                                                                 \
            --it;                                                                                  \
            REQUIRE(it.data() == p);                                                               \
        });                                                                                        \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C11_reverse_##L)(const char *p, uint32_t c, int64_t at) {                             \
        START                                                                                      \
        ASSUME(at >= 0 && at < (int64_t)LIM);                                                      \
        const char *const q = p + at;                                                              \
        BYTES4(q)                                                                                  \
        ASSUME((size_t)p < LIM * 8 && CHAR##L(c));                                                 \
        ValidU8ReverseIterator it((const unsigned char *)p, at + L);                               \
        NO_THROW({                                                                                 \
            REQUIRE(it.offset == at);                                                              \
            const uint32_t got = *it;                                                              \
            REQUIRE(got == c);                                                                     \
        });                                                                                        \
        REACH();                                                                                   \
    }
BACK(1) BACK(2) BACK(3) BACK(4)
// what was read of one character says nothing about the next or the previous one
#define WALK(L)                                                                                    \
    CONTRACT(C11_next_##L)(const char *p, uint32_t c) {                                            \
        START                                                                                      \
        BYTES4(p)                                                                                  \
        ASSUME(CHAR##L(c));                                                                        \
        const uint32_t d = GET(5, p, L);                                                           \
        ASSUME(d < 0x80);                                                                          \
        ValidU8Iterator it((const unsigned char *)p);                                              \
        NO_THROW({                                                                                 \
            const uint32_t got = *it;                                                              \
            REQUIRE(got == c);                                                                     \
            ++it;                                                                                  \
            const uint32_t then = *it;                                                             \
            REQUIRE(then == d);                                                                    \
        });                                                                                        \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C11_previous_##L)(const char *p, uint32_t c) {                                        \
        START                                                                                      \
        BYTES4(p)                                                                                  \
        ASSUME(CHAR##L(c));                                                                        \
        const uint32_t d = GET(5, p, L);                                                           \
        ASSUME(d < 0x80);                                                                          \
        ValidU8Iterator it((const unsigned char *)p + L);                                          \
        NO_THROW({                                                                                 \
            const uint32_t got = *it;                                                              \
            REQUIRE(got == d);                                                                     \
            --it;                                                                                  \
            const uint32_t then = *it;                                                             \
            REQUIRE(then == c);                                                                    \
        });                                                                                        \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C11_postfix_##L)(const char *p, uint32_t c) {                                         \
        START                                                                                      \
        BYTES4(p)                                                                                  \
        ASSUME(CHAR##L(c));                                                                        \
        ValidU8Iterator it((const unsigned char *)p);                                              \
        NO_THROW({                                                                                 \
            ValidU8Iterator was = it++;                                                            \
            REQUIRE(was.data() == p);                                                              \
            REQUIRE(it.data() == p + L);                                                           \
            const uint32_t got = *was;                                                             \
            REQUIRE(got == c);                                                                     \
        });                                                                                        \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C11_reverse_next_##L)(const char *p, uint32_t c, int64_t at) {                        \
        START                                                                                      \
        ASSUME(at >= 0 && at < (int64_t)LIM);                                                      \
        const char *const q = p + at;                                                              \
        BYTES4(q)                                                                                  \
        ASSUME((size_t)p < LIM * 8 && CHAR##L(c));                                                 \
        const uint32_t d = GET(5, q, L);                                                           \
        ASSUME(d < 0x80);                                                                          \
        ValidU8ReverseIterator it((const unsigned char *)p, at + L + 1);                           \
        NO_THROW({                                                                                 \
            const uint32_t got = *it;                                                              \
            REQUIRE(got == d);                                                                     \
            ++it;                                                                                  \
            REQUIRE(it.offset == at);                                                              \
            const uint32_t then = *it;                                                             \
            REQUIRE(then == c);                                                                    \
        });                                                                                        \
        REACH();                                                                                   \
    }
WALK(1) WALK(2) WALK(3) WALK(4)
// after the first character comes the end
CONTRACT(C11_reverse_end)(const char *p) {
    START
    BYTES4(p)
    ASSUME(b0 < 0x80);
    ValidU8ReverseIterator it((const unsigned char *)p, 1), end((const unsigned char *)p, -1);
    REQUIRE(it != end);
    NO_THROW(++it);
    REQUIRE(it == end);
    REACH();
}
// Encoding: byte J of the character appended
#define LEN1 c < 0x80
#define LEN2 c >= 0x80 && c < 0x800
#define LEN3 c >= 0x800 && c < 0x10000 && !(c >= 0xD800 && c <= 0xDFFF)
#define LEN4 c >= 0x10000 && c <= 0x10FFFF
#define GIVEN(s)                                                                                   \
    START                                                                                          \
    U8String s(move(s_in));                                                                        \
    const size_t n = s.cstring.bytes.size() - 1, cp = s.cstring.bytes.capacity();                  \
    const char *const d = ((const CString &)s.cstring).data();                                     \
    vk_follow_locals();                                                                            \
    ASSUME(s.cstring.bytes.size() >= 1 && n < cp && cp < LIM && (size_t)d < LIM * 8 && d);         \
    g_top = d + cp;
// (that what is copied arrives is C09's matter)
#define ENCODE(L, J, VALUE)                                                                        \
    CONTRACT(C11_encode_##L##_##J)(U8String &s_in, uint32_t c) {                                   \
        GIVEN(s)                                                                                   \
        ASSUME(c != 0 && LEN##L);                                                                  \
        g_at = J;                                                                                  \
        g_want = L;                                                                                \
        try {                                                                                      \
            s.append_codepoint(c);                                                                 \
        } catch(...) {                                                                             \
            REQUIRE(g_want == 0);                                                                  \
            vk_stop();                                                                             \
        }                                                                                          \
        REQUIRE(g_want == 0);                                                                      \
        REQUIRE(g_seen == (VALUE));                                                                \
        REACH();                                                                                   \
    }
#define ENCODED(L)                                                                                 \
    CONTRACT(C11_encode_##L##_size)(U8String &s_in, uint32_t c) {                                  \
        GIVEN(s)                                                                                   \
        ASSUME(c != 0 && LEN##L);                                                                  \
        try {                                                                                      \
            s.append_codepoint(c);                                                                 \
        } catch(...) { vk_stop(); }                                                                \
        const size_t m = s.size_bytes();                                                           \
        REQUIRE(m == n + L);                                                                       \
        REACH();                                                                                   \
    }
ENCODED(1) ENCODED(2) ENCODED(3) ENCODED(4)
ENCODE(1, 0, c)
ENCODE(2, 0, 0xC0 + c / 64)
ENCODE(2, 1, 0x80 + c % 64)
ENCODE(3, 0, 0xE0 + c / 4096)
ENCODE(3, 1, 0x80 + c / 64 % 64)
ENCODE(3, 2, 0x80 + c % 64)
ENCODE(4, 0, 0xF0 + c / 262144)
ENCODE(4, 1, 0x80 + c / 4096 % 64)
ENCODE(4, 2, 0x80 + c / 64 % 64)
ENCODE(4, 3, 0x80 + c % 64)
CONTRACT(C11_encode_refused)(U8String &s_in, uint32_t c) {
    GIVEN(s)
    ASSUME((c >= 0xD800 && c <= 0xDFFF) || c > 0x10FFFF);
    bool raised = false;
    try {
        s.append_codepoint(c);
    } catch(...) { raised = true; }
    REQUIRE(raised);
    REQUIRE(s.size_bytes() == n && s.c_str() == d);
    REACH();
}

// ---- C10 -------------------------------------------------------------------------------------
// What the character at p + i is: its own bytes are b0..b3 there
#define AT(slot, p, i)                                                                             \
    const uint32_t b0 = GET(slot, p, i), b1 = GET(slot + 1, p, i + 1),                             \
                   b2 = GET(slot + 2, p, i + 2), b3 = GET(slot + 3, p, i + 3);
#define WELL1 b0 < 0x80
#define WELL2 b0 >= 0xC2 && b0 <= 0xDF && CONT(b1)
#define WELL3                                                                                      \
    b0 >= 0xE0 && b0 <= 0xEF && CONT(b1) && CONT(b2) && (b0 != 0xE0 || b1 >= 0xA0) &&              \
        (b0 != 0xED || b1 <= 0x9F)
#define WELL4                                                                                      \
    b0 >= 0xF0 && b0 <= 0xF4 && CONT(b1) && CONT(b2) && CONT(b3) && (b0 != 0xF0 || b1 >= 0x90) &&  \
        (b0 != 0xF4 || b1 <= 0x8F)
#define WELL_0(p, i) true
// Text of M characters of the given lengths is accepted
#define ACCEPT(NAME, N, ...)                                                                       \
    CONTRACT(C10_accept_view_##NAME)(const char *p) {                                              \
        START                                                                                      \
        ASSUME((size_t)p < LIM * 8 && p);                                                          \
        __VA_ARGS__                                                                                \
        NO_THROW({                                                                                 \
            U8StringView v(p, N);                                                                  \
            REQUIRE(v.data() == p && v.size_bytes() == N);                                         \
        });                                                                                        \
        REACH();                                                                                   \
    }
#define CH(L, slot, i)                                                                             \
    {                                                                                              \
        AT(slot, p, i)                                                                             \
        ASSUME(WELL##L);                                                                           \
    }
ACCEPT(0, 0, )
ACCEPT(1, 1, CH(1, 1, 0))
ACCEPT(2, 2, CH(2, 1, 0))
ACCEPT(3, 3, CH(3, 1, 0))
ACCEPT(4, 4, CH(4, 1, 0))
ACCEPT(11, 2, CH(1, 1, 0) CH(1, 5, 1))
ACCEPT(12, 3, CH(1, 1, 0) CH(2, 5, 1))
ACCEPT(13, 4, CH(1, 1, 0) CH(3, 5, 1))
ACCEPT(14, 5, CH(1, 1, 0) CH(4, 5, 1))
ACCEPT(21, 3, CH(2, 1, 0) CH(1, 5, 2))
ACCEPT(31, 4, CH(3, 1, 0) CH(1, 5, 3))
ACCEPT(41, 5, CH(4, 1, 0) CH(1, 5, 4))
ACCEPT(22, 4, CH(2, 1, 0) CH(2, 5, 2))
ACCEPT(33, 6, CH(3, 1, 0) CH(3, 5, 3))
ACCEPT(44, 8, CH(4, 1, 0) CH(4, 5, 4))
// Text that begins with (the given characters and) something ill-formed is refused, whatever follows
#define REFUSE(NAME, I, PREFIX, BAD)                                                               \
    CONTRACT(C10_refuse_view_##NAME)(const char *p, size_t n) {                                    \
        START                                                                                      \
        ASSUME((size_t)p < LIM * 8 && p && n < LIM && n > I);                                      \
        PRE##PREFIX                                                                                \
        AT(5, p, I)                                                                                \
        const size_t left = n - I;                                                                 \
        ASSUME(BAD);                                                                               \
        bool raised = false;                                                                       \
        try {                                                                                      \
            (void)U8StringView(p, n);                                                              \
        } catch(...) { raised = true; }                                                            \
        REQUIRE(raised);                                                                           \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C10_refuse_string_##NAME)(const char *p, size_t n, bool zero) {                       \
        START                                                                                      \
        ASSUME((size_t)p < LIM * 8 && p && n < LIM && n > I);                                      \
        PRE##PREFIX                                                                                \
        AT(5, p, I)                                                                                \
        const size_t left = n - I;                                                                 \
        ASSUME(BAD);                                                                               \
        g_top = p + n;                                                                             \
        bool raised = false;                                                                       \
        if(zero) {                                                                                 \
            g_text = p;                                                                            \
            g_len = n;                                                                             \
        }                                                                                          \
        try {                                                                                      \
            U8String s(p, zero ? NPOS : n);                                                        \
        } catch(...) { raised = true; }                                                            \
        REQUIRE(raised);                                                                           \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C10_refuse_bytes_##NAME)(Bytes &b_in) {                                               \
        START                                                                                      \
        Bytes b(move(b_in));                                                                       \
        const size_t n = b.size(), cp = b.capacity();                                              \
        const char *const p = ((const Bytes &)b).data();                                           \
        ASSUME(n <= cp && cp < LIM && (size_t)p < LIM * 8 && p && n > I);                          \
        PRE##PREFIX                                                                                \
        AT(5, p, I)                                                                                \
        const size_t left = n - I;                                                                 \
        ASSUME(BAD);                                                                               \
        g_top = p + cp;                                                                            \
        bool raised = false;                                                                       \
        try {                                                                                      \
            U8String s(move(b));                                                                   \
        } catch(...) { raised = true; }                                                            \
        REQUIRE(raised);                                                                           \
        REACH();                                                                                   \
    }
const size_t NPOS = (size_t)-1;
#define PRE0
#define PRE1 CH(1, 1, 0)
#define PRE2 CH(2, 1, 0)
#define PRE3 CH(3, 1, 0)
#define PRE4 CH(4, 1, 0)
#define ILL(POS, I, PREFIX)                                                                        \
    REFUSE(stray_##POS, I, PREFIX, b0 >= 0x80 && b0 <= 0xBF)                                       \
    REFUSE(overlong2_##POS, I, PREFIX, b0 == 0xC0 || b0 == 0xC1)                                   \
    REFUSE(toobig_##POS, I, PREFIX, b0 >= 0xF5)                                                    \
    REFUSE(cut2_##POS, I, PREFIX, b0 >= 0xC2 && b0 <= 0xDF && (left < 2 || !CONT(b1)))             \
    REFUSE(cut3_##POS, I, PREFIX, b0 >= 0xE0 && b0 <= 0xEF && (left < 3 || !CONT(b1) || !CONT(b2))) \
    REFUSE(cut4_##POS, I, PREFIX, b0 >= 0xF0 && b0 <= 0xF4 && (left < 4 || !CONT(b1) || !CONT(b2) || !CONT(b3))) \
    REFUSE(overlong3_##POS, I, PREFIX, b0 == 0xE0 && b1 < 0xA0)                                    \
    REFUSE(overlong4_##POS, I, PREFIX, b0 == 0xF0 && b1 < 0x90)                                    \
    REFUSE(surrogate_##POS, I, PREFIX, b0 == 0xED && b1 >= 0xA0)                                   \
    REFUSE(toobig4_##POS, I, PREFIX, b0 == 0xF4 && b1 >= 0x90)
ILL(first, 0, 0)
ILL(after1, 1, 1)
ILL(after2, 2, 2)
ILL(after3, 3, 3)
ILL(after4, 4, 4)
