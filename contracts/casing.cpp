// flags: -fno-access-control -I/repo/src
// C12: a character's upper and lower case are what the tables say
#include "vk.hpp"
#include <pystd2026.hpp>
#include <pystd2026_tables.hpp>
#include <ctype.h>
#include <string.h>
extern "C" size_t vk_opaque_index() noexcept;
using namespace pystd2026;
static inline uint32_t key(const UnicodeConversionSingleChar &e) { return e.from_codepoint; }
static inline uint32_t key(const UnicodeConversionMultiChar &e) { return e.codepoint; }
static int g_in;                  // the table that has the character: 1 that of several, 2 that of single characters, 0 neither
static uint32_t g_c, g_0, g_1, g_2; // the character, what the tables say
static inline bool has(const UnicodeConversionMultiChar &) { return g_in == 1; }
static inline bool has(const UnicodeConversionSingleChar &) { return g_in == 2; }
static inline void says(const UnicodeConversionMultiChar &e) {
    uint64_t two;
    memcpy(&two, &e.converted, sizeof(two));
    g_0 = (uint32_t)two;
    g_1 = (uint32_t)(two >> 32);
    g_2 = e.converted.codepoints[2];
}
static inline void says(const UnicodeConversionSingleChar &e) { g_0 = e.to_codepoint; }
#define WHOLE(T, N) (first == T && last == T + N)
static inline bool whole(const UnicodeConversionMultiChar *first, const UnicodeConversionMultiChar *last) {
    return WHOLE(uppercasing_multi, NUM_UPPERCASING_MULTICHAR_ENTRIES) || WHOLE(lowercasing_multi, NUM_LOWERCASING_MULTICHAR_ENTRIES);
}
static inline bool whole(const UnicodeConversionSingleChar *first, const UnicodeConversionSingleChar *last) {
    return WHOLE(uppercasing_single, NUM_UPPERCASING_SINGLECHAR_ENTRIES) || WHOLE(lowercasing_single, NUM_LOWERCASING_SINGLECHAR_ENTRIES);
}
namespace pystd2026 {
// Where a binary search ends is C30's matter: at the element sought if there is one, else anywhere.
template<typename It, typename Cmp>
static inline It vk_lower_bound(It first, It last, const uint32_t &value, const Cmp &cmp) {
    REQUIRE(value == g_c);
    REQUIRE(whole(first, last));
    if(last - first == 1) {
        It it = key(*first) >= value ? first : last;
        return it;
    }
    const size_t n = last - first, k = vk_opaque_index();
    ASSUME(k <= n);
    It it = first + k;
    const bool hit = has(*first);
    if(hit)
        ASSUME(k < n);
    if(k < n) {
        const uint32_t its = key(*it);
        const int r = cmp.compare(*it, value);
        REQUIRE((r < 0) == (its < value));
        if(hit) {
            ASSUME(its == value);
            says(*it);
        } else
            ASSUME(its != value);
    }
    return it;
}
}
#define lower_bound vk_lower_bound
#undef toupper
#undef tolower
static inline int vk_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static inline int vk_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#define toupper vk_toupper
#define tolower vk_tolower
#include "pystd2026.cpp"
using namespace V;
#define START                                                                                      \
    g_0 = g_1 = g_2 = 0;                                                                           \
    g_in = 0;                                                                                      \
    g_c = c;
#define IS(x, y, z)                                                                                \
    {                                                                                              \
        const uint32_t wx = x, wy = y, wz = z;                                                     \
        REQUIRE(r.codepoints[0] == wx);                                                            \
        REQUIRE(r.codepoints[1] == wy);                                                            \
        REQUIRE(r.codepoints[2] == wz);                                                            \
    }
CONTRACT(C12_upper_ascii)(uint32_t c) {
    START
    ASSUME(c < 128);
    NO_THROW({
        const UnicodeConversionResult r = uppercase_unicode(c);
        IS(c >= 'a' && c <= 'z' ? c - 32 : c, 0, 0)
    });
    REACH();
}
CONTRACT(C12_lower_ascii)(uint32_t c) {
    START
    ASSUME(c < 128);
    NO_THROW({
        const UnicodeConversionResult r = lowercase_unicode(c);
        IS(c >= 'A' && c <= 'Z' ? c + 32 : c, 0, 0)
    });
    REACH();
}
#define CASE(NAME, IN, CALL, ...)                                                                  \
    CONTRACT(C12_##NAME)(uint32_t c) {                                                             \
        START                                                                                      \
        ASSUME(c >= 128);                                                                          \
        g_in = IN;                                                                                 \
        __VA_ARGS__                                                                                \
        NO_THROW({                                                                                 \
            const UnicodeConversionResult r = CALL(c);                                             \
            if(IN == 0)                                                                            \
                IS(c, 0, 0)                                                                        \
            else                                                                                   \
                IS(g_0, g_1, g_2)                                                                  \
        });                                                                                        \
        REACH();                                                                                   \
    }
CASE(upper_several, 1, uppercase_unicode)
CASE(upper_single, 2, uppercase_unicode)
CASE(upper_none, 0, uppercase_unicode)
CASE(lower_several, 3, lowercase_unicode, ASSUME(lowercasing_multi[0].codepoint == c); says(lowercasing_multi[0]);)
CASE(lower_single, 2, lowercase_unicode, ASSUME(lowercasing_multi[0].codepoint != c);)
CASE(lower_none, 0, lowercase_unicode, ASSUME(lowercasing_multi[0].codepoint != c);)
