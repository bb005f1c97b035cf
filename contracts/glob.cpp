// flags: -fno-access-control
// C17: matching a name against a glob pattern, one step of the recursion at a time
#include "buf.hpp"
extern "C" bool vk_opaque_bool() noexcept;
#define E_FAIL(t) [[clang::nomerge]] vk_fail(t, __LINE__)
// the text ends at g_tend, the pattern at g_pend; the step judged is at g_ti, g_pj
static const char *g_tbeg, *g_pbeg, *g_tend, *g_pend, *g_ti, *g_pj;
static bool g_any;                  // some recursive call was answered with yes
static const char *g_t0, *g_p0;     // one chosen pair of rests,
static bool g_answer, g_asked;      // whether it matches, and whether that was asked
static inline size_t vk_strlen(const char *p) {
    if(g_tbeg && p >= g_tbeg && p <= g_tend)
        return g_tend - p;
    if(g_pbeg && p >= g_pbeg && p <= g_pend)
        return g_pend - p;
    const size_t l = vk_opaque_index();
    ASSUME(l < LIM && p[l] == '\0');
    return l;
}
#define strlen vk_strlen
#include "pystd2026.cpp"
#include "pystd2026_filesystem.cpp"
using namespace V;

// What follows in the recursion: any answer, but only about rests of both that lie further on.
extern "C" bool vk_rec_glob_matches(const char *text, const size_t i, const char *pattern, const size_t j) {
    const char *const t = text + i, *const p = pattern + j;
    if(t < g_ti || t > g_tend || p < g_pj || p > g_pend)
        E_FAIL("only rests of the text and of the pattern are compared");
    if(t == g_ti && p == g_pj)
        E_FAIL("the comparison gets further with every step");
    bool r = vk_opaque_bool();
    if(t == g_t0 && p == g_p0) {
        g_asked = true;
        r = g_answer;
    }
    if(r)
        g_any = true;
    return r;
}
// Arbitrary text and pattern, and a place in each.
#define STEP                                                                                       \
    g_follow = 0;                                                                                  \
    g_out = g_w1 = g_w4 = g_live = nullptr;                                                        \
    g_nalloc = g_alternate = 0;                                                                    \
    g_top = g_top2 = nullptr;                                                                      \
    ASSUME(t && p && (size_t)t < LIM * 8 && (size_t)p < LIM * 8 && tl < LIM && pl < LIM);          \
    ASSUME(i <= tl && j <= pl && (t + tl < p || p + pl < t));                                      \
    g_tbeg = t;                                                                                    \
    g_pbeg = p;                                                                                    \
    g_tend = t + tl;                                                                               \
    g_pend = p + pl;                                                                               \
    g_ti = t + i;                                                                                  \
    g_pj = p + j;                                                                                  \
    g_t0 = g_p0 = nullptr;                                                                         \
    g_any = g_asked = false;                                                                       \
    g_answer = vk_opaque_bool();
#define ARGS const char *__restrict t, size_t tl, size_t i, const char *__restrict p, size_t pl, size_t j
#define CHAR(slot, name, at)                                                                       \
    vk_watch8(slot, at);                                                                           \
    const char name = *(at);
// Nothing but the two texts, up to and including their NULs, is looked at.
#define BOUNDS(NAME, ...)                                                                          \
    CONTRACT(C17_bounds_##NAME)(ARGS, const char *x) {                                             \
        STEP                                                                                       \
        CHAR(1, tz, t + tl)                                                                        \
        CHAR(2, pz, p + pl)                                                                        \
        ASSUME(!tz && !pz);                                                                        \
        ASSUME((size_t)x < LIM * 128 && x && (x < t || x > t + tl) && (x < p || x > p + pl));      \
        __VA_ARGS__;                                                                               \
        vk_guard(0, x);                                                                            \
        const bool r = glob_matches(t, i, p, j);                                                   \
        REQUIRE(!vk_guard_hit(0, nullptr));                                                        \
        REACH();                                                                                   \
    }
BOUNDS(any, (void)0)
BOUNDS(start, ASSUME(i == 0 && j == 0))
CONTRACT(C17_whole)(ARGS) {
    STEP
    ASSUME(i == 0 && j == 0);
    g_ti = g_pj = nullptr;
    g_t0 = t;
    g_p0 = p;
    CHAR(1, tz, t + tl)
    CHAR(2, pz, p + pl)
    ASSUME(!tz && !pz);
    const bool r = glob_matches(t, p);
    if(g_asked)
        REQUIRE(r == g_answer);
    REACH();
}
// An exhausted pattern matches an exhausted text only.
CONTRACT(C17_pattern_ends)(ARGS) {
    STEP
    ASSUME(j == pl);
    CHAR(1, c, t + i)
    CHAR(2, pz, p + pl)
    ASSUME(!pz && (c == 0) == (i == tl));
    const bool r = glob_matches(t, i, p, j);
    REQUIRE(r == (i == tl));
    REACH();
}
// Only asterisks match nothing.
CONTRACT(C17_text_ends)(ARGS) {
    STEP
    ASSUME(j < pl && i == tl);
    CHAR(1, tz, t + tl)
    CHAR(2, d, p + j)
    ASSUME(!tz && d && d != '*');
    const bool r = glob_matches(t, i, p, j);
    REQUIRE(!r);
    REACH();
}
// Any other character stands for itself, a question mark for any one.
CONTRACT(C17_character)(ARGS) {
    STEP
    ASSUME(j < pl && i < tl);
    CHAR(1, c, t + i)
    CHAR(2, d, p + j)
    ASSUME(c && d && d != '*' && d != '?');
    g_t0 = t + i + 1;
    g_p0 = p + j + 1;
    const bool r = glob_matches(t, i, p, j);
    REQUIRE(r == (c == d && g_answer));
    REACH();
}
CONTRACT(C17_question_mark)(ARGS) {
    STEP
    ASSUME(j < pl && i < tl);
    CHAR(1, c, t + i)
    CHAR(2, d, p + j)
    ASSUME(c && d == '?');
    g_t0 = t + i + 1;
    g_p0 = p + j + 1;
    const bool r = glob_matches(t, i, p, j);
    REQUIRE(r == g_answer);
    REACH();
}
// An asterisk does not match the dot that hides a name,
CONTRACT(C17_hidden)(ARGS) {
    STEP
    ASSUME(j < pl && i == 0 && tl > 0);
    CHAR(1, c, t + i)
    CHAR(2, d, p + j)
    ASSUME(c == '.' && d == '*');
    const bool r = glob_matches(t, i, p, j);
    REQUIRE(!r);
    REACH();
}
// and else as many characters as the rest of the pattern leaves.
CONTRACT(C17_asterisk_sound)(ARGS) {
    STEP
    ASSUME(j + 1 < pl);
    CHAR(1, tz, t + tl)
    CHAR(2, d, p + j)
    CHAR(3, e, p + j + 1)
    ASSUME(!tz && d == '*' && e);
    const bool r = glob_matches(t, i, p, j);
    if(r)
        REQUIRE(g_any);
    REACH();
}
CONTRACT(C17_asterisk_last)(ARGS) {
    STEP
    ASSUME(j + 1 == pl && i <= tl && tl <= i + 3);
    vk_unroll(6);
    CHAR(1, tz, t + tl)
    CHAR(2, d, p + j)
    CHAR(3, e, p + j + 1)
    CHAR(4, c, t + i)
    ASSUME(!tz && d == '*' && !e && (c == 0) == (i == tl) && (i > 0 || c != '.'));
    g_t0 = t + tl;
    g_p0 = p + pl;
    ASSUME(g_answer);
    const bool r = glob_matches(t, i, p, j);
    REQUIRE(r);
    REACH();
}
CONTRACT(C17_asterisk_complete)(ARGS, size_t g) {
    STEP
    ASSUME(j + 1 < pl && i <= tl && tl <= i + 3 && g <= tl - i);
    vk_unroll(6);
    CHAR(1, tz, t + tl)
    CHAR(2, d, p + j)
    CHAR(3, e, p + j + 1)
    CHAR(4, c0, t + i)
    CHAR(5, c1, t + i + 1)
    CHAR(6, c2, t + i + 2)
    ASSUME(!tz && d == '*' && e && (i > 0 || c0 != '.'));
    ASSUME((c0 == 0) == (i == tl) && (i + 1 > tl || (c1 == 0) == (i + 1 == tl)) && (i + 2 > tl || (c2 == 0) == (i + 2 == tl)));
    g_t0 = t + i + g;
    g_p0 = p + j + 1;
    const bool r = glob_matches(t, i, p, j);
    if(g_answer)
        REQUIRE(r);
    REACH();
}
