// flags: -fno-access-control
// C31: what the PCRE2 library answers is handed on as it is, and its objects are released once
#include "buf.hpp"
#include <pystd_config.hpp>
#include <stdint.h>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include <pystd2026_regex.hpp>
extern "C" int vk_opaque_int() noexcept;
int vk_opaque_recursion; // an exception's own text is made by the constructor that raises it
extern "C" bool vk_opaque_bool() noexcept;
#define E_FAIL(t) [[clang::nomerge]] vk_fail(t, __LINE__)
// One compiled pattern and the results of one search.
static char c_here, d_here;
#define CODE ((pcre2_code *)&c_here)
#define DATA ((pcre2_match_data *)&d_here)
static bool c_live, d_live, d_none; // alive; the results could not be allocated
static bool c_failed, m_done;
static int m_rc;
static const char *g_pattern, *g_text; // what is compiled, what is searched
static size_t g_pn, g_tn;
static uint32_t o_count; // the groups reported
static size_t *o_vec;    // and their offsets
static inline size_t vk_strlen(const char *p) {
    if(p == g_pattern)
        return g_pn;
    if(p == g_text)
        return g_tn;
    const size_t l = vk_opaque_index();
    ASSUME(l < LIM && p[l] == '\0');
    return l;
}
#define strlen vk_strlen
#include "pystd2026.cpp"
#include "pystd2026_regex.cpp"
using namespace V;

extern "C" {
pcre2_code *pcre2_compile_8(PCRE2_SPTR8 p, PCRE2_SIZE n, uint32_t options, int *code, PCRE2_SIZE *offset, pcre2_compile_context_8 *) {
    if((const char *)p != g_pattern || (n != PCRE2_ZERO_TERMINATED && n != g_pn))
        E_FAIL("the pattern given is compiled, all of it");
    if(options & ~(PCRE2_UTF | PCRE2_NO_UTF_CHECK) || !(options & PCRE2_UTF))
        E_FAIL("the pattern is taken for UTF-8, and for nothing but what is written");
    *code = vk_opaque_int();
    *offset = vk_opaque_index();
    if(c_live)
        E_FAIL("one pattern is compiled at a time");
    const bool ok = vk_opaque_bool();
    c_live = ok;
    c_failed = !ok;
    return ok ? CODE : nullptr;
}
void pcre2_code_free_8(pcre2_code *c) {
    if(!c)
        return;
    if(c != CODE || !c_live)
        E_FAIL("a compiled pattern is released once, and only when there is one");
    c_live = false;
}
int pcre2_get_error_message_8(int, PCRE2_UCHAR8 *, PCRE2_SIZE n) {
    const int r = vk_opaque_int();
    ASSUME(n > 0 && r < (int)n);
    return r;
}
pcre2_match_data *pcre2_match_data_create_from_pattern_8(const pcre2_code *c, pcre2_general_context_8 *) {
    if(c != CODE || !c_live)
        E_FAIL("only a compiled pattern is used");
    if(d_live)
        E_FAIL("one search at a time");
    const bool ok = vk_opaque_bool();
    d_live = ok;
    d_none = !ok;
    return ok ? DATA : nullptr;
}
void pcre2_match_data_free_8(pcre2_match_data *d) {
    if(!d)
        return;
    if(d != DATA || !d_live)
        E_FAIL("the results are released once, and only when there are some");
    d_live = false;
}
int pcre2_match_8(const pcre2_code *c, PCRE2_SPTR8 t, PCRE2_SIZE n, PCRE2_SIZE start, uint32_t options, pcre2_match_data *d, pcre2_match_context_8 *) {
    if(c != CODE || !c_live)
        E_FAIL("only a compiled pattern is used");
    if((const char *)t != g_text || (n != PCRE2_ZERO_TERMINATED && n != g_tn) || start != 0)
        E_FAIL("the text given is searched, all of it");
    if(options & ~PCRE2_NO_UTF_CHECK)
        E_FAIL("the text is searched without restrictions");
    if(m_done)
        E_FAIL("the text is searched once");
    if(d_none ? d != nullptr : d != DATA || !d_live)
        E_FAIL("the results go where there is room for them");
    m_done = true;
    m_rc = vk_opaque_int();
    if(d_none)
        ASSUME(m_rc == PCRE2_ERROR_NULL);
    return m_rc;
}
uint32_t pcre2_get_ovector_count_8(pcre2_match_data *d) {
    if(d != DATA || !d_live)
        E_FAIL("only results that exist are asked for");
    return o_count;
}
PCRE2_SIZE *pcre2_get_ovector_pointer_8(pcre2_match_data *d) {
    if(d != DATA || !d_live)
        E_FAIL("only results that exist are asked for");
    return o_vec;
}
}
// UTF-8 strings are sound (C10), and so is every stretch of one between two places PCRE2 reports.
extern "C" bool vk_rec_is_valid_utf8(const char *p, size_t n) {
    return g_text && p >= g_text && p <= g_text + g_tn && n <= (size_t)(g_text + g_tn - p) ? true : vk_opaque_bool();
}
#define START                                                                                      \
    g_out = g_w1 = g_w4 = g_live = nullptr;                                                        \
    g_follow = g_nalloc = g_alternate = 0;                                                         \
    g_top = g_top2 = nullptr;                                                                      \
    c_live = d_live = d_none = c_failed = m_done = false;                                          \
    m_rc = 0;                                                                                      \
    g_pattern = g_text = nullptr;                                                                  \
    g_pn = g_tn = 0;
#define STRING(s, ptr, n)                                                                          \
    n = s.cstring.bytes.size() - 1;                                                                \
    ptr = ((const CString &)s.cstring).data();                                                     \
    ASSUME(s.cstring.bytes.size() >= 1 && n < s.cstring.bytes.capacity() && s.cstring.bytes.capacity() < LIM && (size_t)ptr < LIM * 8 && ptr);

CONTRACT(C31_compile)(const U8String &s) {
    START
    STRING(s, g_pattern, g_pn)
    bool raised = false;
    try {
        U8Regex r(s);
        REQUIRE(c_live && r.h() == CODE);
    } catch(...) { raised = true; }
    REQUIRE(raised == c_failed);
    REQUIRE(!c_live);
    REACH();
}
CONTRACT(C31_search)(U8Regex &r, const U8String &__restrict s) {
    START
    STRING(s, g_text, g_tn)
    r.handle = CODE;
    c_live = true;
    bool raised = false;
    try {
        U8Match m = regex_search(r, s);
        REQUIRE(m_done && m_rc >= 0);
        REQUIRE(d_live && m.h() == DATA && m.original == &s);
    } catch(...) { raised = true; }
    REQUIRE(m_done && raised == (m_rc < 0));
    REQUIRE(!d_live);
    REQUIRE(c_live);
    REACH();
}
CONTRACT(C31_moved)(const U8String &s) {
    START
    d_live = true;
    {
        U8Match a(DATA, &s);
        U8Match b(move(a));
        REQUIRE(d_live && b.h() == DATA && b.original == &s);
        REQUIRE(a.h() != DATA);
    }
    REQUIRE(!d_live);
    REACH();
}
#define RESULTS                                                                                    \
    START                                                                                          \
    STRING(s, g_text, g_tn)                                                                        \
    o_count = count;                                                                               \
    o_vec = vec;                                                                                   \
    ASSUME(count >= 1 && count < 65537 && vec && (size_t)vec < LIM * 8 && (size_t)vec % 8 == 0);   \
    ASSUME(vk_apart(vec, 16 * (size_t)count, &s, sizeof(s)) && vk_apart(vec, 16 * (size_t)count, g_text, g_tn + 1)); \
    d_live = true;                                                                                 \
    g_top = g_text + g_tn + 1;                                                                     \
    U8Match m(DATA, &s);
// One group of them: either it took part in the match, from b to e, or it did not.
#define GROUP                                                                                      \
    ASSUME(i < count);                                                                             \
    vk_watch64(9, vec + 2 * i);                                                                    \
    vk_watch64(10, vec + 2 * i + 1);                                                               \
    const size_t b = vec[2 * i], e = vec[2 * i + 1];                                               \
    ASSUME((b == PCRE2_UNSET && e == PCRE2_UNSET) || (b <= e && e <= g_tn));
#define ARGS const U8String &__restrict s, size_t *__restrict vec, unsigned count
CONTRACT(C31_count)(ARGS) {
    RESULTS
    REQUIRE(m.num_groups() == count - 1);
    REACH();
}
CONTRACT(C31_group_range)(ARGS, size_t i) {
    RESULTS
    ASSUME(i >= count);
    try {
        (void)m.group(i);
        UNREACHABLE("a group past the last one is refused");
    } catch(...) {}
    REACH();
}
CONTRACT(C31_submatch_range)(ARGS, size_t i) {
    RESULTS
    ASSUME(i >= count);
    try {
        (void)m.get_submatch(i);
        UNREACHABLE("a group past the last one is refused");
    } catch(...) {}
    REACH();
}
CONTRACT(C31_group_unset)(ARGS, size_t i) {
    RESULTS
    GROUP
    ASSUME(b == PCRE2_UNSET);
    try {
        const U8StringView v = m.group(i);
        REQUIRE(v.start.buf == v.stop.buf);
    } catch(...) {}
    REACH();
}
CONTRACT(C31_submatch_unset)(ARGS, size_t i) {
    RESULTS
    GROUP
    ASSUME(b == PCRE2_UNSET);
    try {
        const U8String v = m.get_submatch(i);
        REQUIRE(v.size_bytes() == 0);
    } catch(...) {}
    REACH();
}
CONTRACT(C31_group)(ARGS, size_t i) {
    RESULTS
    GROUP
    ASSUME(b != PCRE2_UNSET);
    try {
        const U8StringView v = m.group(i);
        REQUIRE((const char *)v.start.buf == g_text + b && (const char *)v.stop.buf == g_text + e);
    } catch(...) { UNREACHABLE("a group that took part is given"); }
    REQUIRE(d_live);
    REACH();
}
CONTRACT(C31_submatch)(ARGS, size_t i) {
    RESULTS
    GROUP
    ASSUME(b != PCRE2_UNSET);
    try {
        const U8String v = m.get_submatch(i);
        REQUIRE(v.size_bytes() == e - b);
        REACH();
    } catch(...) {}
    REQUIRE(d_live);
}
CONTRACT(C31_submatch_given)(ARGS, size_t i) {
    RESULTS
    GROUP
    ASSUME(b != PCRE2_UNSET && e - b <= 2);
    vk_watch8(1, g_text + b);
    vk_watch8(4, g_text + b + 1);
    ASSUME((e - b < 1 || g_text[b]) && (e - b < 2 || g_text[b + 1]));
    g_k0 = 0;
    g_k1 = 1;
    g_follow = 2;
    g_alternate = 1;
    vk_unroll(4);
    try {
        (void)m.get_submatch(i);
    } catch(...) { UNREACHABLE("a group that took part is given"); }
    REACH();
}
CONTRACT(C31_submatch_content)(ARGS, size_t i, size_t k) {
    RESULTS
    GROUP
    ASSUME(b != PCRE2_UNSET && k < e - b);
    vk_watch8(1, g_text + b + k);
    const char y = g_text[b + k];
    g_k0 = k;
    g_follow = 1;
    g_alternate = 1;
    const U8String v = m.get_submatch(i);
    REQUIRE(v.cstring.data()[k] == y);
    REACH();
}
