// flags: -fno-access-control
// C27: how a command line is taken apart
#include "buf.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
extern "C" int vk_opaque_int() noexcept;
extern "C" long vk_opaque_long() noexcept;
extern "C" bool vk_opaque_bool() noexcept;
int vk_opaque_recursion; // an exception's own text is made by the constructor that raises it
#define E_FAIL(t) [[clang::nomerge]] vk_fail(t, __LINE__)
static const char *g_text, *g_next; // texts whose lengths are known
static size_t g_tn, g_nn;
static inline size_t vk_strlen(const char *p) {
    if(p == g_text)
        return g_tn;
    if(p == g_next)
        return g_nn;
    const size_t l = vk_opaque_index();
    ASSUME(l < LIM && p[l] == '\0');
    return l;
}
#define strlen vk_strlen
// Ending the program with an error is how what cannot be understood is refused.
static bool g_may_exit;
[[noreturn]] static void vk_exit(int status) {
    if(!g_may_exit)
        E_FAIL("what is given correctly is not refused");
    if(status == 0)
        E_FAIL("what is refused is an error");
    vk_stop();
}
static int g_err;            // errno
static long g_num;           // what strtol answers
static size_t g_numlen;      // and how much of the text it read
static const char *g_numtext;
static unsigned char g_numbase;
static long vk_strtol(const char *p, char **end, int base) {
    g_numtext = p;
    g_numbase = base;
    const int e = vk_opaque_int();
    if(e)
        g_err = e;
    if(end)
        *end = (char *)p + g_numlen;
    return g_num;
}
#include "pystd2026.cpp"
#define exit vk_exit
#undef errno
#define errno g_err
#define strtol vk_strtol
#define strtoll vk_strtol
#define fprintf(...) ((void)0)
#define printf(...) ((void)0)
#include "pystd2026_argparse.cpp"
#undef exit
using namespace V;

// The search for an option, and for the equals sign (C32): what they answer is chosen.
static bool g_found;
static size_t g_index, g_split;
static char g_char;
static bool g_asked, g_adding;
#define BEGIN                                                                                      \
    g_out = g_w1 = g_w4 = g_live = nullptr;                                                        \
    g_follow = g_nalloc = g_alternate = 0;                                                         \
    g_top = g_top2 = nullptr;                                                                      \
    g_text = g_next = nullptr;                                                                     \
    g_tn = g_nn = 0;                                                                               \
    g_may_exit = g_asked = g_adding = false;
extern "C" Optional<size_t> vk_rec_find_short_argument(ArgParse *, char c) {
    if(c != g_char)
        E_FAIL("the option whose letter was given is looked for");
    g_asked = true;
    return g_found ? Optional<size_t>(g_index) : Optional<size_t>();
}
extern "C" Optional<size_t> vk_rec_find_long_argument(ArgParse *, CStringView name) {
    if(name.data() != g_text || name.size() != (g_split < g_tn ? g_split : g_tn))
        E_FAIL("the option whose name was given is looked for");
    g_asked = true;
    return g_found ? Optional<size_t>(g_index) : Optional<size_t>();
}
extern "C" size_t vk_rec_find(const CStringView *v, char c) {
    if(v->data() == g_text && v->size() == g_tn && c == '=')
        return g_split;
    return vk_opaque_index();
}
static unsigned g_matched;
static const char *g_value;
static size_t g_vlen;
static bool g_needs;
extern "C" void vk_rec_argument_matched(ArgParse *, ParseResult &, size_t index, CStringView value) {
    if(!g_found || index != g_index)
        E_FAIL("the option found is the one that gets the value");
    ++g_matched;
    g_value = value.data();
    g_vlen = value.size();
}
#define OPTION                                                                                     \
    BEGIN                                                                                          \
    g_matched = 0;                                                                                 \
    g_found = vk_opaque_bool();                                                                    \
    g_index = vk_opaque_index();                                                                   \
    const size_t na = ap.arguments.size();                                                         \
    Argument *const args = ap.arguments.data();                                                    \
    ASSUME(na < 4096 && args && (size_t)args < LIM && g_index < na);                               \
    vk_watch8(2, &args[g_index].aaction);                                                          \
    g_needs = args[g_index].aaction != ArgumentAction::StoreTrue && args[g_index].aaction != ArgumentAction::StoreFalse;                                                     \
    ASSUME(argc >= 1 && argc < 100000 && i >= 1 && i < argc && (size_t)argv < LIM && argv);        \
    g_text = text;                                                                                 \
    g_tn = n;                                                                                      \
    ASSUME(n >= 2 && n < LIM && text && (size_t)text < LIM * 8);                                   \
    vk_watch64(3, argv + i);                                                                       \
    ASSUME(argv[i] == text);                                                                       \
    ASSUME(vk_apart(args, na * sizeof(Argument), argv, 8 * (size_t)argc + 8) && vk_apart(text, n + 1, argv, 8 * (size_t)argc + 8)); \
    vk_guard(0, argv + argc);
#define ARGS ArgParse &__restrict ap, ParseResult &__restrict pr, int argc, const char **__restrict argv, int i, const char *__restrict text, size_t n
#define NEXT                                                                                       \
    if(i + 1 < argc) {                                                                             \
        vk_watch64(4, argv + i + 1);                                                               \
        g_next = argv[i + 1];                                                                      \
        g_nn = vk_opaque_index();                                                                  \
        ASSUME(g_next && g_next != text && g_nn < LIM && (size_t)g_next < LIM * 8);                \
    }
CONTRACT(C27_short)(ARGS) {
    OPTION
    NEXT
    vk_watch8(1, text + 1);
    vk_watch8(5, text);
    ASSUME(text[0] == '-');
    g_char = text[1];
    g_may_exit = !g_found || (g_needs && n == 2 && i + 1 >= argc);
    const int used = ap.process_short_argument(argc, argv, pr, i, CStringView(text, n));
    REQUIRE(!vk_guard_hit(0, nullptr));
    REQUIRE(!g_may_exit && g_matched == 1);
    REQUIRE(used == (g_needs && n == 2));
    if(g_needs && n == 2)
        REQUIRE(g_value == g_next && g_vlen == g_nn);
    if(g_needs && n > 2)
        REQUIRE(g_value == text + 2 && g_vlen == n - 2);
    REACH();
}
CONTRACT(C27_long)(ARGS) {
    OPTION
    NEXT
    g_split = vk_opaque_index();
    ASSUME(g_split < n || g_split == (size_t)-1);
    g_may_exit = !g_found || (g_needs && g_split >= n && i + 1 >= argc);
    const int used = ap.process_long_argument(argc, argv, pr, i, CStringView(text, n));
    REQUIRE(!vk_guard_hit(0, nullptr));
    REQUIRE(!g_may_exit && g_matched == 1);
    REQUIRE(used == (g_needs && g_split >= n));
    if(g_needs && g_split >= n)
        REQUIRE(g_value == g_next && g_vlen == g_nn);
    if(g_needs && g_split < n)
        REQUIRE(g_vlen == n - g_split - 1 && (g_vlen == 0 || g_value == text + g_split + 1));
    REACH();
}
// A text made of a view (C09) is the one given here.
static CString *g_made;
static bool g_used;
extern "C" void vk_rec_CString(CString *self, const char *p, size_t n) {
    if(p != g_text || n != g_tn || g_used)
        E_FAIL("the text of the value is used, all of it");
    g_used = true;
    new(self) CString(move(*g_made));
}
// An option's value becomes what the kind of option says.
#define VALUE(act, ty)                                                                             \
    BEGIN                                                                                          \
    ArgValue v;                                                                                    \
    vk_watch8(1, &a.aaction);                                                                      \
    vk_watch8(2, &a.type);                                                                         \
    ASSUME(a.aaction == ArgumentAction::act && a.type == ArgumentType::ty);                        \
    g_text = text;                                                                                 \
    g_tn = n;                                                                                      \
    ASSUME(n < LIM && text && (size_t)text < LIM * 8);                                             \
    g_top = text + n + 1;                                                                          \
    bool raised = false;                                                                           \
    g_used = false;                                                                                \
    g_made = &made;                                                                                \
    const char *const copy = ((const CString &)made).data();                                       \
    ASSUME(made.bytes.size() == n + 1);
#define VARGS Argument &__restrict a, CString &__restrict made, const char *__restrict text, size_t n
CONTRACT(C27_true)(VARGS) {
    VALUE(StoreTrue, Boolean)
    NO_THROW(update_value(a, v, CStringView(text, n)));
    const bool *b = v.v.get_if<bool>();
    REQUIRE(b && *b);
    REACH();
}
CONTRACT(C27_false)(VARGS) {
    VALUE(StoreFalse, Boolean)
    v.v = true;
    NO_THROW(update_value(a, v, CStringView(text, n)));
    const bool *b = v.v.get_if<bool>();
    REQUIRE(b && !*b);
    REACH();
}
#define NUMBER                                                                                     \
    VALUE(Store, Integer)                                                                          \
    g_num = vk_opaque_long();                                                                      \
    g_numlen = vk_opaque_index();                                                                  \
    ASSUME(g_numlen <= n);                                                                         \
    vk_watch64(3, &a.minval.data);                                                                 \
    vk_watch64(4, &a.maxval.data);                                                                 \
    vk_watch8(5, &a.minval.has_value);                                                             \
    vk_watch8(6, &a.maxval.has_value);
CONTRACT(C27_number)(VARGS) {
    NUMBER
    const bool low = a.minval.has_value && g_num < a.minval.data.value, high = a.maxval.has_value && g_num > a.maxval.data.value;
    try {
        update_value(a, v, CStringView(text, n));
    } catch(...) { raised = true; }
    if(raised) {
        REQUIRE(low || high || g_err || n == 0 || g_numlen != n);
        REACH();
    } else {
        REQUIRE(!low && !high);
        const int64_t *i = v.v.get_if<int64_t>();
        REQUIRE(i && *i == g_num && g_numbase == 10);
        REQUIRE(g_used && g_numtext == copy);
        REQUIRE(g_err == 0);
        REQUIRE(n > 0 && g_numlen == n);
        REACH();
    }
}
CONTRACT(C27_string)(VARGS) {
    VALUE(Store, String)
    try {
        update_value(a, v, CStringView(text, n));
        const CString *s = v.v.get_if<CString>();
        REQUIRE(s && g_used && s->data() == copy && s->size() == n);
        REACH();
    } catch(...) {}
}
CONTRACT(C27_array)(VARGS) {
    VALUE(Store, StringArray)
    try {
        update_value(a, v, CStringView(text, n));
        const Vector<CString> *s = v.v.get_if<Vector<CString>>();
        REQUIRE(s && g_used && s->size() == 1);
        REACH();
    } catch(...) {}
}
// The value of an option is the one entered under its name.
static const CString *g_hit; // the entry that has it
extern "C" bool vk_same(const CString *a, const CStringView &o) asm("vk_rec_CString::operator==(pystd2026::CStringView const&)");
extern "C" bool vk_same(const CString *a, const CStringView &o) {
    if(o.data() != g_text || o.size() != g_tn)
        E_FAIL("the name asked for is looked for");
    if(vk_opaque_bool()) {
        g_hit = a;
        return true;
    }
    return false;
}
// (a view of a text made to be compared: known by the address of the text)
extern "C" CStringView vk_view(const CString *s) asm("vk_rec_CString::view() const");
extern "C" CStringView vk_view(const CString *s) { return CStringView((const char *)s, (size_t)1); }
extern "C" bool vk_same_view(const CStringView *v, CStringView o) asm("vk_rec_CStringView::operator==(pystd2026::CStringView) const");
extern "C" bool vk_same_view(const CStringView *v, CStringView o) {
    const bool left = v->data() == g_text && v->size() == g_tn;
    if(!left && (o.data() != g_text || o.size() != g_tn))
        E_FAIL("the name asked for is looked for");
    if(vk_opaque_bool()) {
        g_hit = (const CString *)(left ? o.data() : v->data());
        return true;
    }
    return false;
}
#define FIND                                                                          \
    BEGIN                                                                                          \
    g_hit = nullptr;                                                                               \
    g_text = text;                                                                                 \
    g_tn = n;                                                                                      \
    ASSUME(n < LIM && text && (size_t)text < LIM * 8);                                             \
    ASSUME(pr.values.size() < 4096 && (size_t)pr.values.data() < LIM && pr.values.data());
CONTRACT(C27_value_of)(ParseOutput &__restrict p, const char *text, size_t n) {
    ParseResult &pr = p.pr;
    FIND
    const ArgumentValue *v = ((const ParseOutput &)p).value_of(CStringView(text, n));
    REQUIRE(g_hit ? v == &((const ArgValue *)g_hit)->v : v == nullptr);
    REACH();
}
CONTRACT(C27_value_of_mutable)(ParseOutput &__restrict p, const char *text, size_t n) {
    ParseResult &pr = p.pr;
    FIND
    ArgumentValue *v = p.value_of(CStringView(text, n));
    REQUIRE(g_hit ? v == &((ArgValue *)g_hit)->v : v == nullptr);
    REACH();
}
CONTRACT(C27_find)(ParseResult &__restrict pr, const char *text, size_t n) {
    FIND
    ArgValue *v = pr.find(CStringView(text, n));
    REQUIRE(v == (const void *)g_hit);
    REACH();
}
// Options are told apart by their names: whatever is taken already is refused.
static const Argument *g_kth; // an option added before
static bool g_on, g_dup, g_name_seen, g_name_same, g_long_seen, g_long_same;
static unsigned char g_pushed;
static bool g_newlong;
extern "C" bool vk_equal(const CString *a, const CString &o) asm("vk_rec_CString::operator==(pystd2026::CString const&)");
extern "C" bool vk_equal(const CString *a, const CString &o) {
    const bool r = vk_opaque_bool();
    if(a == &g_kth->name || &o == &g_kth->name) {
        g_name_seen = true;
        g_name_same = r;
    }
    if(a == &g_kth->long_arg || &o == &g_kth->long_arg) {
        g_long_seen = true;
        g_long_same = r;
    }
    if(r)
        g_dup = true;
    return r;
}
extern "C" void vk_pushed(void *, Argument &&) asm("vk_rec_Vector<pystd2026::Argument>::push_back(pystd2026::Argument&&)");
extern "C" void vk_pushed(void *, Argument &&) { ++g_pushed; }
extern "C" bool vk_blank(const CString *) asm("vk_rec_CString::is_empty() const");
extern "C" bool vk_blank(const CString *s) { return g_adding ? !g_newlong : s->bytes.size() == 1; }
#define ADD                                                                                        \
    BEGIN                                                                                          \
    const size_t na = ap.arguments.size();                                                         \
    Argument *const args = ap.arguments.data();                                                    \
    ASSUME(na < 4096 && args && (size_t)args < LIM);                                               \
    g_kth = args + k;                                                                              \
    g_dup = g_name_seen = g_name_same = g_long_seen = g_long_same = false;                         \
    g_pushed = 0;                                                                                  \
    g_adding = true;                                                                               \
    g_newlong = vk_opaque_bool();                                                                  \
    bool raised = false;                                                                           \
    ASSUME(!given.default_value.has_value);                                                        \
    Argument a(move(given));
CONTRACT(C27_add)(ArgParse &__restrict ap, Argument &__restrict given, size_t k) {
    ADD
    ASSUME(k < na);
    a.short_arg = 0;
    vk_side((size_t)g_kth);
    try {
        ap.add_argument(move(a));
    } catch(...) { raised = true; }
    if(raised) {
        REQUIRE(g_dup && g_pushed == 0);
        REACH();
    } else {
        REQUIRE(g_pushed == 1);
        REQUIRE(g_name_seen && !g_name_same);
        REQUIRE(!g_newlong || (g_long_seen && !g_long_same));
        REACH();
    }
}
CONTRACT(C27_add_letter)(ArgParse &__restrict ap, Argument &__restrict given, size_t k, char c) {
    ADD
    ASSUME(k < na && c);
    a.short_arg = c;
    vk_watch8(1, &args[k].short_arg);
    ASSUME(args[k].short_arg == c);
    vk_side((size_t)g_kth);
    try {
        ap.add_argument(move(a));
        UNREACHABLE("a letter that is taken is refused");
    } catch(...) {}
    REACH();
}
