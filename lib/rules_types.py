"""Type-level rules: what the type system must accept and reject, decided by the compiler's type checker."""
import concurrent.futures as cf
import os
import re

import cxx
from vkdriver import VERIF, NoAnswer, Violation

PRE = "".join("#include <%s>\n" % h for h in (
    "pystd2026.hpp", "pystd2026_btree.hpp", "pystd2026_bucketsort.hpp", "pystd2026_hashtable.hpp", "pystd2026_radixsort.hpp",
    "pystd2026_threading.hpp", "pystd2026_variant.hpp")) + "using namespace pystd2026;\nstruct Cls { int v; };\n"

# (name, use that must be rejected, nearly identical use that must compile)
TWINS = [
    ("hashmap_double_key", "HashMap<double, int> m;", "HashMap<long, int> m;"),
    ("hashmap_float_key", "HashMap<float, int> m;", "HashMap<int, float> m;"),
    ("hashset_float_key", "HashSet<float> s;", "HashSet<int> s;"),
    ("hashset_double_key", "HashSet<double> s;", "HashSet<long> s;"),
    ("bucketsort_signed", "void f(int *p) { bucketsort(p, p); }", "void f(unsigned *p) { bucketsort(p, p); }"),
    ("bucketsort_signed64", "void f(int64_t *p) { bucketsort(p, p); }", "void f(uint64_t *p) { bucketsort(p, p); }"),
    ("bucketsort_float", "void f(float *p) { bucketsort(p, p); }", "void f(unsigned char *p) { bucketsort(p, p); }"),
    ("radix_sort_signed", "void f(int *p) { radix_sort(p, p); }", "void f(unsigned *p) { radix_sort(p, p); }"),
    ("bucketsort_signed8", "void f(signed char *p) { bucketsort(p, p); }", "void f(unsigned char *p) { bucketsort(p, p); }"),
    ("bucketsort_char", "void f(char *p) { bucketsort(p, p); }", "void f(uint8_t *p) { bucketsort(p, p); }"),
    ("bucketsort_signed16", "void f(short *p) { bucketsort(p, p); }", "void f(unsigned short *p) { bucketsort(p, p); }"),
    ("bucketsort_long_long", "void f(long long *p) { bucketsort(p, p); }", "void f(unsigned long *p) { bucketsort(p, p); }"),
    ("bucketsort_record", "void f(Cls *p) { bucketsort(p, p); }", "void f(uint16_t *p) { bucketsort(p, p); }"),
    ("radix_sort_signed8", "void f(signed char *p) { radix_sort(p, p); }", "void f(unsigned char *p) { radix_sort(p, p); }"),
    ("radix_sort_char", "void f(char *p) { radix_sort(p, p); }", "void f(uint8_t *p) { radix_sort(p, p); }"),
    ("radix_sort_signed16", "void f(short *p) { radix_sort(p, p); }", "void f(uint32_t *p) { radix_sort(p, p); }"),
    ("radix_sort_signed64", "void f(int64_t *p) { radix_sort(p, p); }", "void f(uint64_t *p) { radix_sort(p, p); }"),
    ("radix_sort_double", "void f(double *p) { radix_sort(p, p); }", "void f(unsigned short *p) { radix_sort(p, p); }"),
    ("default_comparator_double", "int f(double a) { return DefaultComparator<double>{}.compare(a, a); }", "int f(long a) { return DefaultComparator<long>{}.compare(a, a); }"),
    ("default_comparator_float", "int f(float a) { return DefaultComparator<float>{}.compare(a, a); }", "int f(char a) { return DefaultComparator<char>{}.compare(a, a); }"),
    ("default_comparator_const_float", "int f(float a) { return DefaultComparator<const float>{}.compare(a, a); }", "int f(int a) { return DefaultComparator<const int>{}.compare(a, a); }"),
    ("default_sort_of_floats", "void f(float *p) { insertion_sort(p, p); }", "void f(short *p) { insertion_sort(p, p); }"),
    ("only_less_double", "int f(double a) { return OnlyLessComparator<double>{}.compare(a, a); }", "int f(int a) { return OnlyLessComparator<int>{}.compare(a, a); }"),
    ("total_order_int", "int f(int a) { return FloatTotalOrderComparator<int>{}.compare(a, a); }", "int f(float a) { return FloatTotalOrderComparator<float>{}.compare(a, a); }"),
    ("ignore_nan_int", "int f(int a) { return FloatIgnoreNanComparator<int>{}.compare(a, a); }", "int f(double a) { return FloatIgnoreNanComparator<double>{}.compare(a, a); }"),
    ("comparator_of_reference", "DefaultComparator<int &> c;", "DefaultComparator<int> c;"),
    ("only_less_of_reference", "OnlyLessComparator<int &> c;", "OnlyLessComparator<int> c;"),
    ("total_order_of_reference", "FloatTotalOrderComparator<float &> c;", "FloatTotalOrderComparator<float> c;"),
    ("ignore_nan_of_reference", "FloatIgnoreNanComparator<float &> c;", "FloatIgnoreNanComparator<float> c;"),
    ("variant_empty", "Variant<> v;", "Variant<int> v;"),
    ("variant_const_alternative", "Variant<int, const Cls> v;", "Variant<int, Cls> v;"),
    ("variant_too_many", "template<int> struct N {};\nVariant<%s> v;" % ",".join("N<%d>" % i for i in range(31)),
     "template<int> struct N {};\nVariant<%s> v;" % ",".join("N<%d>" % i for i in range(30))),
    ("variant_get_stranger", "long *f(Variant<int, Cls> &v) { return v.get_if<long>(); }", "int *f(Variant<int, Cls> &v) { return v.get_if<int>(); }"),
    ("variant_contains_stranger", "bool f(Variant<int, Cls> &v) { return v.contains<long>(); }", "bool f(Variant<int, Cls> &v) { return v.contains<Cls>(); }"),
    ("expected_same_types", "Expected<int, int> e;", "Expected<int, long> e;"),
    ("forward_rvalue_as_lvalue", "int &&g();\nvoid f() { forward<int &>(g()); }", "int &&g();\nvoid f() { forward<int>(g()); }"),
    ("btree_even", "BTree<int, 4> t;", "BTree<int, 5> t;"),
    ("btree_tiny", "BTree<int, 1> t;", "BTree<int, 3> t;"),
    ("fixedcstring_zero", "FixedCString<0> s;", "FixedCString<1> s;"),
    ("lockguard_unlockable", "void f(Cls &c) { LockGuard<Cls> g(c); }", "void f(Mutex &c) { LockGuard<Mutex> g(c); }"),
    ("lockguard_temporary_copy", "LockGuard<Mutex> f(LockGuard<Mutex> &g) { return g; }", "LockGuard<Mutex> &f(LockGuard<Mutex> &g) { return g; }"),
    ("unique_ptr_return_copy", "unique_ptr<int> f(unique_ptr<int> &p) { return p; }", "unique_ptr<int> f(unique_ptr<int> &p) { return move(p); }"),
]


def type_assertions(run):
    src = os.path.join(VERIF, "contracts", "types.cpp")
    # every assertion is named in the compiled unit itself: count those that hold and those that fail
    probe = cxx.compile_(run, src, ["-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics", "-DPYSTD2026_HAS_REGEX"])
    text = open(src).read()
    names = re.findall(r"\bTY\((\w+)", text)
    run.units.append({"unit": "types.cpp", "assertions": len(names)})
    insts = len(re.findall(r"^template struct", text, re.M))
    run.obligations += len(names) + insts
    bad = 0
    for line in probe.stderr.splitlines():
        m = re.search(r"types\.cpp:(\d+):\d+: error: static assertion failed(?: due to requirement '(.*)')?: (\w+)", line)
        if m:
            bad += 1
            run.add(Violation("types:%s:%s" % (m.group(3), m.group(2) or ""), "type-level obligation `%s` does not hold: %s" % (m.group(3), m.group(2) or ""),
                              [line.split(": error")[0]], line.strip()))
        elif ": error:" in line or ": fatal error:" in line:
            bad += 1
            run.add(Violation("types:error:" + line.split("error:", 1)[1].strip(), "a use that must be accepted is rejected: " + line.split("error:", 1)[1].strip(),
                              [line.split(": error")[0]], line.strip()))
    run.discharged += max(0, len(names) + insts - bad)
    run.rules.append({"rule": "type predicates, constraints, copyability and constness", "assertions": len(names), "instantiations": insts, "failed": bad})
    if not names:
        raise NoAnswer("no type-level obligations found")


def compile_fail_witnesses(run):
    def one(t):
        name, bad, good = t
        g = cxx.compile_(run, cxx.unit(run, "ok_%s.cpp" % name, PRE + good + "\n"), ["-fsyntax-only"])
        b = cxx.compile_(run, cxx.unit(run, "bad_%s.cpp" % name, PRE + bad + "\n"), ["-fsyntax-only"])
        return name, bad, good, g, b

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for name, bad, good, g, b in ex.map(one, TWINS):
            run.obligations += 2
            if b.returncode == 0:
                run.add(Violation("types:accepted:" + name, "misuse compiles: " + bad.splitlines()[-1], ["witness " + name], bad))
            else:
                run.discharged += 1
            if g.returncode:
                run.add(Violation("types:rejected:" + name, "legitimate use does not compile: %s: %s" % (good.splitlines()[-1], cxx.first_error(g.stderr)),
                                  ["witness " + name], g.stderr[:2000]))
            else:
                run.discharged += 1
    run.rules.append({"rule": "misuse is rejected, its near twin accepted", "witness_pairs": len(TWINS)})


# Elements without any operator, that can only be moved; and one the library takes for an integer.
ORDER_PRE = "".join("#include <%s>\n" % h for h in (
    "pystd2026.hpp", "pystd2026_shellsort.hpp", "pystd2026_heapsort.hpp", "pystd2026_mergesort.hpp", "pystd2026_introsort.hpp",
    "pystd2026_nth_element.hpp", "pystd2026_partial_sort.hpp", "pystd2026_indirect_sort.hpp", "pystd2026_stablepartition.hpp")) + """
using namespace pystd2026;
struct Elem {
    Elem() noexcept;
    Elem(Elem &&) noexcept;
    Elem &operator=(Elem &&) noexcept;
    Elem(const Elem &) = delete;
    int v;
};
struct Num {
    int v;
    Num() noexcept;
    explicit Num(int) noexcept;
};
template<> constexpr bool pystd2026::is_integral_v<Num> = true;
struct Cmp {
    explicit Cmp(int);
    Cmp(const Cmp &) = delete;
    int compare(const Elem &, const Elem &) const noexcept;
    int compare(const Num &, const Num &) const noexcept;
#ifdef EQUAL
    bool equal(const Elem &, const Elem &) const noexcept;
    bool equal(const Num &, const Num &) const noexcept;
#endif
};
struct Pred {
    explicit Pred(int);
    Pred(const Pred &) = delete;
    bool operator()(const Elem &) const noexcept;
    bool operator()(const Num &) const noexcept;
};
"""
ORDERED = [
    ("insertion_sort", "void f(T *a, T *b, const Cmp &c) { insertion_sort(a, b, c); }"),
    ("heapsort", "void f(T *a, T *b, const Cmp &c) { heapsort(a, b, c); }"),
    ("introsort", "void f(T *a, T *b, const Cmp &c) { introsort(a, b, c); }"),
    ("shell_sort", "void f(T *a, T *b, const Cmp &c) { shell_sort(a, b, c); }"),
    ("mergesort", "void f(T *a, T *b, const Cmp &c) { mergesort(a, b, c); }"),
    ("nth_element", "T *f(T *a, T *b, const Cmp &c) { return nth_element(a, b, 3, c); }"),
    ("nth_element_heap", "T *f(T *a, T *b, const Cmp &c) { return nth_element_heap(a, b, 3, c); }"),
    ("partial_sort", "T *f(T *a, T *b, const Cmp &c) { return partial_sort(a, b, 3, c); }"),
    ("indirect_sort", "Vector<size_t> f(T *a, T *b, const Cmp &c) { return indirect_sort(a, b, c); }"),
    ("indirect_stable_sort", "Vector<size_t> f(T *a, T *b, const Cmp &c) { return indirect_stable_sort(a, b, c); }"),
    ("min_element", "T *f(T *a, T *b, const Cmp &c) { return min_element(a, b, c); }"),
    ("max_element", "T *f(T *a, T *b, const Cmp &c) { return max_element(a, b, c); }"),
    ("is_sorted", "bool f(T *a, T *b, const Cmp &c) { return is_sorted(a, b, c); }"),
    ("lower_bound", "T *f(T *a, T *b, const Cmp &c) { return lower_bound(a, b, *a, c); }"),
    ("partition", "T *f(T *a, T *b, const Pred &p) { return partition(a, b, p); }"),
    ("stable_partition", "T *f(T *a, T *b, const Pred &p) { return stable_partition(a, b, p); }"),
    ("find_if", "T *f(T *a, T *b, const Pred &p) { return find_if(a, b, p); }"),
    ("find_if_not", "T *f(T *a, T *b, const Pred &p) { return find_if_not(a, b, p); }"),
]


def order_only_by_comparator(run):
    def one(job):
        name, elem, code = job
        p = cxx.compile_(run, cxx.unit(run, "ord_%s_%s.cpp" % (name, elem), ("#define EQUAL\n" if "indirect" in name else "") + ORDER_PRE + "using T = %s;\n" % elem + code + "\n"), ["-fsyntax-only"])
        return name, elem, code, p

    # the element types themselves must be usable, else every rejection would be theirs
    probe = cxx.compile_(run, cxx.unit(run, "ord_probe.cpp", ORDER_PRE + "void f(Elem *a) { swap(a[0], a[1]); }\n"), ["-fsyntax-only"])
    if probe.returncode:
        raise NoAnswer("the witness types are not accepted: " + cxx.first_error(probe.stderr))
    jobs = [(n, e, c) for n, c in ORDERED for e in ("Elem", "Num")]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for name, elem, code, p in ex.map(one, jobs):
            run.obligations += 1
            if p.returncode:
                where = [m.group(0).split(": ")[0] for m in re.finditer(r"^/\S+:\d+:\d+: (?:error|note: in inst)", p.stderr, re.M)][:4]
                run.add(Violation("order:%s:%s" % (name, elem), "%s of elements without operators%s needs more of them than the given comparator: %s" % (
                    name, " (the library's path for numbers)" if elem == "Num" else "", cxx.first_error(p.stderr)), where, code + "\n" + p.stderr[:2000]))
            else:
                run.discharged += 1
    run.rules.append({"rule": "ordering algorithms use the given comparator or predicate and nothing else of the elements", "instantiations": len(jobs)})
