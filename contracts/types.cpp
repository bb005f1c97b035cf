// Type-level witnesses: every TY is decided by the compiler's type checker over /repo's headers.
#include <pystd2026.hpp>
#include <pystd2026_argparse.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_regex.hpp>
#include <pystd2026_threading.hpp>
#include <pystd2026_variant.hpp>
using namespace pystd2026;
#define TY(name, ...) static_assert((__VA_ARGS__), #name)

template<class T> T &&dv() noexcept;
struct Cls { int v; };
union Uni { int v; };
enum Enu { e0 };
enum class Ecl { e0 };

// ---- predicates agree with the language -----------------------------------
template<class T> struct Pred {
    TY(is_const, is_const_v<T> == __is_const(T) && is_const<T>::value == __is_const(T));
    TY(is_volatile, is_volatile_v<T> == __is_volatile(T) && is_volatile<T>::value == __is_volatile(T));
    TY(is_lvalue_reference, is_lvalue_reference<T>::value == __is_lvalue_reference(T));
    TY(is_rvalue_reference, is_rvalue_reference<T>::value == __is_rvalue_reference(T));
    TY(is_reference, is_reference<T>::value == __is_reference(T) && is_reference_v<T> == __is_reference(T));
    TY(remove_reference, __is_same(remove_reference_t<T>, __remove_reference_t(T)));
    TY(remove_cv, __is_same(remove_cv_t<T>, __remove_cv(T)));
    TY(remove_const, __is_same(remove_const_t<T>, __remove_const(T)));
    TY(remove_volatile, __is_same(remove_volatile_t<T>, __remove_volatile(T)));
    TY(remove_cvref, __is_same(remove_cvref_t<T>, __remove_cvref(T)));
    TY(is_same_reflexive, is_same_v<T, T> && is_same<T, T>::value);
    TY(is_same_pointer, !is_same_v<T, __remove_reference_t(T) *>);
    TY(is_same_const, is_same_v<T, const T> == __is_same(T, const T));
    TY(is_same_reference, is_same_v<T, T &> == __is_same(T, T &) && is_same_v<T &, T> == __is_same(T, T &));
    // references and cv are looked through, everything else is not
    TY(is_integral, is_integral_v<T> == __is_integral(__remove_cvref(T)) && is_integral<T>::value == is_integral_v<T>);
    TY(is_floating_point, is_floating_point_v<T> == __is_floating_point(__remove_cvref(T)) && is_floating_point<T>::value == is_floating_point_v<T>);
    TY(move_type, __is_same(decltype(move(dv<T>())), __remove_reference_t(T) &&) && noexcept(move(dv<T>())));
    TY(forward_type, __is_same(decltype(forward<T>(dv<T>())), T &&));
};
template<class T> struct AllCv {
    Pred<T> a;
    Pred<const T> b;
    Pred<volatile T> c;
    Pred<const volatile T> d;
    Pred<T &> e;
    Pred<const T &> f;
    Pred<volatile T &> g;
    Pred<T &&> h;
    Pred<const T &&> i;
    Pred<const volatile T &&> j;
};
#define EACH_INT(X) X(bool) X(char) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) X(wchar_t) X(char8_t) X(char16_t) X(char32_t)
#define EACH_OTHER(X) X(float) X(double) X(long double) X(Cls) X(Uni) X(Enu) X(Ecl) X(int *) X(const int *) X(void *) X(int Cls::*) X(decltype(nullptr)) X(unsigned char *) X(double *)
#define INST(T) template struct AllCv<T>;
EACH_INT(INST)
EACH_OTHER(INST)
#define UNS(T) TY(is_unsigned_##T, is_unsigned_v<T> && is_unsigned_v<const T> && is_unsigned_v<volatile T> && is_unsigned_v<T &> && is_unsigned<T>::value);
using uchar = unsigned char; using ushort_ = unsigned short; using ulong_ = unsigned long; using ullong = unsigned long long;
UNS(uchar) UNS(ushort_) UNS(unsigned) UNS(ulong_) UNS(ullong)
#define SGN(T) TY(not_unsigned, !is_unsigned_v<T> && !is_unsigned_v<const T> && !is_unsigned<T>::value);
SGN(signed char) SGN(short) SGN(int) SGN(long) SGN(long long) EACH_OTHER(SGN)
// distinct types are never the same
template<class A, class B> struct Pair2 {
    TY(is_same_pair, is_same_v<A, B> == __is_same(A, B) && is_same<A, B>::value == __is_same(A, B));
};
#define ROW(T) static_assert(sizeof(Pair2<T, int>) + sizeof(Pair2<unsigned, T>) + sizeof(Pair2<T, char>) + sizeof(Pair2<double, T>) + sizeof(Pair2<T, Cls>));
EACH_INT(ROW)
EACH_OTHER(ROW)
TY(true_false, true_type::value && !false_type::value);

// ---- WellBehaved and the templates that demand it --------------------------
struct Good {};
struct ThrowMove { ThrowMove() noexcept; ThrowMove(ThrowMove &&) noexcept(false); ThrowMove &operator=(ThrowMove &&) noexcept; };
struct ThrowAssign { ThrowAssign() noexcept; ThrowAssign(ThrowAssign &&) noexcept; ThrowAssign &operator=(ThrowAssign &&) noexcept(false); };
struct ThrowDefault { ThrowDefault() noexcept(false); ThrowDefault(ThrowDefault &&) noexcept; ThrowDefault &operator=(ThrowDefault &&) noexcept; };
struct NoDefault { explicit NoDefault(int) noexcept; NoDefault(NoDefault &&) noexcept; NoDefault &operator=(NoDefault &&) noexcept; };
struct NoMove { NoMove() noexcept; NoMove(const NoMove &) = delete; NoMove &operator=(NoMove &&) noexcept; };
struct NoAssign { NoAssign() noexcept; NoAssign(NoAssign &&) noexcept; NoAssign &operator=(const NoAssign &) = delete; };
struct ThrowCopyOnly { ThrowCopyOnly() noexcept; ThrowCopyOnly(const ThrowCopyOnly &) noexcept(false); ThrowCopyOnly &operator=(const ThrowCopyOnly &) noexcept(false); };

template<class T> concept MkVector = requires { typename Vector<T>; };
template<class T> concept MkFixed = requires { typename FixedVector<T, 4>; };
template<class T> concept MkOptional = requires { typename Optional<T>; };
template<class T> concept MkExpectedV = requires { typename Expected<T, Good>; };
template<class T> concept MkExpectedE = requires { typename Expected<Good, T>; };
template<class T> concept MkUnexpected = requires { typename Unexpected<T>; };
template<class T> concept MkVariant = requires { typename Variant<T>; };
template<class T> concept MkVariant2 = requires { typename Variant<int, T>; };
template<class T> concept MkMapK = requires { typename HashMap<T, int>; };
template<class T> concept MkMapV = requires { typename HashMap<int, T>; };
template<class T> concept MkSet = requires { typename HashSet<T>; };
template<class T> concept MkBTree = requires { typename BTree<T, 5>; };
template<class T> concept MkBTreeMapK = requires { typename BTreeMap<T, int, 5>; };
template<class T> concept MkBTreeMapV = requires { typename BTreeMap<int, T, 5>; };
template<class T> concept MkBTreeSet = requires { typename BTreeSet<T, 5>; };
template<class T> concept CanSwap = requires(T &a) { swap(a, a); };

template<class T, bool OK> struct Demands {
    TY(wellbehaved, WellBehaved<T> == OK);
    TY(vector_element, MkVector<T> == OK);
    TY(fixedvector_element, MkFixed<T> == OK);
    TY(optional_element, MkOptional<T> == OK);
    TY(expected_value, MkExpectedV<T> == (OK));
    TY(expected_error, MkExpectedE<T> == (OK));
    TY(unexpected_error, MkUnexpected<T> == OK);
    TY(variant_alternative, MkVariant<T> == OK);
    TY(variant_second_alternative, MkVariant2<T> == OK);
    TY(hashmap_key, MkMapK<T> == OK);
    TY(hashmap_value, MkMapV<T> == OK);
    TY(hashset_key, MkSet<T> == OK);
    TY(btree_payload, MkBTree<T> == OK);
    TY(btreemap_key, MkBTreeMapK<T> == OK);
    TY(btreemap_value, MkBTreeMapV<T> == OK);
    TY(btreeset_key, MkBTreeSet<T> == OK);
};
template struct Demands<Good, true>;
template struct Demands<int, true>;
template struct Demands<ThrowMove, false>;
template struct Demands<ThrowAssign, false>;
template struct Demands<ThrowDefault, false>;
template struct Demands<NoDefault, false>;
template struct Demands<NoMove, false>;
template struct Demands<NoAssign, false>;
template struct Demands<ThrowCopyOnly, false>;
template struct Demands<volatile int, false>;
TY(swap_good, CanSwap<Good> && CanSwap<int>);
TY(swap_throwing_move, !CanSwap<ThrowMove> && !CanSwap<ThrowAssign>);

// iterators
template<class It> concept IsIt = BasicIterator<It>;
struct NoPlus { int &operator*(); NoPlus &operator++(); NoPlus operator++(int); };
struct NoDeref { NoDeref &operator++(); NoDeref operator++(int); NoDeref operator+(int); NoDeref operator-(int); NoDeref &operator+=(int); NoDeref &operator-=(int); };
TY(basic_iterator, IsIt<int *> && IsIt<const Cls *> && !IsIt<NoPlus> && !IsIt<NoDeref> && !IsIt<int>);
TY(lockable, Lockable<Mutex> && !Lockable<int> && !Lockable<Good>);

// ---- the library's own value types -----------------------------------------
template<class T> struct Value {
    TY(library_type_wellbehaved, WellBehaved<T>);
};
template<class T> struct NothrowMove {
    TY(library_type_nothrow_move, __is_nothrow_constructible(T, T &&) && __is_nothrow_assignable(T &, T &&));
};
#define VALUE(...) template struct Value<__VA_ARGS__>; template struct NothrowMove<__VA_ARGS__>;
using MoveOnly = unique_ptr<int>;
VALUE(unique_ptr<int>) VALUE(unique_arr<int>) VALUE(Vector<int>) VALUE(Vector<MoveOnly>) VALUE(FixedVector<int, 3>) VALUE(FixedVector<MoveOnly, 3>)
VALUE(Optional<int>) VALUE(Optional<Cls>) VALUE(Optional<int *>) VALUE(Expected<int, Cls>) VALUE(Variant<int, Cls>)
VALUE(HashMap<int, int>) VALUE(HashMap<CString, CString>) VALUE(HashSet<int>) VALUE(BTreeMap<int, int, 5>) VALUE(BTreeSet<int, 5>)
VALUE(Bytes) VALUE(CString) VALUE(U8String) VALUE(CStringView) VALUE(ZStringView) VALUE(U8StringView) VALUE(Path) VALUE(Range) VALUE(MMapping) VALUE(GlobResult) VALUE(ValidU8Iterator)
VALUE(Span<int>) VALUE(Stack<int>) VALUE(FixedCString<5>) VALUE(SimpleHash) VALUE(Hasher<SimpleHash>) VALUE(Monostate)
template struct NothrowMove<PyException>;
template struct NothrowMove<BTree<int, 5>>;

// ---- owners are not copyable -------------------------------------------------
template<class T> struct Owner {
    TY(owner_copy_construct, !__is_constructible(T, const T &) && !__is_constructible(T, T &));
    TY(owner_copy_assign, !__is_assignable(T &, const T &) && !__is_assignable(T &, T &));
};
template<class T> struct Pinned : Owner<T> {
    TY(pinned_move, !__is_constructible(T, T &&) && !__is_assignable(T &, T &&));
};
struct CustomDel { static void del(int *); };
template struct Owner<unique_ptr<int>>;
template struct Owner<unique_ptr<int, CustomDel>>;
template struct Owner<unique_arr<int>>;
template struct Owner<unique_arr<int, CustomDel>>;
template struct Owner<MMapping>;
template struct Owner<GlobResult>;
template struct Owner<U8Match>;
template struct Owner<HashMap<int, int>>;
template struct Owner<HashSet<int>>;
template struct Owner<Expected<int, Cls>>;
template struct Owner<FixedVector<int, 3>>;
template struct Pinned<File>;
template struct Pinned<U8Regex>;
template struct Pinned<Mutex>;
template struct Pinned<Thread>;
template struct Pinned<LockGuard<Mutex>>;
template struct Pinned<LoopView<Range>>;
template struct Pinned<Loopsume<Range>>;
// ownership is taken explicitly, never by an implicit conversion of a raw pointer
template<class F, class T> concept Converts = __is_convertible_to(F, T);
TY(explicit_unique_ptr, !Converts<int *, unique_ptr<int>>);
TY(explicit_size_arr, !Converts<size_t, unique_arr<int>> && !Converts<size_t, Bytes>);
TY(explicit_strings, !Converts<const char *, CString> && !Converts<const char *, U8String> && !Converts<const char *, PyException> && !Converts<CString, CStringView> && !Converts<Bytes, CString>);
TY(explicit_regex, !Converts<U8String, U8Regex>);
TY(loopsume_lvalue, !__is_constructible(Loopsume<Range>, Range &) && __is_constructible(Loopsume<Range>, Range &&));

// ---- const objects hand out const elements -----------------------------------
template<class R> constexpr bool frozen = !__is_assignable(R, Cls) && !__is_assignable(R, Cls &&);
template<class T> const T &cv() noexcept;
template<class C> struct ConstAccess {
    TY(const_index, frozen<decltype(cv<C>()[0])>);
    TY(index, !frozen<decltype(dv<C &>()[0])>);
};
template<class C> struct ConstEnds {
    TY(const_front, frozen<decltype(cv<C>().front())>);
    TY(const_back, frozen<decltype(cv<C>().back())>);
};
template struct ConstAccess<Vector<Cls>>;
template struct ConstAccess<FixedVector<Cls, 3>>;
template struct ConstAccess<unique_arr<Cls>>;
template struct ConstAccess<Span<Cls>>;
template struct ConstEnds<Vector<Cls>>;
template struct ConstEnds<FixedVector<Cls, 3>>;
TY(const_vector_at, frozen<decltype(cv<Vector<Cls>>().at(0))> && frozen<decltype(cv<Vector<Cls>>().unsafe_at(0))>);
TY(const_vector_cbegin, frozen<decltype(*cv<Vector<Cls>>().cbegin())> && frozen<decltype(*cv<Vector<Cls>>().cend())>);
TY(const_vector_span, frozen<decltype(*cv<Vector<Cls>>().span().begin())>);
TY(const_fixed_unsafe_at, frozen<decltype(cv<FixedVector<Cls, 3>>().unsafe_at(0))>);
TY(const_fixed_span, frozen<decltype(*cv<FixedVector<Cls, 3>>().span().begin())>);
TY(const_span_at, frozen<decltype(cv<Span<Cls>>().at(0))> && frozen<decltype(*cv<Span<Cls>>().cbegin())>);
TY(const_arr_get, frozen<decltype(*cv<unique_arr<Cls>>().get())> && frozen<decltype(cv<unique_arr<Cls>>().unsafe_at(0))>);
TY(const_ptr_arrow, frozen<decltype(*cv<unique_ptr<Cls>>().operator->())>);
TY(const_optional, frozen<decltype(*cv<Optional<Cls>>())> && frozen<decltype(cv<Optional<Cls>>().value())> && frozen<decltype(*cv<Optional<Cls>>().operator->())>);
TY(const_optional_ptr, frozen<decltype(*cv<Optional<Cls *>>())> && frozen<decltype(*cv<Optional<Cls *>>().value())> && frozen<decltype(*cv<Optional<Cls *>>().operator->())>);
TY(const_variant, frozen<decltype(cv<Variant<int, Cls>>().get<Cls>())> && frozen<decltype(*cv<Variant<int, Cls>>().get_if<Cls>())>);
TY(const_stack_top, frozen<decltype(cv<Stack<Cls>>().top())>);
TY(const_unexpected, frozen<decltype(cv<Unexpected<Cls>>().error())>);
TY(const_bytes_data, !__is_assignable(decltype(*cv<Bytes>().data()), char) && !__is_assignable(decltype(*cv<Bytes>().begin()), char) && !__is_assignable(decltype(cv<Bytes>()[0]), char) && !__is_assignable(decltype(*cv<Bytes>().span().begin()), char));
TY(const_text_data, !__is_assignable(decltype(*dv<CString &>().c_str()), char) && !__is_assignable(decltype(*dv<CString &>().data()), char) && !__is_assignable(decltype(*dv<U8String &>().c_str()), char));
TY(views_are_read_only, !__is_assignable(decltype(*dv<CStringView &>().data()), char) && !__is_assignable(decltype(dv<CStringView &>()[0]), char) && !__is_assignable(decltype(*dv<CStringView &>().begin()), char) &&
                            !__is_assignable(decltype(*dv<ZStringView &>().c_str()), char) && !__is_assignable(decltype(*dv<U8StringView &>().data()), char));
TY(const_fixedcstring, !__is_assignable(decltype(cv<FixedCString<4>>()[0]), char) && !__is_assignable(decltype(*cv<FixedCString<4>>().c_str()), char));
TY(mmapping_read_only, !__is_assignable(decltype(*dv<MMapping &>().span().begin()), char));
// mutating members do not apply to const objects
template<class T> concept PushC = requires(const T &c, Cls v) { c.push_back(v); };
template<class T> concept ClearC = requires(const T &c) { c.clear(); };
template<class T> concept PopC = requires(const T &c) { c.pop_back(); };
TY(const_no_push, !PushC<Vector<Cls>> && !PushC<FixedVector<Cls, 3>>);
TY(const_no_clear, !ClearC<Vector<Cls>> && !ClearC<Bytes> && !ClearC<CString> && !ClearC<HashMap<int, int>>);
TY(const_no_pop, !PopC<Vector<Cls>> && !PopC<FixedVector<Cls, 3>> && !PopC<Bytes> && !PopC<CString> && !PopC<U8String>);
template<class M> concept MapMut = requires(const M &c, int k) { c.insert(k, k); } || requires(const M &c, int k) { c.remove(k); } || requires(const M &c, int k) { c[k]; } || requires(const M &c, int k) { c.at(k); };
TY(const_no_map_edit, !MapMut<HashMap<int, int>>);
