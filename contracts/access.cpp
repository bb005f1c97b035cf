#include "vk.hpp"
#if EPOCH == 2026
#include "pystd2026.cpp"
#else
#include "pystd2025.cpp"
#endif
using namespace V;

// ---- C01: checked element access ----------------------------------------
// p: object under access; n: number of live elements; expr: the access;
// where: address the accessed element must have.
#define ACCESS(NAME, TYPE, N, BASE)                                                                \
    CONTRACT(C01_##NAME##_index)(TYPE &c, size_t i) {                                              \
        auto *p = &c[i];                                                                           \
        REQUIRE(i < (N));                                                                          \
        REQUIRE(p == (BASE) + i);                                                                  \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C01_##NAME##_index_ok)(TYPE &c, size_t i) {                                           \
        ASSUME(i < (N));                                                                           \
        NO_THROW((void)c[i]);                                                                      \
        REACH();                                                                                   \
    }
#define ACCESS_AT(NAME, TYPE, N, BASE)                                                             \
    CONTRACT(C01_##NAME##_at)(TYPE &c, size_t i) {                                                 \
        auto *p = &c.at(i);                                                                        \
        REQUIRE(i < (N));                                                                          \
        REQUIRE(p == (BASE) + i);                                                                  \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C01_##NAME##_at_ok)(TYPE &c, size_t i) {                                              \
        ASSUME(i < (N));                                                                           \
        NO_THROW((void)c.at(i));                                                                   \
        REACH();                                                                                   \
    }
#define ENDS(NAME, TYPE, N, BASE)                                                                  \
    CONTRACT(C01_##NAME##_front)(TYPE &c) {                                                        \
        auto *p = &c.front();                                                                      \
        REQUIRE((N) > 0);                                                                          \
        REQUIRE(p == (BASE));                                                                      \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C01_##NAME##_back)(TYPE &c) {                                                         \
        auto *p = &c.back();                                                                       \
        REQUIRE((N) > 0);                                                                          \
        REQUIRE(p == (BASE) + ((N)-1));                                                            \
        REACH();                                                                                   \
    }                                                                                              \
    CONTRACT(C01_##NAME##_ends_ok)(TYPE &c) {                                                      \
        ASSUME((N) > 0);                                                                           \
        NO_THROW((void)c.front());                                                                 \
        NO_THROW((void)c.back());                                                                  \
        REACH();                                                                                   \
    }

using VecE = Vector<El>;
ACCESS(vector, VecE, c.size(), c.data())
ACCESS_AT(vector, VecE, c.size(), c.data())
ENDS(vector, VecE, c.size(), c.data())
ACCESS(cvector, const VecE, c.size(), c.begin())
ENDS(cvector, const VecE, c.size(), c.begin())
IF26(ACCESS_AT(cvector, const VecE, c.size(), c.begin()))
using ArrE = unique_arr<El>;
ACCESS(unique_arr, ArrE, c.size(), c.get())
ACCESS(cunique_arr, const ArrE, c.size(), c.get())

#if EPOCH == 2026
using FixE = FixedVector<El, 7>;
ACCESS(fixedvector, FixE, c.size(), c.data())
ENDS(fixedvector, FixE, c.size(), c.data())
ACCESS(cfixedvector, const FixE, c.size(), c.begin())
ENDS(cfixedvector, const FixE, c.size(), c.begin())
using SpE = Span<El>;
ACCESS(span, SpE, c.size(), c.data())
ACCESS(cspan, const SpE, c.size(), c.begin())
ACCESS_AT(span, SpE, c.size(), c.begin())
#endif

CONTRACT(C01_bytes_index)(const Bytes &b, size_t i) {
    ASSUME(b.size() <= b.capacity());
    char x = b[i];
    REQUIRE(i < b.size());
    REQUIRE(x == b.data()[i]);
    REACH();
}
CONTRACT(C01_bytes_index_ok)(const Bytes &b, size_t i) {
    ASSUME(b.size() <= b.capacity());
    ASSUME(i < b.size());
    NO_THROW((void)b[i]);
    REACH();
}
CONTRACT(C01_bytes_front)(const Bytes &b) {
    ASSUME(b.size() <= b.capacity());
    char x = b.front();
    REQUIRE(b.size() > 0);
    REQUIRE(x == b.data()[0]);
    REACH();
}
