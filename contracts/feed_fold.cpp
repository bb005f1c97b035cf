// C20, decided by the optimiser: the obligations below fold away for arbitrary memory contents.
#include "vk.hpp"
#include "pystd2026.cpp"
using namespace V;
#define FOLD(name) extern "C" void VK__##name

// The library's hash algorithm is a function of the bytes alone, however they are cut.
FOLD(C20_simple_cut)(const char *p) {
    SimpleHash a, b;
    a.feed_bytes(p, 4);
    b.feed_bytes(p, 1);
    b.feed_bytes(p + 1, 0);
    b.feed_bytes(p + 1, 3);
    REQUIRE(a.get_hash_value() == b.get_hash_value());
}
FOLD(C20_simple_reset)(const char *p, const char *q) {
    SimpleHash a, b;
    b.feed_bytes(q, 3);
    b.reset();
    a.feed_bytes(p, 3);
    b.feed_bytes(p, 3);
    REQUIRE(a.get_hash_value() == b.get_hash_value());
}
FOLD(C20_simple_empty)(const char *p, const char *q) {
    SimpleHash a, b;
    a.feed_bytes(q, 3);
    const size_t v = a.get_hash_value();
    a.feed_bytes(p, 0);
    REQUIRE(a.get_hash_value() == v && b.get_hash_value() == 0);
}
// The hash of text is that of its characters.
FOLD(C20_alike)(const char *p) {
    Hasher<> a, b;
    a.feed_hash(CStringView(p, 3));
    b.feed_bytes(p, 3);
    REQUIRE(a.get_hash_value() == b.get_hash_value());
}
