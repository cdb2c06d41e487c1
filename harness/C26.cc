// C26: bit manipulation touches exactly the addressed bit.
#include "pbt.h"
#include "gul14/bit_manip.h"
using pbt::Ctx;
namespace {
const bool cfg = [] {
    pbt::config().rule = "value and bit are arbitrary (exhaustive facets: always; generated: value neither 0 nor all ones)";
    pbt::config().assumptions = { "bit numbers below the width of the type (larger ones are excluded by assertion)",
        "8- and 16-bit types exhaustively, wider types by generation" };
    return true;
}();

// Bits are compared one by one in an independently obtained bit string.
template <typename T>
std::string bits_of(T v)
{
    unsigned char raw[sizeof(T)];
    std::memcpy(raw, &v, sizeof(T));
    std::string s;
    for (std::size_t i = 0; i < sizeof(T); ++i)
        for (unsigned k = 0; k < 8; ++k) s += (raw[i] / (1u << k)) % 2 ? '1' : '0'; // little endian machine
    return s;
}

template <typename T>
void check(Ctx& c, T v, unsigned bit)
{
    static_assert(std::is_same<decltype(gul14::bit_set(v, bit)), T>::value && std::is_same<decltype(gul14::bit_reset(v, bit)), T>::value
        && std::is_same<decltype(gul14::bit_flip(v, bit)), T>::value && std::is_same<decltype(gul14::bit_set<T>(bit)), T>::value, "result type");
    const std::string b = bits_of(v);
    std::string on = b, off = b, mask(b.size(), '0');
    on[bit] = '1';
    off[bit] = '0';
    mask[bit] = '1';
    auto d = [&] { return "value " + std::to_string(v) + " (" + std::to_string(sizeof(T) * 8) + " bit), bit " + std::to_string(bit); };
    const T s = gul14::bit_set(v, bit), r = gul14::bit_reset(v, bit), f = gul14::bit_flip(v, bit), m = gul14::bit_set<T>(bit);
    PBT_CHECK(c, bits_of(s) == on, "bit_set: " << d() << " gives " << std::to_string(s));
    PBT_CHECK(c, bits_of(r) == off, "bit_reset: " << d() << " gives " << std::to_string(r));
    PBT_CHECK(c, bits_of(f) == (b[bit] == '1' ? off : on), "bit_flip: " << d() << " gives " << std::to_string(f));
    PBT_CHECK(c, bits_of(m) == mask, "bit_set<T>(bit): " << d() << " gives " << std::to_string(m));
    PBT_CHECK(c, gul14::bit_test(v, bit) == (b[bit] == '1'), "bit_test: " << d());
    PBT_CHECK(c, gul14::bit_test(s, bit) && !gul14::bit_test(r, bit) && gul14::bit_test(f, bit) != gul14::bit_test(v, bit), "bit_test after a change: " << d());
    PBT_CHECK(c, gul14::bit_flip(f, bit) == v && (b[bit] == '1' ? gul14::bit_set(r, bit) : gul14::bit_reset(s, bit)) == v, "changing back: " << d());
}

template <typename T>
void exhaustive8(Ctx& c)
{
    for (int v = std::numeric_limits<T>::min(); v <= std::numeric_limits<T>::max(); ++v)
        for (unsigned b = 0; b < 8; ++b) check<T>(c, static_cast<T>(v), b);
    c.nontrivial();
}
PBT_FACET(exhaustive_8_bit, 48, 96) { switch (c.below(3)) { case 0: exhaustive8<std::int8_t>(c); break; case 1: exhaustive8<std::uint8_t>(c); break; default: exhaustive8<char>(c); break; } }

template <typename T>
void rows16(Ctx& c)
{
    const unsigned row = static_cast<unsigned>(c.below(256));
    c.note_f([&] { return "values " + std::to_string(row * 256) + " to " + std::to_string(row * 256 + 255) + " as 16-bit type"; });
    for (unsigned k = 0; k < 256; ++k)
    {
        const T v = static_cast<T>(row * 256 + k);
        for (unsigned b = 0; b < 16; ++b) check<T>(c, v, b);
    }
    c.nontrivial();
}
PBT_FACET(exhaustive_16_bit_signed, 3000, 6000) { rows16<std::int16_t>(c); }
PBT_FACET(exhaustive_16_bit_unsigned, 3000, 6000) { rows16<std::uint16_t>(c); }

template <typename T>
void wide(Ctx& c)
{
    const T v = c.coin() ? c.integer<T>() : static_cast<T>(c.u64());
    const unsigned bit = static_cast<unsigned>(c.below(sizeof(T) * 8));
    if (v != 0 && static_cast<T>(~v) != 0) c.nontrivial();
    c.note_f([&] { return std::to_string(v) + " bit " + std::to_string(bit); });
    check<T>(c, v, bit);
    // a history of changes: the last one of every bit wins
    std::string model = bits_of(v);
    T x = v;
    for (std::size_t n = 0; c.more(n, 6, 40);)
    {
        const unsigned b = static_cast<unsigned>(c.below(sizeof(T) * 8));
        switch (c.below(3))
        {
        case 0: x = gul14::bit_set(x, b); model[b] = '1'; break;
        case 1: x = gul14::bit_reset(x, b); model[b] = '0'; break;
        default: x = gul14::bit_flip(x, b); model[b] = model[b] == '1' ? '0' : '1'; break;
        }
    }
    PBT_CHECK(c, bits_of(x) == model, "after a history of changes of " << std::to_string(v) << ": " << bits_of(x) << " expected " << model);
}
PBT_FACET(wide_types, 300000, 6000000)
{
    switch (c.below(7))
    {
    case 0: wide<int>(c); break;
    case 1: wide<unsigned>(c); break;
    case 2: wide<std::int64_t>(c); break;
    case 3: wide<std::uint64_t>(c); break;
    case 4: wide<long long>(c); break;
    case 5: wide<unsigned long long>(c); break;
    default: // the default type of the mask is unsigned int
    {
        const unsigned b = static_cast<unsigned>(c.below(32));
        static_assert(std::is_same<decltype(gul14::bit_set(b)), unsigned>::value, "default type");
        std::string mask(32, '0');
        mask[b] = '1';
        PBT_CHECK(c, bits_of(gul14::bit_set(b)) == mask, "bit_set(" << b << ")");
    }
    }
}
PBT_FACET(endianness, 10, 10)
{
    const std::uint32_t v = 0x01020304u;
    unsigned char raw[4];
    std::memcpy(raw, &v, 4);
    const bool little = raw[0] == 4;
    PBT_CHECK(c, gul14::is_little_endian() == little && gul14::is_big_endian() == !little, "endianness");
    PBT_CHECK(c, (gul14::endian::native == gul14::endian::little) == little && (gul14::endian::native == gul14::endian::big) == !little, "endian::native");
}
} // namespace
