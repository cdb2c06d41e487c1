// C25: GCD and LCM are correct for all integers.
#include "pbt.h"
#include "gul14/gcd_lcm.h"
using pbt::Ctx;
namespace {
const bool cfg = [] {
    pbt::config().rule = "both numbers are non-zero and their greatest common divisor is larger than 1 (exhaustive facets: always)";
    pbt::config().assumptions = { "the mathematical result is representable in the common type (as documented)",
        "8-bit pairs exhaustively, wider types by generation" };
    return true;
}();
using U = unsigned __int128;
using I = __int128;

U ref_gcd(U a, U b) { while (b) { U t = a % b; a = b; b = t; } return a; }
std::string str(U v) { std::string s; do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v); return s; }

template <typename A, typename B>
void check(Ctx& c, A a, B b)
{
    using C = std::common_type_t<A, B>;
    static_assert(std::is_same<decltype(gul14::gcd(a, b)), C>::value, "type of gcd");
    static_assert(std::is_same<decltype(gul14::lcm(a, b)), C>::value, "type of lcm");
    const U ua = a < 0 ? static_cast<U>(-static_cast<I>(a)) : static_cast<U>(a);
    const U ub = b < 0 ? static_cast<U>(-static_cast<I>(b)) : static_cast<U>(b);
    const U g = ref_gcd(ua, ub);
    const U l = g ? ua / g * ub : 0;
    const U top = static_cast<U>(std::numeric_limits<C>::max());
    auto d = [&] { return std::to_string(a) + ", " + std::to_string(b); };
    c.note_f([&] { return d(); });
    if (g > 1 && a != 0 && b != 0) c.nontrivial();
    if (g <= top)
    {
        const C r = gul14::gcd(a, b), r2 = gul14::gcd(b, a);
        PBT_CHECK(c, r >= 0 && static_cast<U>(r) == g, "gcd(" << d() << ") = " << std::to_string(r) << ", expected " << str(g));
        PBT_CHECK(c, r == r2, "gcd(" << d() << ") depends on the order: " << std::to_string(r) << ", " << std::to_string(r2));
    }
    if (l <= top)
    {
        const C r = gul14::lcm(a, b), r2 = gul14::lcm(b, a);
        PBT_CHECK(c, r >= 0 && static_cast<U>(r) == l, "lcm(" << d() << ") = " << std::to_string(r) << ", expected " << str(l));
        PBT_CHECK(c, r == r2, "lcm(" << d() << ") depends on the order: " << std::to_string(r) << ", " << std::to_string(r2));
        c.label_if(l > 0, "positive representable lcm");
    }
}

template <typename T>
void exhaustive(Ctx& c)
{
    // by the definition itself: try every candidate
    const int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    const int a = lo + static_cast<int>(c.below(256));
    c.note_f([&] { return "a = " + std::to_string(a); });
    for (int b = lo; b <= hi; ++b)
    {
        int g = 0, l = 0;
        for (int k = 256; k >= 1 && (a || b); --k) if (a % k == 0 && b % k == 0) { g = k; break; }
        if (a && b) for (int k = std::abs(a); k <= hi; k += std::abs(a)) if (k % b == 0) { l = k; break; }
        const T x = static_cast<T>(a), y = static_cast<T>(b);
        if (g <= hi) PBT_CHECK(c, gul14::gcd(x, y) == g, "gcd(" << a << ", " << b << ") = " << int(gul14::gcd(x, y)) << ", expected " << g << " (8 bit)");
        if (l || !a || !b) PBT_CHECK(c, gul14::lcm(x, y) == l, "lcm(" << a << ", " << b << ") = " << int(gul14::lcm(x, y)) << ", expected " << l << " (8 bit)");
    }
    c.nontrivial();
}
PBT_FACET(exhaustive_int8, 6000, 20000) { exhaustive<std::int8_t>(c); }
PBT_FACET(exhaustive_uint8, 6000, 20000) { exhaustive<std::uint8_t>(c); }

template <typename A, typename B>
void generated(Ctx& c)
{
    using C = std::common_type_t<A, B>;
    switch (c.below(4))
    {
    case 0: check<A, B>(c, c.integer<A>(), c.integer<B>()); break;
    case 1: // a common factor
    {
        const std::uint64_t g = 1 + (c.coin() ? c.below(30) : c.u64() >> c.below(64));
        const std::uint64_t x = g * (1 + c.below(40)), y = g * (1 + c.below(40));
        A a = static_cast<A>(x); B b = static_cast<B>(y);
        if (std::is_signed<A>::value && c.coin()) a = static_cast<A>(0 - static_cast<std::make_unsigned_t<A>>(a));
        if (std::is_signed<B>::value && c.coin()) b = static_cast<B>(0 - static_cast<std::make_unsigned_t<B>>(b));
        check<A, B>(c, a, b);
        break;
    }
    case 2: // products of small primes; consecutive Fibonacci numbers are the worst case of the algorithm
    {
        std::uint64_t x = 1, y = 1;
        for (std::size_t n = 0; c.more(n, 5, 20);) { x *= c.pick<unsigned>({ 2, 3, 5, 7, 11, 13 }); y *= c.pick<unsigned>({ 1, 2, 3, 5, 7 }); }
        check<A, B>(c, static_cast<A>(x), static_cast<B>(y));
        break;
    }
    default:
    {
        std::uint64_t x = 1, y = 1;
        for (auto n = c.below(90); n > 0 && x + y <= static_cast<std::uint64_t>(std::numeric_limits<C>::max()); --n) { y += x; std::swap(x, y); }
        check<A, B>(c, static_cast<A>(x), static_cast<B>(y));
    }
    }
}
PBT_FACET(same_type, 500000, 10000000)
{
    switch (c.below(6))
    {
    case 0: generated<int, int>(c); break;
    case 1: generated<unsigned, unsigned>(c); break;
    case 2: generated<std::int64_t, std::int64_t>(c); break;
    case 3: generated<std::uint64_t, std::uint64_t>(c); break;
    case 4: generated<std::int16_t, std::int16_t>(c); break;
    default: generated<std::uint16_t, std::uint16_t>(c); break;
    }
}
PBT_FACET(mixed_types, 500000, 10000000)
{
    switch (c.below(6))
    {
    case 0: generated<int, std::int64_t>(c); break;
    case 1: generated<std::int64_t, std::int8_t>(c); break;
    case 2: generated<std::uint8_t, std::uint64_t>(c); break;
    case 3: generated<unsigned, std::uint16_t>(c); break;
    case 4: generated<std::int16_t, int>(c); break;
    default: generated<long, long long>(c); break;
    }
}
} // namespace
