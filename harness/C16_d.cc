#include "C16_machine.h"
PBT_FACET(utf32, 450000, 3600000) { ViewCheck<char32_t> x{ c, {}, {} }; x.run(); }

// The character traits behind the views, against the standard ones.
template <typename Ch>
static void traits_case(pbt::Ctx& c)
{
    using G = gul14::char_traits<Ch>;
    using T = std::char_traits<Ch>;
    const auto alpha = strs::alphabet(c);
    auto gen = [&] {
        const auto s = strs::from(c, alpha, strs::length(c, 200));
        std::basic_string<Ch> w;
        for (char ch : s) w += static_cast<Ch>(static_cast<unsigned char>(ch) + (sizeof(Ch) > 1 && c.chance(1, 8) ? 0x100 : 0));
        return w;
    };
    const auto a = gen();
    auto b = c.chance(1, 2) ? a : gen();
    if (!b.empty() && c.chance(1, 2)) b[c.below(b.size())] = static_cast<Ch>(c.below(sizeof(Ch) > 1 ? 700 : 256));
    const std::size_t n = c.below(std::min(a.size(), b.size()) + 1);
    c.note_f([&] { return "traits of lengths " + std::to_string(a.size()) + ", " + std::to_string(b.size()) + ", n = " + std::to_string(n); });
    if (n > 1) c.nontrivial();
    const strs::BasicBuf<Ch> ba(a), bb(b);
    auto sign = [](int x) { return (x > 0) - (x < 0); };
    PBT_CHECK(c, sign(G::compare(ba.data(), bb.data(), n)) == sign(T::compare(a.data(), b.data(), n)), "compare()");
    const Ch ch = static_cast<Ch>(c.chance(1, 2) && !a.empty() ? a[c.below(a.size())] : static_cast<Ch>(c.below(256)));
    const Ch* f = G::find(ba.data(), n, ch);
    const Ch* e = T::find(a.data(), n, ch);
    PBT_CHECK(c, (f == nullptr) == (e == nullptr), "find()");
    if (f != nullptr) PBT_CHECK(c, f - ba.data() == e - a.data(), "find() position");
    auto z = a; z += Ch{};
    const strs::BasicBuf<Ch> bz(z);
    PBT_CHECK(c, G::length(bz.data()) == T::length(z.data()), "length()");
    Ch x{}; G::assign(x, ch);
    PBT_CHECK(c, x == ch, "assign()");
    for (int k = 0; k < 4 && n > 0; ++k)
    {
        const Ch p = a[c.below(n)], q = b[c.below(n)];
        PBT_CHECK(c, G::lt(p, q) == T::lt(p, q) && G::eq(p, q) == T::eq(p, q), "lt()/eq()");
    }
}
PBT_FACET(traits, 200000, 2000000)
{
    switch (c.below(4))
    {
    case 0: traits_case<char>(c); break;
    case 1: traits_case<wchar_t>(c); break;
    case 2: traits_case<char16_t>(c); break;
    default: traits_case<char32_t>(c); break;
    }
}
