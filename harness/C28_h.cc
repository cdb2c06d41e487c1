#include "tracked.h"
#include "gul14/variant.h"
// C28: more alternatives than a byte can count.
namespace {
template <std::size_t I> struct K { int v; explicit K(int x) : v(x) {} };
template <typename S> struct Many;
template <std::size_t... I> struct Many<std::index_sequence<I...>> { using V = gul14::variant<K<I>...>; };
using V = Many<std::make_index_sequence<270>>::V;
template <std::size_t I> void one(pbt::Ctx& c, V& x, int v)
{
    x = V(gul14::in_place_index_t<I>{}, v);
    PBT_CHECK(c, x.index() == I && !x.valueless_by_exception() && gul14::get_if<I>(&x) && gul14::get<I>(x).v == v && gul14::get_if<3>(&x) == nullptr, "alternative " << I << " of 270: index " << x.index());
    V y(x);
    PBT_CHECK(c, y.index() == I && gul14::get<I>(y).v == v, "copy of alternative " << I << " of 270: index " << y.index());
}
PBT_FACET(many_alternatives, 2000, 20000)
{
    V x(gul14::in_place_index_t<0>{}, 1);
    c.nontrivial();
    for (std::size_t n = 0; c.more(n, 3, 10);)
    {
        const int v = static_cast<int>(c.below(100));
        switch (c.below(8))
        {
        case 0: one<0>(c, x, v); break;
        case 1: one<1>(c, x, v); break;
        case 2: one<127>(c, x, v); break;
        case 3: one<128>(c, x, v); break;
        case 4: one<254>(c, x, v); break;
        case 5: one<255>(c, x, v); break;
        case 6: one<256>(c, x, v); break;
        default: one<269>(c, x, v); break;
        }
    }
}
} // namespace
