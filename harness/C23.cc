// C23: minimum, maximum and outlier removal are exact for every sequence.
#include "STAT_gen.h"
using namespace gstat;
namespace {
const bool cfg = [] {
    pbt::config().rule = "at least 3 elements, not all equal";
    pbt::config().assumptions = { "outlier removal: finite numbers; where two elements are equally far from the mean (within rounding), either may go",
        "up to 60 elements, minimum and maximum rarely up to 131000" };
    return true;
}();

template <typename T>
bool same(T a, T b) { return a == b || (a != a && b != b); }

template <typename T> struct Limits
{
    using L = std::numeric_limits<T>;
    static T empty_min() { return L::has_quiet_NaN ? L::quiet_NaN() : L::max(); }
    static T empty_max() { return L::has_quiet_NaN ? L::quiet_NaN() : L::lowest(); }
};

template <typename T, typename Cont, typename Acc>
void check_minmax(Ctx& c, const Cont& k, Acc acc, const std::vector<T>& v)
{
    T lo = Limits<T>::empty_min(), hi = Limits<T>::empty_max();
    bool any = false;
    for (auto x : v)
        if (x == x)
        {
            if (!any) lo = hi = x;
            any = true;
            if (x < lo) lo = x;
            if (hi < x) hi = x;
        }
    const T a = gul14::minimum(k, acc), b = gul14::maximum(k, acc);
    const auto mm = gul14::min_max(k, acc);
    const T a2 = gul14::minimum(k.begin(), k.end(), acc), b2 = gul14::maximum(k.begin(), k.end(), acc);
    const auto mm2 = gul14::min_max(k.begin(), k.end(), acc);
    PBT_CHECK(c, same(a, lo) && same(b, hi), "minimum " << pbt::show(a) << " maximum " << pbt::show(b) << ", expected " << pbt::show(lo) << " and " << pbt::show(hi) << " for " << pbt::show(v));
    PBT_CHECK(c, same(mm.min, lo) && same(mm.max, hi), "min_max gives " << pbt::show(mm.min) << " and " << pbt::show(mm.max) << ", expected " << pbt::show(lo) << " and " << pbt::show(hi) << " for " << pbt::show(v));
    PBT_CHECK(c, same(a2, lo) && same(b2, hi) && same(mm2.min, lo) && same(mm2.max, hi), "iterator variants differ for " << pbt::show(v));
}

template <typename T, bool Wide>
void minmax(Ctx& c, bool specials)
{
    std::size_t n = 0;
    while (c.more(n, 6, 60)) {}
    bool interesting = false;
    auto v = numbers<T>(c, n, interesting);
    if (specials && std::numeric_limits<T>::has_infinity)
    {
        const unsigned den = 1 + static_cast<unsigned>(c.below(4));
        for (auto& x : v)
            if (c.chance(1, den))
                x = c.pick<T>({ std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                    std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::denorm_min(), T(0), -T(0) });
    }
    else if (specials)
        for (auto& x : v) if (c.chance(1, 3)) x = c.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
    v = strs::sometimes_huge(c, v, 3000);
    if (v.size() > n && c.coin()) v.push_back(c.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest());
    n = v.size();
    c.note_f([&] { return "values " + pbt::show(v); });
    if (n >= 3 && !std::equal(v.begin() + 1, v.end(), v.begin())) c.nontrivial();
    c.label_if(n == 0, "empty");
    if (c.coin())
        in_container<Wide>(c, v, [&](const auto& k) {
            check_minmax<T>(c, k, [](const T& x) { return x; }, v);
            const auto mm = gul14::min_max(k);
            PBT_CHECK(c, same(mm.min, gul14::minimum(k)) && same(mm.max, gul14::maximum(k)) && same(mm.min, gul14::min_max(k, [](const T& x) { return x; }).min), "default accessor");
        });
    else
    {
        std::vector<Elem<T>> w;
        for (auto x : v) w.push_back({ static_cast<std::uint32_t>(w.size()), x });
        in_container<Wide>(c, w, [&](const auto& k) { check_minmax<T>(c, k, [](const Elem<T>& e) -> const T& { return e.val; }, v); });
    }
}

PBT_FACET(min_max_floating, 600000, 8000000)
{
    const bool s = c.chance(2, 3);
    switch (c.below(3))
    {
    case 0: minmax<double, true>(c, s); break;
    case 1: minmax<float, false>(c, s); break;
    default: minmax<long double, false>(c, s); break;
    }
}

PBT_FACET(min_max_integers, 600000, 8000000)
{
    const bool s = c.chance(1, 3);
    switch (c.below(7))
    {
    case 0: minmax<int, true>(c, s); break;
    case 1: minmax<unsigned, false>(c, s); break;
    case 2: minmax<std::int64_t, false>(c, s); break;
    case 3: minmax<std::uint64_t, false>(c, s); break;
    case 4: minmax<std::int8_t, false>(c, s); break;
    case 5: minmax<std::uint8_t, false>(c, s); break;
    default: minmax<std::uint16_t, false>(c, s); break;
    }
}

} // namespace
