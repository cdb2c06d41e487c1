// C22: mean, RMS, median, standard deviation and accumulation equal their definitions.
#include "C22_machine.h"
namespace {
const bool cfg = [] {
    pbt::config().rule = "at least 3 elements that are not all tiny integers";
    pbt::config().assumptions = { "squares and sums representable in the result type",
        "error bound: 4 (n + 8) units of rounding of the result type relative to the largest element (two-pass accuracy)",
        "up to 60 elements (rarely 400, more rarely up to 131000)", "no NaN elements for the median" };
    return true;
}();

// Integer result types are used for the sum and the division (documented).
PBT_FACET(integer_result, 200000, 3000000)
{
    std::size_t n = 1;
    while (c.more(n, 6, 40)) {}
    std::vector<int> v;
    long long sum = 0;
    const bool many = c.chance(1, 2000);
    const int limit = many ? 1000 : 1000000;
    for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<int>(c.range(-limit, limit)));
    if (many) { v = strs::sometimes_huge(c, v, 1); n = v.size(); }
    for (int x : v) sum += x;
    if (n > 2) c.nontrivial();
    const int want = static_cast<int>(sum / static_cast<long long>(n));
    PBT_CHECK(c, gul14::mean<int>(v) == want, "mean<int> " << gul14::mean<int>(v) << " expected " << want << " for " << pbt::show(v));
    PBT_CHECK(c, gul14::mean<long long>(v) == want, "mean<long long> for " << pbt::show(v));
    PBT_CHECK(c, gul14::accumulate<long long>(v, [](long long a, int b) { return a + b; }) == sum, "accumulate<long long> for " << pbt::show(v));
    const auto horner = [](unsigned long long a, int b) { return a * 31u + static_cast<unsigned long long>(b); };
    PBT_CHECK(c, gul14::accumulate<unsigned long long>(v.begin(), v.end(), horner) == std::accumulate(v.begin(), v.end(), 0ull, horner), "accumulate for " << pbt::show(v));
    // pointers as iterators, sub-ranges
    const std::size_t from = c.below(n), to = from + 1 + c.below(n - from);
    long long part = 0;
    for (std::size_t i = from; i < to; ++i) part += v[i];
    const double got = gul14::mean(v.data() + from, v.data() + to);
    PBT_CHECK(c, got == static_cast<double>(part) / static_cast<double>(to - from), "sub-range mean of " << pbt::show(v) << " [" << from << "," << to << ")");
}

// The median does not overflow for values close to the limits; NaN and infinity propagate in the mean.
PBT_FACET(extremes, 200000, 3000000)
{
    const double mx = std::numeric_limits<double>::max();
    std::size_t n = 1;
    while (c.more(n, 4, 20)) {}
    std::vector<double> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back((c.coin() ? -1 : 1) * c.pick<double>({ mx, mx / 2, mx / 3, 1.0, 0.0, mx * 0.999, 5e-324, 2.2e-308 }));
    auto s = v;
    std::sort(s.begin(), s.end());
    const double md = gul14::median(v);
    c.nontrivial();
    const Q a = s[(n - 1) / 2], b = s[n / 2];
    const Q want = (a + b) / 2;
    PBT_CHECK(c, near(md, want, static_cast<Q>(4.5e-16) * (qabs(a) + qabs(b)) + static_cast<Q>(1e-323)), "median " << pbt::show(md) << " expected " << pbt::show(ld(want)) << " for " << pbt::show(v));
    // special values
    std::vector<double> w;
    for (std::size_t i = 0; i < n; ++i) w.push_back(static_cast<double>(c.range(-5, 5)));
    const auto kind = c.below(3);
    const double special = kind == 0 ? std::numeric_limits<double>::quiet_NaN() : kind == 1 ? HUGE_VAL : -HUGE_VAL;
    w.insert(w.begin() + static_cast<std::ptrdiff_t>(c.below(n + 1)), special);
    const double m = gul14::mean(w), q = gul14::rms(w), sg = gul14::standard_deviation(w);
    if (kind == 0) PBT_CHECK(c, m != m && q != q && sg != sg, "NaN must propagate for " << pbt::show(w));
    else PBT_CHECK(c, m == special && q == HUGE_VAL && sg != sg, "infinity must propagate for " << pbt::show(w) << ": " << m << " " << q << " " << sg);
}
} // namespace
