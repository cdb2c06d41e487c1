// C22: mean, RMS, median, standard deviation and accumulation equal their definitions.
#include "STAT_gen.h"
#include <numeric>
using namespace gstat;
namespace {
using Q = __float128;
long double ld(Q q) { return static_cast<long double>(q); }
Q qabs(Q a) { return a < 0 ? -a : a; }
Q qsqrt(Q a)
{
    if (!(a > 0)) return 0;
    Q x = std::sqrt(static_cast<long double>(a));
    for (int i = 0; i < 3; ++i) x = (x + a / x) / 2;
    return x;
}

struct Ref { Q mean{ 0 }, rms{ 0 }, sigma{ 0 }, maxabs{ 0 }; };
template <typename T>
Ref reference(const std::vector<T>& v)
{
    Ref r;
    Q s = 0, s2 = 0;
    for (auto x : v) { Q q = x; s += q; s2 += q * q; if (qabs(q) > r.maxabs) r.maxabs = qabs(q); }
    const Q n = static_cast<Q>(v.size());
    r.mean = s / n;
    r.rms = qsqrt(s2 / n);
    Q d = 0;
    for (auto x : v) { Q q = x; d += (q - r.mean) * (q - r.mean); }
    if (v.size() > 1) r.sigma = qsqrt(d / (n - 1));
    return r;
}

template <typename R>
bool near(R got, Q want, Q tol) { return got == got && qabs(static_cast<Q>(got) - want) <= tol; }

// All statistics of one container with result type R, through accessor acc yielding T.
template <typename R, typename T, typename Cont, typename Acc>
void check_all(Ctx& c, const Cont& k, Acc acc, const std::vector<T>& v)
{
    const std::size_t n = v.size();
    const R m = gul14::mean<R>(k, acc);
    const R q = gul14::rms<R>(k, acc);
    const R md = gul14::median<R>(k, acc);
    const auto sd = gul14::standard_deviation<R>(k, acc);
    // iterator variants give the same
    const R m2 = gul14::mean<R>(k.begin(), k.end(), acc);
    const R q2 = gul14::rms<R>(k.begin(), k.end(), acc);
    const R md2 = gul14::median<R>(k.begin(), k.end(), acc);
    const auto sd2 = gul14::standard_deviation<R>(k.begin(), k.end(), acc);
    auto same = [](R a, R b) { return a == b || (a != a && b != b); };
    const auto desc = [&] { return " for " + pbt::show(v); };
    PBT_CHECK(c, same(m, m2) && same(q, q2) && same(md, md2) && same(sd.sigma(), sd2.sigma()) && same(sd.mean(), sd2.mean()), "iterator variant differs" << desc());
    PBT_CHECK(c, same(sd.sigma(), sd.sigma_) && same(sd.mean(), sd.mean_) && same(static_cast<R>(sd), sd.sigma()), "StandardDeviationMean accessors" << desc());
    if (n == 0)
    {
        PBT_CHECK(c, m != m && q != q && md != md && sd.sigma() != sd.sigma() && sd.mean() != sd.mean(), "empty container must give NaN");
        return;
    }
    const Ref r = reference(v);
    // the values are converted to R first
    const Q u = std::numeric_limits<R>::epsilon();
    const Q tol = 4 * static_cast<Q>(n + 8) * u * r.maxabs;
    PBT_CHECK(c, near(m, r.mean, tol), "mean " << pbt::show(m) << " expected " << pbt::show(ld(r.mean)) << desc());
    PBT_CHECK(c, near(q, r.rms, tol), "rms " << pbt::show(q) << " expected " << pbt::show(ld(r.rms)) << desc());
    PBT_CHECK(c, near(sd.mean(), r.mean, tol), "mean in standard_deviation " << pbt::show(sd.mean()) << " expected " << pbt::show(ld(r.mean)) << desc());
    if (n == 1)
        PBT_CHECK(c, sd.sigma() != sd.sigma(), "standard deviation of one element must be NaN" << desc());
    else
        PBT_CHECK(c, near(sd.sigma(), r.sigma, 4 * tol), "standard deviation " << pbt::show(sd.sigma()) << " expected " << pbt::show(ld(r.sigma)) << desc());
    auto s = v;
    std::sort(s.begin(), s.end());
    if (n % 2)
        PBT_CHECK(c, md == static_cast<R>(s[n / 2]), "median " << pbt::show(md) << " expected " << pbt::show(s[n / 2]) << desc());
    else
    {
        const Q a = s[n / 2 - 1], b = s[n / 2];
        const Q mid = (a + b) / 2;
        const Q t = 2 * u * (qabs(a) + qabs(b)) + 2 * static_cast<Q>(std::numeric_limits<R>::denorm_min());
        PBT_CHECK(c, near(md, mid, t), "median " << pbt::show(md) << " expected " << pbt::show(ld(mid)) << desc());
    }
    // accumulation: order, initial value, accessor
    if (n > 1000) return;
    const auto chain = gul14::accumulate<std::vector<T>>(k, [](std::vector<T> a, const T& x) { a.push_back(x); return a; }, acc);
    PBT_CHECK(c, chain == v, "accumulate visited " << pbt::show(chain) << desc());
    const auto chain2 = gul14::accumulate<std::vector<T>>(k.begin(), k.end(), [](std::vector<T> a, const T& x) { a.push_back(x); return a; }, acc);
    PBT_CHECK(c, chain2 == v, "accumulate (iterators) visited " << pbt::show(chain2) << desc());
}

template <typename R, typename T, bool Wide>
void one(Ctx& c)
{
    std::size_t n = 0;
    const bool big = c.chance(1, 60);
    while (c.more(n, big ? 150 : 7, big ? 400 : 60)) {}
    bool interesting = false;
    const auto v = strs::sometimes_huge(c, numbers<T>(c, n, interesting), 3000);
    n = v.size();
    c.label_if(n > 1000, "more than 1000 elements");
    c.note_f([&] { return "values " + pbt::show(v); });
    if (interesting && n >= 3) c.nontrivial();
    c.label_if(n == 0, "empty");
    c.label_if(n == 1, "single element");
    if (c.coin())
    {
        in_container<Wide>(c, v, [&](const auto& k) {
            // by default accessor and by an explicit one
            const R a = gul14::mean<R>(k), b = gul14::rms<R>(k), d = gul14::median<R>(k), e = gul14::standard_deviation<R>(k);
            auto acc = [](const T& x) { return x; };
            check_all<R, T>(c, k, acc, v);
            auto same = [](R x, R y) { return x == y || (x != x && y != y); };
            PBT_CHECK(c, same(a, gul14::mean<R>(k, acc)) && same(b, gul14::rms<R>(k, acc)) && same(d, gul14::median<R>(k, acc))
                && same(e, gul14::standard_deviation<R>(k, acc).sigma()), "default accessor differs for " << pbt::show(v));
            std::vector<T> after(k.begin(), k.end());
            PBT_CHECK(c, after == v, "data modified: " << pbt::show(v));
        });
    }
    else
    {
        std::vector<Elem<T>> w;
        for (std::size_t i = 0; i < n; ++i) w.push_back({ static_cast<std::uint32_t>(i * 77), v[i] });
        in_container<Wide>(c, w, [&](const auto& k) {
            check_all<R, T>(c, k, +[](const Elem<T>& e) -> const T& { return e.val; }, v);
            std::vector<Elem<T>> after(k.begin(), k.end());
            PBT_CHECK(c, after == w, "data modified: " << pbt::show(v));
        });
    }
}

} // namespace
