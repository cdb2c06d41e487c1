// C23, second part: outlier removal.
#include "STAT_gen.h"
using namespace gstat;
namespace {
/// Is `after` the sequence `before` without one element that is (nearly) the furthest from the mean?
template <typename E, typename F>
bool removed_one(const std::vector<E>& before, const std::vector<E>& after, F acc, bool& ambiguous)
{
    using Q = __float128;
    if (after.size() + 1 != before.size()) return false;
    Q sum = 0, big = 0;
    for (auto& e : before) { Q q = acc(e); sum += q; if ((q < 0 ? -q : q) > big) big = q < 0 ? -q : q; }
    const Q mean = sum / static_cast<Q>(before.size());
    auto dist = [&](const E& e) { Q q = static_cast<Q>(acc(e)) - mean; return q < 0 ? -q : q; };
    Q far = 0;
    for (auto& e : before) if (dist(e) > far) far = dist(e);
    const Q tol = static_cast<Q>(2.3e-16) * 4 * static_cast<Q>(before.size() + 8) * big;
    if (std::count_if(before.begin(), before.end(), [&](const E& e) { return dist(e) >= far - tol; }) > 1) ambiguous = true;
    for (std::size_t i = 0; i < before.size(); ++i)
    {
        if (dist(before[i]) < far - tol) continue;
        if (std::equal(before.begin(), before.begin() + static_cast<std::ptrdiff_t>(i), after.begin())
            && std::equal(before.begin() + static_cast<std::ptrdiff_t>(i) + 1, before.end(), after.begin() + static_cast<std::ptrdiff_t>(i)))
            return true;
    }
    return false;
}

template <typename Cont, typename E, typename F>
void outliers_in(Ctx& c, const std::vector<E>& v, F acc)
{
    std::vector<E> state = v;
    const std::size_t k = c.below(v.size() + 3);
    bool ambiguous = false; // several elements equally far away
    auto desc = [&] { return " removing " + std::to_string(k) + " from " + list(v); };
    // one by one, on copies
    for (std::size_t i = 0; i < k; ++i)
    {
        const Cont cont(state.begin(), state.end());
        const std::vector<E> next = gul14::remove_outliers(cont, 1, acc);
        PBT_CHECK(c, std::equal(state.begin(), state.end(), cont.begin()), "copying variant modified its argument" << desc());
        if (state.empty()) PBT_CHECK(c, next.empty(), "elements from nowhere");
        else PBT_CHECK(c, removed_one(state, next, acc, ambiguous), "wrong element removed at step " << i << ": " << list(state) << " -> " << list(next) << desc());
        state = next;
    }
    // all at once: copying (const and non-const lvalue), by iterators and in place
    const Cont cc(v.begin(), v.end());
    Cont m(v.begin(), v.end());
    const std::vector<E> r1 = gul14::remove_outliers(cc, k, acc);
    const std::vector<E> r2 = gul14::remove_outliers(m, k, acc);
    const std::vector<E> r3 = gul14::remove_outliers(cc.begin(), cc.end(), k, acc);
    PBT_CHECK(c, m.size() == v.size() && std::equal(v.begin(), v.end(), m.begin()), "copying variant modified its argument" << desc());
    PBT_CHECK(c, r1.size() == state.size() && r2.size() == state.size() && r3.size() == state.size(), "wrong number of elements removed" << desc());
    PBT_CHECK(c, ambiguous || (r1 == state && r2 == state && r3 == state), "removing at once differs from one by one: " << list(r1) << " / " << list(state) << desc());
    auto& ref = gul14::remove_outliers(std::move(m), k, acc);
    PBT_CHECK(c, &ref == &m, "in-place variant must return its argument");
    PBT_CHECK(c, m.size() == state.size() && (ambiguous || std::equal(state.begin(), state.end(), m.begin())), "in-place variant differs" << desc());
}

template <typename T>
void outliers(Ctx& c)
{
    std::size_t n = 0;
    while (c.more(n, 7, 60)) {}
    bool interesting = false;
    const auto v = numbers<T>(c, n, interesting);
    c.note_f([&] { return "values " + pbt::show(v); });
    if (n >= 3 && !std::equal(v.begin() + 1, v.end(), v.begin())) c.nontrivial();
    if (c.coin())
    {
        auto acc = [](const T& x) { return x; };
        switch (c.below(4))
        {
        case 0: outliers_in<std::vector<T>>(c, v, acc); break;
        case 1: outliers_in<std::list<T>>(c, v, acc); break;
        case 2: outliers_in<std::deque<T>>(c, v, acc); break;
        default: outliers_in<gul14::SmallVector<T, 4>>(c, v, acc); break;
        }
        const auto d1 = gul14::remove_outliers(v, n / 2), d2 = gul14::remove_outliers(v, n / 2, acc);
        PBT_CHECK(c, d1 == d2, "default accessor differs for " << pbt::show(v));
    }
    else
    {
        std::vector<Elem<T>> w;
        for (auto x : v) w.push_back({ static_cast<std::uint32_t>(w.size()), x });
        outliers_in<std::vector<Elem<T>>>(c, w, [](const Elem<T>& e) { return e.val; });
    }
}

} // namespace
