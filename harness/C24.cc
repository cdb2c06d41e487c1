// C24: numeric tolerance comparisons and clamping follow their definitions.
#include "pbt.h"
#include "gul14/num_util.h"
using pbt::Ctx;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the two numbers differ";
    pbt::config().assumptions = { "within_abs on floating-point numbers: exact unless distance and tolerance agree to rounding; infinite numbers with tolerances below 1e-17 of the largest number",
        "within_orders: number of orders between 0 and 40, exact unless distance and limit agree to rounding",
        "within_ulp: up to 2^20 steps; a step is the spacing at the larger number, distances between n and 2n steps may go either way",
        "clamp: lower bound not above upper bound; abs: result representable" };
    return true;
}();
using Q = __float128;
Q qabs(Q a) { return a < 0 ? -a : a; }
template <typename T> constexpr bool is_float() { return std::is_floating_point<T>::value; }

template <typename T>
T step(T x, std::int64_t n) // n representable steps away
{
    const T inf = std::numeric_limits<T>::infinity();
    for (; n > 0; --n) x = std::nextafter(x, inf);
    for (; n < 0; ++n) x = std::nextafter(x, -inf);
    return x;
}

template <typename T>
T fl(Ctx& c) // any finite or infinite or NaN number
{
    using L = std::numeric_limits<T>;
    switch (c.weighted({ 6, 5, 4, 3, 2, 1, 1 }))
    {
    case 0: return static_cast<T>(c.range(-20, 20));
    case 1: return static_cast<T>(c.range(-1000000, 1000000)) / static_cast<T>(1 + c.below(1000));
    case 2: return std::ldexp(static_cast<T>(c.range(-1000000, 1000000)), static_cast<int>(c.range(L::min_exponent - 60, L::max_exponent - 1)));
    case 3: return step(static_cast<T>(std::ldexp(static_cast<T>(1), static_cast<int>(c.range(L::min_exponent - 3, L::max_exponent - 1)))), c.range(-3, 3)) * (c.coin() ? 1 : -1);
    case 4: return static_cast<T>(c.range(-50, 50)) * L::denorm_min();
    case 5: return c.pick<T>({ L::infinity(), -L::infinity(), L::max(), L::lowest(), L::min(), -L::min(), T(0), -T(0) });
    default: return c.coin() ? L::quiet_NaN() : L::infinity();
    }
}
template <typename T>
T fl_near(Ctx& c, T a) // often close to a
{
    switch (c.below(5))
    {
    case 0: return fl<T>(c);
    case 1: return a == a ? step(a, c.range(-70, 70)) : a;
    case 2: return -a;
    case 3: { const double k = static_cast<double>(c.range(-12, 0)); return a * (1 + static_cast<T>(std::pow(10.0, k) * static_cast<double>(c.range(-20, 20)) / 10)); }
    default: return a + static_cast<T>(c.range(-30, 30));
    }
}

// ---------------------------------------------------------------- within_abs
template <typename T>
void abs_float(Ctx& c)
{
    const T a = fl<T>(c), b = fl_near<T>(c, a);
    T tol;
    switch (c.below(4))
    {
    case 0: tol = fl<T>(c); break;
    case 1: tol = a - b; break;
    case 2: { T d = a - b; tol = d == d ? step(d, c.range(-2, 2)) : T(1); break; }
    default: tol = static_cast<T>(c.below(10)); break;
    }
    const bool got = gul14::within_abs(a, b, tol);
    c.note_f([&] { return "within_abs(" + pbt::show(a) + ", " + pbt::show(b) + ", " + pbt::show(tol) + ")"; });
    auto d = [&] { return "within_abs(" + pbt::show(a) + ", " + pbt::show(b) + ", " + pbt::show(tol) + ") = " + pbt::show(got); };
    PBT_CHECK(c, got == gul14::within_abs(b, a, tol), d() << " is not symmetric");
    if (tol == tol && !std::isinf(tol)) PBT_CHECK(c, got == gul14::within_abs(a, b, -tol), d() << " depends on the sign of the tolerance");
    if (a != a || b != b || tol != tol) { PBT_CHECK(c, !got, d()); return; }
    if (std::isinf(tol))
    {
        if (!std::isinf(a) && !std::isinf(b)) PBT_CHECK(c, got, d());
        return;
    }
    if (std::isinf(a) || std::isinf(b))
    {
        // beyond that, a finite number minus the tolerance may itself become infinite
        if (std::abs(tol) < std::numeric_limits<T>::epsilon() / 8 * std::numeric_limits<T>::max() || a == b) PBT_CHECK(c, got == (a == b), d());
        return;
    }
    if (a != b) c.nontrivial();
    // long double arithmetic does not fit into a __float128 exactly in all cases, but far beyond its rounding
    const Q dist = qabs(static_cast<Q>(a) - static_cast<Q>(b)), t = qabs(static_cast<Q>(tol));
    const Q big = std::max(std::max(qabs(a), qabs(b)), t);
    const Q slack = big * static_cast<Q>(std::numeric_limits<T>::epsilon()) * (is_float<T>() ? 1 : 0);
    // Distances and tolerances that need no rounding at all are decided exactly.
    const volatile T d1 = a - b, d2 = (a > b ? a : b) - std::abs(tol);
    auto comparable = [&](Q x) { return x == 0 || qabs(x) * static_cast<Q>(1ull << 40) > big; }; // __float128 is exact for these
    const bool exact = comparable(a) && comparable(b) && comparable(t) && static_cast<Q>(d1) == static_cast<Q>(a) - static_cast<Q>(b)
        && static_cast<Q>(d2) == static_cast<Q>(a > b ? a : b) - t;
    if (exact || dist > t + slack || dist < t - slack)
        PBT_CHECK(c, got == (dist <= t), d());
    c.label_if(exact && a != b, "decided without rounding");
}

template <typename T>
void abs_int(Ctx& c)
{
    const T a = c.integer<T>();
    const T b = c.coin() ? c.integer<T>() : static_cast<T>(static_cast<std::uint64_t>(a) + c.below(9) - 4);
    using I = __int128;
    const I dist = a > b ? static_cast<I>(a) - b : static_cast<I>(b) - a;
    const T tol = c.coin() ? c.integer<T>() : static_cast<T>(static_cast<std::uint64_t>(dist) + c.below(3) - 1);
    const I t = tol < 0 ? -static_cast<I>(tol) : static_cast<I>(tol);
    const bool got = gul14::within_abs(a, b, tol);
    auto d = [&] { return "within_abs(" + pbt::show(a) + ", " + pbt::show(b) + ", " + pbt::show(tol) + ") = " + pbt::show(got); };
    c.note_f([&] { return d(); });
    if (a != b) c.nontrivial();
    PBT_CHECK(c, got == (dist <= t), d());
    PBT_CHECK(c, got == gul14::within_abs(b, a, tol), d() << " is not symmetric");
}

PBT_FACET(within_abs_floating, 500000, 10000000)
{
    switch (c.below(3)) { case 0: abs_float<double>(c); break; case 1: abs_float<float>(c); break; default: abs_float<long double>(c); break; }
}
PBT_FACET(within_abs_integers, 500000, 10000000)
{
    switch (c.below(8))
    {
    case 0: abs_int<int>(c); break;
    case 1: abs_int<unsigned>(c); break;
    case 2: abs_int<std::int64_t>(c); break;
    case 3: abs_int<std::uint64_t>(c); break;
    case 4: abs_int<std::int8_t>(c); break;
    case 5: abs_int<std::uint8_t>(c); break;
    case 6: abs_int<std::int16_t>(c); break;
    default: abs_int<std::uint16_t>(c); break;
    }
}

// ---------------------------------------------------------------- within_orders
template <typename T, typename O>
void orders_check(Ctx& c, T a, T b, O orders)
{
    const bool got = gul14::within_orders(a, b, orders);
    auto d = [&] { return "within_orders(" + pbt::show(a) + ", " + pbt::show(b) + ", " + pbt::show(orders) + ") = " + pbt::show(got); };
    c.note_f([&] { return d(); });
    PBT_CHECK(c, got == gul14::within_orders(b, a, orders), d() << " is not symmetric");
    if (a != a || b != b) { PBT_CHECK(c, !got, d()); return; }
    if (a == b) { PBT_CHECK(c, got, d() << " for equal numbers"); return; }
    c.nontrivial();
    if (std::numeric_limits<T>::has_infinity && (qabs(a) > static_cast<Q>(std::numeric_limits<T>::max()) || qabs(b) > static_cast<Q>(std::numeric_limits<T>::max())))
    {
        PBT_CHECK(c, !got, d());
        return;
    }
    const Q dist = qabs(static_cast<Q>(a) - static_cast<Q>(b));
    const Q big = std::max(qabs(a), qabs(b));
    Q p = 1;
    const auto whole = static_cast<int>(orders);
    for (int i = 0; i < whole; ++i) p *= 10;
    if (static_cast<O>(whole) != orders) p *= static_cast<Q>(std::pow(10.0L, static_cast<long double>(orders) - whole));
    const Q lim = big / p;
    const Q eps = is_float<T>() ? static_cast<Q>(std::numeric_limits<T>::epsilon()) : static_cast<Q>(2.3e-16);
    Q slack = lim * eps * 64;
    if (is_float<T>()) slack += 4 * static_cast<Q>(std::numeric_limits<T>::denorm_min());
    if (dist > lim + slack || dist < lim - slack) PBT_CHECK(c, got == (dist < lim), d());
    c.label_if(got, "different but within the orders");
    if (a == 0 || b == 0) PBT_CHECK(c, !got, d() << ": nothing but 0 is close to 0");
}

template <typename T>
void orders_float(Ctx& c)
{
    const T a = fl<T>(c);
    const T b = fl_near<T>(c, a);
    switch (c.below(3))
    {
    case 0: orders_check<T, int>(c, a, b, static_cast<int>(c.below(c.coin() ? 8 : 25))); break;
    case 1: orders_check<T, unsigned>(c, a, b, static_cast<unsigned>(c.below(12))); break;
    default: orders_check<T, double>(c, a, b, static_cast<double>(c.below(60)) / 4); break;
    }
}
template <typename T>
void orders_int(Ctx& c)
{
    const T a = c.integer<T>();
    T b;
    switch (c.below(4))
    {
    case 0: b = c.integer<T>(); break;
    case 1: b = static_cast<T>(static_cast<std::uint64_t>(a) + c.below(9) - 4); break;
    case 2: b = static_cast<T>(static_cast<std::uint64_t>(a) + (c.below(201) - 100) * static_cast<std::uint64_t>(std::max<T>(1, static_cast<T>(a / 1000)))); break;
    default: b = static_cast<T>(static_cast<std::uint64_t>(a) + static_cast<std::uint64_t>(static_cast<std::int64_t>(static_cast<long double>(a) / std::pow(10.0L, static_cast<int>(c.below(10))) * 0.99L))); break;
    }
    if (c.coin()) orders_check<T, int>(c, a, b, static_cast<int>(c.below(10)));
    else orders_check<T, double>(c, a, b, static_cast<double>(c.below(40)) / 4);
}
PBT_FACET(within_orders_floating, 500000, 10000000)
{
    switch (c.below(3)) { case 0: orders_float<double>(c); break; case 1: orders_float<float>(c); break; default: orders_float<long double>(c); break; }
}
PBT_FACET(within_orders_integers, 500000, 10000000)
{
    switch (c.below(7))
    {
    case 0: orders_int<int>(c); break;
    case 1: orders_int<unsigned>(c); break;
    case 2: orders_int<std::int64_t>(c); break;
    case 3: orders_int<std::uint64_t>(c); break;
    case 4: orders_int<std::int8_t>(c); break;
    case 5: orders_int<std::uint8_t>(c); break;
    default: orders_int<std::uint16_t>(c); break;
    }
}

// ---------------------------------------------------------------- within_ulp
template <typename T>
void ulp(Ctx& c)
{
    using L = std::numeric_limits<T>;
    const T a = fl<T>(c);
    T b;
    unsigned n = static_cast<unsigned>(c.coin() ? c.below(6) : c.below(c.coin() ? 64 : 1u << 20));
    switch (c.below(4))
    {
    case 0: b = fl<T>(c); break;
    case 1: b = fl_near<T>(c, a); break;
    case 2: b = a == a && n < 100 ? step(a, (c.coin() ? 1 : -1) * static_cast<std::int64_t>(n)) : a; break;
    default: b = a == a && n < 100 ? step(a, (c.coin() ? 1 : -1) * static_cast<std::int64_t>(n + 1 + c.below(3 * n + 2))) : a; break;
    }
    const bool got = gul14::within_ulp(a, b, n);
    auto d = [&] { return "within_ulp(" + pbt::show(a) + ", " + pbt::show(b) + ", " + std::to_string(n) + ") = " + pbt::show(got); };
    c.note_f([&] { return d(); });
    PBT_CHECK(c, got == gul14::within_ulp(b, a, n), d() << " is not symmetric");
    PBT_CHECK(c, got == gul14::within_ulp(-a, -b, n), d() << " depends on the sign");
    if (a != a || b != b) { PBT_CHECK(c, !got, d()); return; }
    if (a == b) { PBT_CHECK(c, got, d() << " for equal numbers"); return; }
    if (std::isinf(a) || std::isinf(b)) { PBT_CHECK(c, !got, d()); return; }
    c.nontrivial();
    const T m = std::max(std::abs(a), std::abs(b));
    int e;
    std::frexp(m, &e); // m in [2^(e-1), 2^e)
    const Q spacing = m < L::min() ? static_cast<Q>(L::denorm_min())
                                   : static_cast<Q>(std::max(L::denorm_min(), std::ldexp(L::epsilon(), e - 1)));
    const Q dist = qabs(static_cast<Q>(a) - static_cast<Q>(b));
    if (dist <= spacing * static_cast<Q>(n)) PBT_CHECK(c, got, d());
    const Q upper = m < L::min() ? static_cast<Q>(n) : 2 * static_cast<Q>(n);
    if (dist > spacing * upper) PBT_CHECK(c, !got, d());
    c.label_if(got, "different but within the steps");
    c.label_if(m < L::min(), "subnormal");
}
PBT_FACET(within_ulp, 500000, 10000000)
{
    switch (c.below(3)) { case 0: ulp<double>(c); break; case 1: ulp<float>(c); break; default: ulp<long double>(c); break; }
}

// ---------------------------------------------------------------- clamp, abs
struct Rec { int key; int id; };
bool operator<(const Rec& a, const Rec& b) { return a.key < b.key; }

template <typename T>
void clamp_num(Ctx& c, T v, T lo, T hi)
{
    if (hi < lo) std::swap(lo, hi);
    if (lo != lo) lo = T(0);
    if (hi != hi || hi < lo) hi = lo;
    const T& r = gul14::clamp(v, lo, hi);
    const T& r2 = gul14::clamp(v, lo, hi, [](T a, T b) { return a < b; });
    const T* want = v < lo ? &lo : hi < v ? &hi : &v;
    auto d = [&] { return "clamp(" + pbt::show(v) + ", " + pbt::show(lo) + ", " + pbt::show(hi) + ") = " + pbt::show(r) + " / " + pbt::show(r2); };
    c.note_f([&] { return d(); });
    if (v != lo) c.nontrivial();
    PBT_CHECK(c, &r == want && &r2 == want, d());
    // descending order
    const T& r3 = gul14::clamp(v, hi, lo, [](T a, T b) { return a > b; });
    const T* want3 = v > hi ? &hi : lo > v ? &lo : &v;
    PBT_CHECK(c, &r3 == want3, "descending " << d());
}
PBT_FACET(clamp_numbers, 300000, 6000000)
{
    switch (c.below(6))
    {
    case 0: { auto a = fl<double>(c); clamp_num<double>(c, a, fl_near<double>(c, a), fl_near<double>(c, a)); break; }
    case 1: { auto a = fl<float>(c); clamp_num<float>(c, a, fl_near<float>(c, a), fl<float>(c)); break; }
    case 2: clamp_num<int>(c, c.integer<int>(), c.integer<int>(), c.integer<int>()); break;
    case 3: clamp_num<unsigned>(c, c.integer<unsigned>(), c.integer<unsigned>(), c.integer<unsigned>()); break;
    case 4: clamp_num<std::int8_t>(c, c.integer<std::int8_t>(), c.integer<std::int8_t>(), c.integer<std::int8_t>()); break;
    default: clamp_num<std::uint64_t>(c, c.integer<std::uint64_t>(), c.integer<std::uint64_t>(), c.integer<std::uint64_t>()); break;
    }
}
PBT_FACET(clamp_objects, 150000, 3000000)
{
    Rec v{ static_cast<int>(c.below(5)), 0 }, lo{ static_cast<int>(c.below(5)), 1 }, hi{ static_cast<int>(c.below(5)), 2 };
    if (hi < lo) std::swap(lo.key, hi.key);
    if (v.key != lo.key) c.nontrivial();
    const Rec* want = v < lo ? &lo : hi < v ? &hi : &v;
    PBT_CHECK(c, &gul14::clamp(v, lo, hi) == want && &gul14::clamp(v, lo, hi, std::less<Rec>()) == want,
        "clamp of key " << v.key << " to [" << lo.key << ", " << hi.key << "] must return the " << (want == &v ? "value" : want == &lo ? "lower bound" : "upper bound"));
    const std::string a = c.bytes_str(2, 6), x = c.bytes_str(2, 6), y = c.bytes_str(2, 6);
    const std::string &l = std::min(x, y), &h = std::max(x, y);
    const std::string* w = a < l ? &l : h < a ? &h : &a;
    PBT_CHECK(c, gul14::clamp(a, l, h) == *w, "clamp of strings");
}
template <typename T>
void abs_one(Ctx& c, T v)
{
    static_assert(std::is_same<decltype(gul14::abs(v)), T>::value, "type of abs()");
    const T r = gul14::abs(v);
    if (v != v) { PBT_CHECK(c, r != r, "abs(NaN)"); return; }
    if (v < 0) c.nontrivial();
    PBT_CHECK(c, r == (v < 0 ? static_cast<T>(-v) : v) && !(r < 0), "abs(" << pbt::show(v) << ") = " << pbt::show(r));
    if (is_float<T>()) PBT_CHECK(c, !std::signbit(static_cast<long double>(r)), "abs(" << pbt::show(v) << ") is negative zero");
}
PBT_FACET(abs_value, 200000, 4000000)
{
    switch (c.below(8))
    {
    case 0: abs_one<double>(c, fl<double>(c)); break;
    case 1: abs_one<float>(c, fl<float>(c)); break;
    case 2: abs_one<long double>(c, fl<long double>(c)); break;
    case 3: abs_one<int>(c, std::max(c.integer<int>(), -INT32_MAX)); break;
    case 4: abs_one<std::int64_t>(c, std::max(c.integer<std::int64_t>(), -INT64_MAX)); break;
    case 5: abs_one<unsigned>(c, c.integer<unsigned>()); break;
    case 6: abs_one<std::uint64_t>(c, c.integer<std::uint64_t>()); break;
    default: abs_one<std::int16_t>(c, std::max<std::int16_t>(c.integer<std::int16_t>(), -INT16_MAX)); break;
    }
}
} // namespace
