// C30: a span views exactly the requested part of the underlying sequence.
#include "pbt.h"
#include "gul14/span.h"
#include "gul14/SmallVector.h"
#include "gul14/string_view.h"
using pbt::Ctx;
namespace {
const bool cfg = [] {
    pbt::config().rule = "sub-span chains: at least two narrowing steps and a non-empty view; comparisons: both sequences non-empty; static extents: always";
    pbt::config().assumptions = { "offsets and counts inside of the span (others are undefined, as for std::span)", "static extents up to 8" };
    return true;
}();

struct Odd { char a, b, c; bool operator!=(const Odd& o) const { return a != o.a || b != o.b || c != o.c; } };

struct Large { long v[5]; bool operator!=(const Large& o) const { return !std::equal(v, v + 5, o.v); } };

template <typename T> struct Mk;
template <> struct Mk<Large> { static Large of(int v) { return { { v, -v, v * 3, 7, v ^ 5 } }; } static int no(const Large& c) { return static_cast<int>(c.v[0]); } };
template <> struct Mk<char> { static char of(int v) { return static_cast<char>(v); } static int no(char c) { return static_cast<unsigned char>(c); } };
template <> struct Mk<int> { static int of(int v) { return v; } static int no(int c) { return c; } };
template <> struct Mk<double> { static double of(int v) { return v * 0.5; } static int no(double c) { return static_cast<int>(c * 2); } };
template <> struct Mk<std::string> { static std::string of(int v) { return "element number " + std::to_string(v); } static int no(const std::string& c) { return std::atoi(c.c_str() + 15); } };
template <> struct Mk<Odd> { static Odd of(int v) { return { static_cast<char>(v), static_cast<char>(v * 3), 'x' }; } static int no(const Odd& c) { return static_cast<unsigned char>(c.a); } };

/// A span must be the window [off, off + n) of the elements numbered 0 to 249 at `base`.
template <typename S, typename V>
void check_window(Ctx& c, S s, V* base, std::size_t off, std::size_t n, const char* what)
{
    using E = typename S::element_type;
    using M = Mk<std::remove_cv_t<E>>;
    PBT_CHECK(c, s.size() == n, what << ": size " << s.size() << " instead of " << n);
    PBT_CHECK(c, s.empty() == (n == 0), what << ": empty()");
    PBT_CHECK(c, s.size_bytes() == n * sizeof(E), what << ": size_bytes() " << s.size_bytes());
    PBT_CHECK(c, n == 0 || s.data() == base + off, what << ": data() is at offset " << (s.data() - base) << " instead of " << off);
    static_assert(std::is_same<decltype(s[0]), E&>::value && std::is_same<typename S::value_type, std::remove_cv_t<E>>::value
        && std::is_same<decltype(*s.cbegin()), const E&>::value && std::is_same<decltype(*s.begin()), E&>::value, "types");
    PBT_CHECK(c, S::extent == gul14::dynamic_extent || S::extent == n, what << ": extent");
    for (std::size_t i = 0; i < n; ++i)
        PBT_CHECK(c, &s[i] == base + off + i && M::no(s[i]) == M::no(base[off + i]), what << ": element " << i);
    std::size_t i = 0;
    for (auto& e : s) { PBT_CHECK(c, i < n && &e == base + off + i, what << ": iteration at " << i); ++i; }
    PBT_CHECK(c, i == n, what << ": iteration visits " << i << " elements");
    i = 0;
    for (auto it = s.cbegin(); it != s.cend(); ++it, ++i) PBT_CHECK(c, i < n && &*it == base + off + i, what << ": constant iteration at " << i);
    PBT_CHECK(c, i == n, what << ": constant iteration visits " << i << " elements");
    i = n;
    for (auto it = s.rbegin(); it != s.rend(); ++it) { PBT_CHECK(c, i > 0 && &*it == base + off + i - 1, what << ": reverse iteration"); --i; }
    PBT_CHECK(c, i == 0, what << ": reverse iteration ends at " << i);
    i = n;
    for (auto it = s.crbegin(); it != s.crend(); ++it) { PBT_CHECK(c, i > 0 && &*it == base + off + i - 1, what << ": constant reverse iteration"); --i; }
    PBT_CHECK(c, i == 0, what << ": constant reverse iteration ends at " << i);
    PBT_CHECK(c, begin(s) == s.begin() && end(s) == s.end() && s.end() - s.begin() == static_cast<std::ptrdiff_t>(n), what << ": begin(), end()");
    if (n > 0) PBT_CHECK(c, &s.front() == base + off && &s.back() == base + off + n - 1, what << ": front(), back()");
    const auto b = gul14::as_bytes(s);
    static_assert(std::is_same<decltype(b[0]), const unsigned char&>::value
        && std::decay_t<decltype(b)>::extent == (S::extent == gul14::dynamic_extent ? gul14::dynamic_extent : S::extent * sizeof(E)), "type of as_bytes");
    PBT_CHECK(c, b.size() == n * sizeof(E), what << ": as_bytes() has " << b.size() << " bytes");
    PBT_CHECK(c, n == 0 || b.data() == reinterpret_cast<const unsigned char*>(base + off), what << ": as_bytes() starts elsewhere");
}

template <typename E, std::size_t X> std::enable_if_t<!std::is_const<E>::value && std::is_trivially_copyable<E>::value>
write_bytes(Ctx& c, gul14::span<E, X> s, std::size_t i)
{
    auto w = gul14::as_writable_bytes(s);
    static_assert(std::is_same<decltype(w[0]), unsigned char&>::value
        && decltype(w)::extent == (X == gul14::dynamic_extent ? gul14::dynamic_extent : X * sizeof(E)), "type of as_writable_bytes");
    PBT_CHECK(c, w.size() == s.size_bytes() && w.data() == reinterpret_cast<unsigned char*>(s.data()), "as_writable_bytes() gives " << w.size() << " bytes");
    const E e = Mk<E>::of(static_cast<int>(c.below(250)));
    std::memcpy(&w[i * sizeof(E)], &e, sizeof(E));
    PBT_CHECK(c, !(s[i] != e), "bytes written into element " << i << " do not arrive");
}
template <typename E, std::size_t X> std::enable_if_t<std::is_const<E>::value || !std::is_trivially_copyable<E>::value>
write_bytes(Ctx&, gul14::span<E, X>, std::size_t) {}

template <typename E> std::enable_if_t<!std::is_const<E>::value> write(Ctx& c, gul14::span<E> s, std::vector<E>& v, std::size_t off)
{
    if (s.empty()) return;
    std::vector<E> m = v; // everything else must stay
    const std::size_t i = c.below(s.size());
    const E e = Mk<E>::of(static_cast<int>(c.below(250)));
    c.note_f([&] { return "write element " + std::to_string(i) + " of the span"; });
    switch (c.below(5))
    {
    case 0: s[i] = e; break;
    case 1: *(s.begin() + static_cast<std::ptrdiff_t>(i)) = e; break;
    case 2: *(s.rbegin() + static_cast<std::ptrdiff_t>(s.size() - 1 - i)) = e; break;
    case 3: (i == 0 ? s.front() : i + 1 == s.size() ? s.back() : s.data()[i]) = e; break;
    default: s[i] = e; break;
    }
    m[off + i] = e;
    for (std::size_t k = 0; k < v.size(); ++k) PBT_CHECK(c, !(v[k] != m[k]), "writing element " << i << " of the span changed or missed storage element " << k);
    write_bytes(c, s, i);
    m[off + i] = v[off + i];
    for (std::size_t k = 0; k < v.size(); ++k) PBT_CHECK(c, !(v[k] != m[k]), "writing bytes of element " << i << " of the span changed storage element " << k);
    for (std::size_t k = 0; k < v.size(); ++k) v[k] = Mk<E>::of(static_cast<int>(k % 250));
}

template <typename T>
void chain(Ctx& c)
{
    const std::size_t len = c.chance(1, 10) ? c.below(300) : c.below(24);
    std::vector<T> v;
    for (std::size_t i = 0; i < len; ++i) v.push_back(Mk<T>::of(static_cast<int>(i % 250)));
    const std::vector<T>& cv = v;
    c.note("storage of " + std::to_string(len) + " elements");
    std::size_t off = 0, n = len, steps = 0;
    gul14::span<T> s(v);
    gul14::span<const T> cs(cv);
    check_window(c, s, v.data(), off, n, "from vector");
    check_window(c, cs, cv.data(), off, n, "from constant vector");
    check_window(c, gul14::span<const T>(v), cv.data(), off, n, "const span from vector");
    if (c.coin())
    {
        off = c.size(len); n = c.size(len - off);
        c.note("span of " + std::to_string(n) + " elements from " + std::to_string(off));
        s = c.coin() ? gul14::span<T>(v.data() + off, n) : gul14::span<T>(v.data() + off, v.data() + off + n);
        cs = s;
    }
    std::size_t k = 0;
    while (c.more(k, 5, 20))
    {
        const std::size_t a = c.size(n), b = c.size(n - a);
        gul14::span<T> t;
        gul14::span<const T> ct;
        PBT_CHECK(c, t.size() == 0 && t.empty() && t.data() == nullptr && t.begin() == t.end(), "default-constructed span is not empty");
        switch (c.below(6))
        {
        case 0: c.note("first(" + std::to_string(a) + ")"); t = s.first(a); ct = cs.first(a); n = a; break;
        case 1: c.note("last(" + std::to_string(a) + ")"); t = s.last(a); ct = cs.last(a); off += n - a; n = a; break;
        case 2: c.note("subspan(" + std::to_string(a) + ")"); t = s.subspan(a); ct = cs.subspan(a); off += a; n -= a; break;
        case 3: c.note("subspan(" + std::to_string(a) + ", dynamic_extent)"); t = s.subspan(a, gul14::dynamic_extent); ct = cs.subspan(a, gul14::dynamic_extent); off += a; n -= a; break;
        case 4: c.note("subspan(" + std::to_string(a) + ", " + std::to_string(b) + ")"); t = s.subspan(a, b); ct = cs.subspan(a, b); off += a; n = b; break;
        default: // static counts applied to a dynamic span
            if (n < 4) { t = s; ct = cs; break; }
            switch (c.below(5))
            {
            case 0: c.note("first<3>()"); t = s.template first<3>(); ct = cs.template first<3>(); n = 3; break;
            case 1: c.note("last<3>()"); t = s.template last<3>(); ct = cs.template last<3>(); off += n - 3; n = 3; break;
            case 2: c.note("subspan<2>()"); t = s.template subspan<2>(); ct = cs.template subspan<2>(); off += 2; n -= 2; break;
            case 3: c.note("subspan<1, 3>()"); t = s.template subspan<1, 3>(); ct = cs.template subspan<1, 3>(); off += 1; n = 3; break;
            default: c.note("subspan<4, 0>()"); t = s.template subspan<4, 0>(); ct = cs.template subspan<4, 0>(); off += 4; n = 0; break;
            }
            break;
        }
        ++steps;
        check_window(c, t, v.data(), off, n, "sub-span");
        check_window(c, ct, cv.data(), off, n, "constant sub-span");
        s = t;
        cs = c.coin() ? gul14::span<const T>(s) : ct;
        check_window(c, s, v.data(), off, n, "assigned span");
        check_window(c, cs, cv.data(), off, n, "converted span");
        if (c.coin()) write(c, s, v, off);
    }
    if (steps >= 2 && n > 0) c.nontrivial();
    c.label_if(n == 0, "ends with an empty span");
}
PBT_FACET(chains_int, 160000, 1600000) { chain<int>(c); }
PBT_FACET(chains_char, 160000, 1600000) { chain<char>(c); }
PBT_FACET(chains_string, 80000, 800000) { chain<std::string>(c); }
PBT_FACET(chains_odd_size, 160000, 1600000) { chain<Odd>(c); }
PBT_FACET(chains_large_size, 80000, 800000) { chain<Large>(c); }

// ---- static extents: every offset and count
template <std::size_t A, std::size_t B, typename E, std::size_t N> void sub_count(Ctx& c, gul14::span<E, N> s, E* base)
{
    const auto x = s.template subspan<A, B>();
    static_assert(std::is_same<std::decay_t<decltype(x)>, gul14::span<E, B>>::value, "type of subspan<A, B>");
    check_window(c, x, base, A, B, "static subspan with count");
}
template <std::size_t A, typename E, std::size_t N, std::size_t... B> void sub_counts(Ctx& c, gul14::span<E, N> s, E* base, std::index_sequence<B...>)
{
    (void)std::initializer_list<int>{ (sub_count<A, B>(c, s, base), 0)... };
}
template <std::size_t A, typename E, std::size_t N> void static_one(Ctx& c, gul14::span<E, N> s, E* base)
{
    const auto f = s.template first<A>();
    const auto l = s.template last<A>();
    const auto x = s.template subspan<A>();
    static_assert(std::is_same<std::decay_t<decltype(f)>, gul14::span<E, A>>::value && std::is_same<std::decay_t<decltype(l)>, gul14::span<E, A>>::value
        && std::is_same<std::decay_t<decltype(x)>, gul14::span<E, N - A>>::value, "types of static sub-spans");
    check_window(c, f, base, 0, A, "static first");
    check_window(c, l, base, N - A, A, "static last");
    check_window(c, x, base, A, N - A, "static subspan");
    check_window(c, s.first(A), base, 0, A, "first of static extent");
    check_window(c, s.last(A), base, N - A, A, "last of static extent");
    check_window(c, s.subspan(A), base, A, N - A, "subspan of static extent");
    sub_counts<A>(c, s, base, std::make_index_sequence<N - A + 1>{});
}
template <typename E, std::size_t N, std::size_t... A> void static_all(Ctx& c, gul14::span<E, N> s, E* base, std::index_sequence<A...>)
{
    (void)std::initializer_list<int>{ (static_one<A>(c, s, base), 0)... };
}
template <typename E, std::size_t N, std::size_t... I> void get_all(Ctx& c, gul14::span<E, N> s, std::index_sequence<I...>)
{
    static_assert(std::tuple_size<gul14::span<E, N>>::value == N, "tuple_size");
    (void)std::initializer_list<int>{ (static_cast<void>(std::is_same<typename std::tuple_element<I, gul14::span<E, N>>::type, E>::value ? 0 : throw pbt::Failure{ "tuple_element" }), 0)..., 0 };
    const bool ok[] = { (&gul14::get<I>(s) == s.data() + I)..., true };
    for (bool b : ok) PBT_CHECK(c, b, "get<I>() refers to another element");
}
template <typename T, std::size_t N> void statics(Ctx& c)
{
    T arr[N];
    std::array<T, N> sa;
    for (std::size_t i = 0; i < N; ++i) sa[i] = arr[i] = Mk<T>::of(static_cast<int>(c.below(250)));
    const std::array<T, N>& csa = sa;
    const auto& carr = arr;
    c.note_f([&] { return "static extent " + std::to_string(N); });
    gul14::span<T, N> s(arr), a(sa);
    gul14::span<const T, N> cs(carr), ca(csa), conv(s), ca2(sa);
    check_window(c, s, arr, 0, N, "from array"); check_window(c, a, sa.data(), 0, N, "from std::array");
    check_window(c, cs, carr, 0, N, "from const array"); check_window(c, ca, csa.data(), 0, N, "from const std::array");
    check_window(c, conv, carr, 0, N, "converted to const"); check_window(c, ca2, csa.data(), 0, N, "const span from std::array");
    check_window(c, gul14::span<T>(arr), arr, 0, N, "dynamic from array"); check_window(c, gul14::span<T>(sa), sa.data(), 0, N, "dynamic from std::array");
    check_window(c, gul14::span<const T>(carr), carr, 0, N, "dynamic from const array"); check_window(c, gul14::span<const T>(csa), csa.data(), 0, N, "dynamic from const std::array");
    check_window(c, gul14::span<T>(s), arr, 0, N, "dynamic from static"); check_window(c, gul14::span<const T>(a), csa.data(), 0, N, "const dynamic from static");
    check_window(c, gul14::span<T, N>(arr, N), arr, 0, N, "from pointer and count"); check_window(c, gul14::span<T, N>(arr, arr + N), arr, 0, N, "from pointers");
    static_all(c, s, static_cast<T*>(arr), std::make_index_sequence<N + 1>{});
    static_all(c, cs, static_cast<const T*>(arr), std::make_index_sequence<N + 1>{});
    get_all(c, s, std::make_index_sequence<N>{});
    get_all(c, cs, std::make_index_sequence<N>{});
    a = s;
    check_window(c, a, arr, 0, N, "assigned static span");
    const std::size_t i = c.below(N);
    write_bytes(c, s, i);
    c.nontrivial();
    static_assert(!std::is_constructible<gul14::span<T, N>, T (&)[N + 1]>::value && !std::is_constructible<gul14::span<T, N>, std::array<T, N + 1>&>::value
        && !std::is_convertible<gul14::span<const T, N>, gul14::span<T, N>>::value && !std::is_constructible<gul14::span<T>, const std::vector<T>&>::value
        && !std::is_default_constructible<gul14::span<T, N>>::value && std::is_default_constructible<gul14::span<T, 0>>::value
        && !std::is_constructible<gul14::span<T, N>, gul14::span<T, N + 1>>::value, "conversions that would lose elements or constness");
}
template <typename T> void any_extent(Ctx& c)
{
    switch (c.below(5)) { case 0: statics<T, 1>(c); break; case 1: statics<T, 2>(c); break; case 2: statics<T, 3>(c); break; case 3: statics<T, 5>(c); break; default: statics<T, 8>(c); break; }
}
PBT_FACET(static_extents, 80000, 800000) { switch (c.below(5)) { case 0: any_extent<int>(c); break; case 4: any_extent<Large>(c); break; case 1: any_extent<std::string>(c); break; case 2: any_extent<Odd>(c); break; default: any_extent<char>(c); break; } }

// ---- construction from other containers
PBT_FACET(containers, 120000, 1200000)
{
    const std::string text = c.bytes_str(8, 60);
    c.note("text " + pbt::show(text));
    std::string s = text;
    const std::string cstr = text;
    const gul14::string_view sv(text);
    gul14::SmallVector<char, 5> small(s.begin(), s.end());
    const auto& csmall = small;
    check_window(c, gul14::span<char>(small), small.data(), 0, text.size(), "from SmallVector");
    check_window(c, gul14::span<const char>(csmall), csmall.data(), 0, text.size(), "from constant SmallVector");
    check_window(c, gul14::span<const char>(cstr), cstr.data(), 0, text.size(), "from constant string");
    check_window(c, gul14::span<const char>(sv), sv.data(), 0, text.size(), "from string_view");
    const std::initializer_list<int> il{ 1, 2, 3 };
    check_window(c, gul14::span<const int>(il), il.begin(), 0, 3, "from initializer list");
    if (text.size() > 2) c.nontrivial();
    const gul14::span<char> a(small);
    const gul14::span<const char> b(cstr);
    PBT_CHECK(c, a == b && !(a != b) && a <= b && a >= b && !(a < b) && !(a > b), "equal contents compare different");
}

// ---- comparisons
template <typename A, typename B>
void compare(Ctx& c, const std::vector<A>& x, const std::vector<B>& y)
{
    const gul14::span<const A> a(x);
    const gul14::span<const B> b(y);
    const bool eq = std::equal(x.begin(), x.end(), y.begin(), y.end());
    const bool lt = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end());
    const bool gt = std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end());
    PBT_CHECK(c, (a == b) == eq && (b == a) == eq, "== must be " << eq);
    PBT_CHECK(c, (a != b) == !eq && (b != a) == !eq, "!= must be " << !eq);
    PBT_CHECK(c, (a < b) == lt && (b > a) == lt, "< must be " << lt);
    PBT_CHECK(c, (a > b) == gt && (b < a) == gt, "> must be " << gt);
    PBT_CHECK(c, (a <= b) == !gt && (b >= a) == !gt, "<= must be " << !gt);
    PBT_CHECK(c, (a >= b) == !lt && (b <= a) == !lt, ">= must be " << !lt);
    if (x.size() >= 3)
    {
        const auto f = a.template first<3>();
        const bool le3 = std::lexicographical_compare(x.begin(), x.begin() + 3, y.begin(), y.end());
        PBT_CHECK(c, (f < b) == le3 && (f == b) == std::equal(x.begin(), x.begin() + 3, y.begin(), y.end()), "static against dynamic extent");
    }
}
template <typename A, typename B, typename G>
void compare_gen(Ctx& c, G g)
{
    std::vector<A> x;
    std::vector<B> y;
    std::size_t n = 0;
    while (c.more(n, 5, 30)) { const int v = g(); x.push_back(Mk<A>::of(v)); y.push_back(Mk<B>::of(v)); }
    switch (c.below(5))
    {
    case 0: break;
    case 1: if (!y.empty()) y.resize(c.below(y.size())); break;
    case 2: n = 0; while (c.more(n, 2, 5)) y.push_back(Mk<B>::of(g())); break;
    default: n = 0; while (!y.empty() && c.more(n, 1, 3)) y[c.below(y.size())] = Mk<B>::of(g()); break;
    }
    if (!x.empty() && !y.empty()) c.nontrivial();
    c.note_f([&] { std::string s = "compare"; for (auto& e : x) s += " " + std::to_string(Mk<A>::no(e)); s += " with"; for (auto& e : y) s += " " + std::to_string(Mk<B>::no(e)); return s; });
    compare(c, x, y);
}
PBT_FACET(comparisons, 400000, 4000000)
{
    switch (c.below(4))
    {
    case 0: compare_gen<int, int>(c, [&] { return static_cast<int>(c.range(-3, 3)); }); break;
    case 1: compare_gen<std::string, std::string>(c, [&] { return static_cast<int>(c.below(12)); }); break;
    case 2: compare_gen<int, double>(c, [&] { return static_cast<int>(c.range(-2, 2)); }); break;
    default: compare_gen<char, char>(c, [&] { return static_cast<int>(c.below(256)); }); break;
    }
}
PBT_FACET(comparisons_nan, 120000, 1200000)
{
    std::vector<double> x, y;
    std::size_t n = 0;
    while (c.more(n, 4, 12)) { const double d = c.pick({ 0.0, -0.0, 1.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity() }); x.push_back(d); y.push_back(c.chance(1, 4) ? 0.0 : d); }
    if (!y.empty() && c.chance(1, 3)) y.pop_back();
    if (!x.empty()) c.nontrivial();
    c.note_f([&] { return pbt::show(x) + " " + pbt::show(y); });
    compare(c, x, y);
}
constexpr int table[] = { 3, 1, 4, 1, 5 };
constexpr gul14::span<const int> cspan(table, 5);
static_assert(cspan.size() == 5 && cspan[2] == 4 && cspan.subspan(1, 3).back() == 1 && cspan.first(2).size() == 2 && cspan.last(2)[0] == 1 && cspan == cspan
    && !(cspan.first(3) == cspan.last(3)) && cspan.first(3) < cspan, "constant expressions");
} // namespace
PBT_MAIN
