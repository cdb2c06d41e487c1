// C28: variants with many alternatives.
#include "tracked.h"
#include "gul14/variant.h"
namespace {
using pbt::Ctx;
/// Knows its own type, so that being treated as another alternative is noticed.
template <std::size_t I> struct K
{
    int v = 0;
    std::size_t tag = I;
    void me(std::size_t t) const { if (t != I) trk::reg().complain("alternative " + std::to_string(t) + " was treated as alternative " + std::to_string(I)); }
    explicit K(int x) : v(x) {}
    K(const K& o) noexcept : v(o.v) { me(o.tag); }
    K(K&& o) noexcept : v(o.v) { me(o.tag); }
    K& operator=(const K& o) noexcept { me(tag); me(o.tag); v = o.v; return *this; }
    K& operator=(K&& o) noexcept { me(tag); me(o.tag); v = o.v; return *this; }
    ~K() { me(tag); tag = 9999; }
    friend bool operator==(const K& a, const K& b) { a.me(a.tag); a.me(b.tag); return a.v == b.v; }
    friend bool operator<(const K& a, const K& b) { a.me(a.tag); a.me(b.tag); return a.v < b.v; }
};
template <typename S> struct Many;
template <std::size_t... I> struct Many<std::index_sequence<I...>>
{
    using V = gul14::variant<K<I>...>;
    static constexpr std::size_t n = sizeof...(I);
    template <std::size_t J> static V make1(int v) { return V(gul14::in_place_index_t<J>{}, v); }
    static V make(std::size_t i, int v) { using F = V (*)(int); static const F f[] = { &make1<I>... }; return f[i](v); }
    template <std::size_t J> static void set1(V& x, int v) { x.template emplace<J>(v); }
    static void set(V& x, std::size_t i, int v) { using F = void (*)(V&, int); static const F f[] = { &set1<I>... }; f[i](x, v); }
    template <std::size_t J> static const int* get1(const V& x) { const auto* p = gul14::get_if<J>(&x); return p ? &p->v : nullptr; }
    static const int* get(const V& x, std::size_t i) { using F = const int* (*)(const V&); static const F f[] = { &get1<I>... }; return f[i](x); }
};
struct See { template <std::size_t I> std::pair<std::size_t, int> operator()(const K<I>& k) const { return { I, k.v }; } };

template <typename M> void run(Ctx& c)
{
    using V = typename M::V;
    trk::reg().reset();
    const auto pick = [&] { return c.coin() ? c.below(M::n) : (c.coin() ? M::n - 1 - c.below(std::min<std::size_t>(M::n, 6)) : std::min<std::size_t>(M::n - 1, 30 + c.below(5))); };
    std::size_t i = pick(), j = pick();
    int v = static_cast<int>(c.below(3)), w = static_cast<int>(c.below(3));
    c.note_f([&] { return std::to_string(M::n) + " alternatives: #" + std::to_string(i) + "=" + std::to_string(v) + ", #" + std::to_string(j) + "=" + std::to_string(w); });
    if (i != j) c.nontrivial();
    V a = M::make(i, v), b = M::make(0, 0);
    M::set(b, j, w);
    const auto is = [&](const V& x, std::size_t k, int y, const char* what) {
        PBT_CHECK(c, x.index() == k && !x.valueless_by_exception(), what << ": index " << x.index() << ", expected " << k);
        const auto s = gul14::visit(See{}, x);
        PBT_CHECK(c, s.first == k && s.second == y, what << ": visited #" << s.first << "=" << s.second << ", expected #" << k << "=" << y);
        PBT_CHECK(c, M::get(x, k) && *M::get(x, k) == y && M::get(x, (k + 1) % M::n) == nullptr, what << ": get_if");
    };
    is(a, i, v, "construction");
    is(b, j, w, "emplacement");
    PBT_CHECK(c, (a == b) == (i == j && v == w) && (a < b) == (i < j || (i == j && v < w)), "comparison");
    V d(a);
    is(d, i, v, "copy");
    d = b;
    is(d, j, w, "copy assignment");
    d = std::move(a);
    is(d, i, v, "move assignment");
    d.swap(b);
    is(d, j, w, "swap");
    is(b, i, v, "swap");
    V e(std::move(d));
    is(e, j, w, "move construction");
    a = V(M::make(j, 2));
    is(a, j, 2, "assignment of a temporary");
    a = e;
    is(a, j, w, "copy assignment to the same alternative");
    PBT_CHECK(c, trk::reg().error.empty(), trk::reg().error);
}
// 40 alternatives exceed one switch of the visitation, 40 x 3 in pairs
PBT_FACET(forty_alternatives, 60000, 1000000) { run<Many<std::make_index_sequence<40>>>(c); }
PBT_FACET(visit_pairs_of_forty, 60000, 1000000)
{
    using A = Many<std::make_index_sequence<36>>;
    using B = Many<std::make_index_sequence<3>>;
    const std::size_t i = c.below(36), j = c.below(3);
    const A::V a = A::make(i, 1);
    const B::V b = B::make(j, 2);
    if (i > 31) c.nontrivial();
    const auto p = gul14::visit([](const auto& x, const auto& y) { return std::make_pair(See{}(x), See{}(y)); }, a, b);
    const auto q = gul14::visit([](const auto& x, const auto& y) { return std::make_pair(See{}(x), See{}(y)); }, b, a);
    PBT_CHECK(c, p.first.first == i && p.first.second == 1 && p.second.first == j && p.second.second == 2, "visit of #" << i << " of 36 and #" << j << " of 3 saw #" << p.first.first << ", #" << p.second.first);
    PBT_CHECK(c, q.first.first == j && q.second.first == i && q.first.second == 2 && q.second.second == 1, "visit of #" << j << " of 3 and #" << i << " of 36 saw #" << q.first.first << ", #" << q.second.first);
}
} // namespace
