// C27: optional; references, hashes and in-place construction from lists.
#include "C27_machine.h"
namespace {
const bool cfg = [] {
    pbt::config().rule = "at least three operations act on an engaged optional (references: at least three rebindings)";
    pbt::config().assumptions = { "emplacing an optional's own value and self-move are excluded, as for std::optional",
        "histories up to 80 operations on up to three optionals" };
    return true;
}();

PBT_FACET(references, 150000, 3000000)
{
    std::array<int, 3> t{ { 10, 20, 30 } };
    using O = gul14::optional<int&>;
    std::vector<O> o(3);
    std::vector<int*> m(3, nullptr);
    std::size_t n = 0, rebound = 0;
    while (c.more(n, 10, 60))
    {
        const std::size_t i = c.below(3), j = c.below(3), k = c.below(3);
        switch (c.below(9))
        {
        case 0: o[i].emplace(t[k]); m[i] = &t[k]; ++rebound; break;
        case 1: o[i] = O(t[k]); m[i] = &t[k]; ++rebound; break;
        case 2: o[i] = o[j]; m[i] = m[j]; break;
        case 3: { const O copy(o[j]); o[i] = copy; m[i] = m[j]; break; }
        case 4: o[i].reset(); m[i] = nullptr; break;
        case 5: o[i] = gul14::nullopt; m[i] = nullptr; break;
        case 6: if (c.coin()) o[i].swap(o[j]); else { using std::swap; swap(o[i], o[j]); } std::swap(m[i], m[j]); ++rebound; break;
        case 7: if (m[i]) { const int v = static_cast<int>(c.below(50)); if (c.coin()) *o[i] = v; else o[i].value() = v; PBT_CHECK(c, *m[i] == v, "a write through the reference did not reach the object"); } break;
        default: o[i] = gul14::make_optional(std::ref(t[k])); m[i] = &t[k]; ++rebound; break;
        }
        for (std::size_t x = 0; x < 3; ++x)
        {
            PBT_CHECK(c, o[x].has_value() == (m[x] != nullptr) && static_cast<bool>(o[x]) == (m[x] != nullptr), "state of reference " << x);
            if (m[x]) PBT_CHECK(c, &*o[x] == m[x] && o[x].operator->() == m[x] && &o[x].value() == m[x], "reference " << x << " is bound to another object");
            else
            {
                bool thrown = false;
                try { (void)o[x].value(); } catch (const gul14::bad_optional_access&) { thrown = true; }
                PBT_CHECK(c, thrown, "checked access to an absent reference must throw");
            }
            PBT_CHECK(c, o[x].value_or(77) == (m[x] ? *m[x] : 77), "value_or");
            const int w = static_cast<int>(c.below(40));
            const bool on = m[x] != nullptr;
            const O& a = o[x];
            const int v = on ? *m[x] : 0;
            PBT_CHECK(c, (a == w) == (on && v == w) && (w == a) == (on && v == w) && (a != w) == !(on && v == w) && (w != a) == !(on && v == w)
                && (a < w) == (!on || v < w) && (w > a) == (!on || w > v) && (a > w) == (on && v > w) && (w < a) == (on && w < v)
                && (a <= w) == (!on || v <= w) && (w >= a) == (!on || w >= v) && (a >= w) == (on && v >= w) && (w <= a) == (on && w <= v), "comparison of reference " << x << " with a value");
            for (std::size_t y = 0; y < 3; ++y)
            {
                const O& b = o[y];
                const bool eq = (m[x] == nullptr) == (m[y] == nullptr) && (!m[x] || *m[x] == *m[y]);
                const bool lt = m[y] && (!m[x] || *m[x] < *m[y]), gt = m[x] && (!m[y] || *m[y] < *m[x]);
                PBT_CHECK(c, (a == b) == eq && (a != b) == !eq && (a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "comparison of references " << x << ", " << y);
            }
            PBT_CHECK(c, (a == gul14::nullopt) == !on && (a != gul14::nullopt) == on, "comparison with nullopt");
            gul14::optional<const int&> k;
            if (on) k.emplace(*m[x]);
            PBT_CHECK(c, (k == w) == (on && v == w) && (k != w) == !(on && v == w) && (k < w) == (!on || v < w) && (k > w) == (on && v > w) && (w == k) == (on && v == w)
                && (w != k) == !(on && v == w) && (w > k) == (!on || w > v) && (w < k) == (on && w < v) && (k <= w) == (!on || v <= w) && (w >= k) == (!on || w >= v)
                && (k >= w) == (on && v >= w) && (w <= k) == (on && w <= v), "comparison of a const reference with a value");
            PBT_CHECK(c, !on || std::hash<O>{}(a) == std::hash<int>{}(v), "hash of a reference");
        }
    }
    if (rebound >= 3) c.nontrivial();
}

struct Pack { int a; std::string b; std::vector<int> l; Pack(int x, std::string y) : a(x), b(std::move(y)) {} Pack(std::initializer_list<int> i, int x = 0) : a(x), l(i) {} };

PBT_FACET(construction_and_hash, 150000, 3000000)
{
    const int x = c.integer<int>();
    const std::string s = c.bytes_str(6, 60);
    gul14::optional<Pack> p(gul14::in_place, x, s);
    PBT_CHECK(c, p && p->a == x && p->b == s && p->l.empty(), "in-place construction");
    p.emplace({ x, 2, 3 }, 9);
    PBT_CHECK(c, p && p->a == 9 && p->l == (std::vector<int>{ x, 2, 3 }), "emplace from a list");
    const gul14::optional<Pack> q(gul14::in_place, { 7, x }, 4);
    PBT_CHECK(c, q && q->a == 4 && q->l == (std::vector<int>{ 7, x }), "in-place construction from a list");
    p.emplace(3, s);
    PBT_CHECK(c, p->a == 3 && p->b == s, "emplace");
    if (s.size() > 2) c.nontrivial();
    gul14::optional<std::string> a(s), b = gul14::make_optional(s), e;
    PBT_CHECK(c, a == b && std::hash<gul14::optional<std::string>>{}(a) == std::hash<std::string>{}(s) && std::hash<gul14::optional<std::string>>{}(a) == std::hash<gul14::optional<std::string>>{}(b), "hash of an engaged optional");
    PBT_CHECK(c, std::hash<gul14::optional<std::string>>{}(e) == std::hash<gul14::optional<std::string>>{}(gul14::optional<std::string>(gul14::nullopt)), "hash of empty optionals");
    gul14::optional<int> i(x);
    PBT_CHECK(c, std::hash<gul14::optional<int>>{}(i) == std::hash<int>{}(x), "hash");
    // conversion in value_or, nested optionals
    PBT_CHECK(c, e.value_or("literal") == "literal" && a.value_or("literal") == s, "value_or with conversion");
    gul14::optional<gul14::optional<int>> nest;
    PBT_CHECK(c, !nest, "nested default");
    nest.emplace();
    PBT_CHECK(c, nest && !*nest, "nested empty");
    nest = gul14::optional<gul14::optional<int>>(gul14::in_place, i);
    PBT_CHECK(c, nest && *nest && **nest == x, "nested value");
    // references with constexpr storage
    constexpr gul14::optional<int> k(5), none;
    static_assert(k && *k == 5 && !none && k.value() == 5 && none.value_or(3) == 3, "constexpr use");
}
} // namespace
