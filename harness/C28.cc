// C28: variant; conversions, lists, overload sets and many alternatives.
#include "C28_machine.h"
namespace {
const bool cfg = [] {
    pbt::config().rule = "the alternative of a variant changes at least three times (conversions: always)";
    pbt::config().assumptions = { "self-move is excluded, as for std::variant",
        "after a throwing emplace or assignment of another alternative the variant keeps its value or is valueless (the standard requires the latter)",
        "histories up to 80 operations on up to three variants" };
    return true;
}();
struct List { std::vector<int> l; int x; List(std::initializer_list<int> i, int y = 0) : l(i), x(y) {} bool operator==(const List& o) const { return l == o.l && x == o.x; } };

PBT_FACET(conversions, 100000, 2000000)
{
    const int x = c.integer<int>();
    const std::string s = c.bytes_str(6, 60);
    c.nontrivial();
    { // exact and non-narrowing conversions
        using V = gul14::variant<float, long, double, std::string>;
        PBT_CHECK(c, V(static_cast<float>(x)).index() == 0 && V(static_cast<double>(x)).index() == 2 && V(static_cast<long>(x)).index() == 1, "exact match");
        const V a(x);
        PBT_CHECK(c, a.index() == 1 && gul14::get<long>(a) == x, "an int must be stored as long");
        const V b(s), d(s.c_str());
        PBT_CHECK(c, b.index() == 3 && gul14::get<3>(b) == s && d.index() == 3 && gul14::get<3>(d) == s.c_str(), "strings");
        V e;
        e = s.c_str();
        PBT_CHECK(c, e.index() == 3 && gul14::get<3>(e) == s.c_str(), "assigned literal");
        e = x;
        PBT_CHECK(c, e.index() == 1 && gul14::get<1>(e) == x, "assigned int");
        e = static_cast<short>(x);
        PBT_CHECK(c, e.index() == 1 && gul14::get<1>(e) == static_cast<short>(x), "assigned short");
    }
    {
        using V = gul14::variant<std::string, bool>;
        const V a("abc");
        PBT_CHECK(c, a.index() == 0 && gul14::get<0>(a) == "abc", "a literal is a string, not a bool");
        V b(x % 2 == 0);
        PBT_CHECK(c, b.index() == 1 && gul14::get<bool>(b) == (x % 2 == 0), "bool");
        b = "xyz";
        PBT_CHECK(c, b.index() == 0 && gul14::get<0>(b) == "xyz", "assigned literal");
        static_assert(!std::is_constructible<gul14::variant<bool, std::string>, void*>::value && !std::is_constructible<gul14::variant<float>, int>::value
            && !std::is_constructible<gul14::variant<bool>, int>::value && std::is_constructible<gul14::variant<float>, float>::value, "conversion rules");
        static_assert(!std::is_constructible<gul14::variant<int, int>, int>::value, "ambiguous");
    }
    { // initializer lists
        const int y = c.integer<int>();
        using V = gul14::variant<int, List, std::vector<int>>;
        V a(gul14::in_place_index_t<1>{}, { x, y }, 5), b(gul14::in_place_type_t<List>{}, { x, y }, 5), d(gul14::in_place_type_t<std::vector<int>>{}, { x, y, 1 });
        PBT_CHECK(c, a.index() == 1 && gul14::get<1>(a).l == (std::vector<int>{ x, y }) && gul14::get<1>(a).x == 5 && gul14::get<1>(a) == gul14::get<List>(b), "list construction");
        PBT_CHECK(c, d.index() == 2 && gul14::get<2>(d) == (std::vector<int>{ x, y, 1 }), "list construction by type");
        auto& r = a.emplace<2>({ y, y });
        PBT_CHECK(c, a.index() == 2 && &r == &gul14::get<2>(a) && r == (std::vector<int>{ y, y }), "list emplacement by index");
        auto& q = a.emplace<List>({ y }, x);
        PBT_CHECK(c, a.index() == 1 && &q == &gul14::get<1>(a) && q.l == std::vector<int>{ y } && q.x == x, "list emplacement by type");
        a.emplace<2>(3u, y);
        PBT_CHECK(c, gul14::get<2>(a) == (std::vector<int>{ y, y, y }), "emplacement with several arguments");
    }
    { // overload sets, results and monostate
        using V = gul14::variant<gul14::monostate, int, std::string, double>;
        std::vector<V> vs{ V{}, V{ x }, V{ s }, V{ 2.5 } };
        auto f = gul14::make_overload_set([](gul14::monostate) { return std::string("none"); }, [](int i) { return "int " + std::to_string(i); },
            [](const std::string& t) { return "string " + t; }, [](double d) { return "double " + std::to_string(d); });
        const V& v = vs[c.below(4)];
        const std::string want = v.index() == 0 ? "none" : v.index() == 1 ? "int " + std::to_string(x) : v.index() == 2 ? "string " + s : "double 2.500000";
        PBT_CHECK(c, gul14::visit(f, v) == want, "overload set called for alternative " << v.index());
        auto one = gul14::make_overload_set([](auto&&) { return 7; });
        PBT_CHECK(c, gul14::visit(one, v) == 7, "overload set of one function");
        PBT_CHECK(c, gul14::monostate{} == gul14::monostate{} && !(gul14::monostate{} != gul14::monostate{}) && !(gul14::monostate{} < gul14::monostate{}) && !(gul14::monostate{} > gul14::monostate{})
            && gul14::monostate{} <= gul14::monostate{} && gul14::monostate{} >= gul14::monostate{} && std::hash<gul14::monostate>{}({}) == std::hash<gul14::monostate>{}({}), "monostate");
        // a visitor may return a reference into the variant, and may have state
        gul14::variant<int, int> w(gul14::in_place_index_t<1>{}, x);
        int& ref = gul14::visit([](int& i) -> int& { return i; }, w);
        PBT_CHECK(c, &ref == &gul14::get<1>(w), "reference result");
        int calls = 0;
        gul14::visit([&](auto&&...) { ++calls; }, v, w, vs[0], vs[1]);
        PBT_CHECK(c, calls == 1, "the visitor of four variants was called " << calls << " times");
        PBT_CHECK(c, gul14::visit([] { return 5; }) == 5, "visit without variants");
        for (const V& a : vs)
            for (const V& b : vs)
            {
                PBT_CHECK(c, (a == b) == (&a == &b) && (a < b) == (&a < &b), "variants of different alternatives");
                if (&a == &b) PBT_CHECK(c, std::hash<V>{}(a) == std::hash<V>{}(V(b)), "hash");
            }
    }
    static_assert(gul14::variant_size<gul14::variant<int, char, double>>::value == 3 && std::is_same<gul14::variant_alternative_t<1, gul14::variant<int, char>>, char>::value
        && std::is_same<gul14::variant_alternative_t<0, const gul14::variant<int, char>>, const int>::value, "variant_size, variant_alternative");
    constexpr gul14::variant<int, double> k(3);
    static_assert(k.index() == 0 && gul14::get<0>(k) == 3 && gul14::holds_alternative<int>(k) && !gul14::get_if<1>(&k), "constexpr use");
}
} // namespace
