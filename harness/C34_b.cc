// C34: type names of a family of composed types.
#include "pbt.h"
#include "gul14/type_name.h"
#include <string>
#include <utility>
#include <vector>

// ---- type names -------------------------------------------------------------------------
// The type with number N is built from a base type by a chain of type constructors, so that
// different numbers are different types.
namespace tn {
struct my_class {};
template <class T> struct my_template {};
template <class T, int N> struct with_number {};
enum class color { red };
namespace inner { struct my_class {}; }
template <int> struct base { };
template <> struct base<0> { using type = int; };
template <> struct base<1> { using type = unsigned long; };
template <> struct base<2> { using type = my_class; };
template <> struct base<3> { using type = inner::my_class; };
template <> struct base<4> { using type = color; };
template <> struct base<5> { using type = char; };
template <char C, char D> struct with_chars {};
template <> struct base<6> { using type = with_chars<';', '='>; };
template <> struct base<7> { using type = with_chars<';', ' '>; };
template <> struct base<8> { using type = with_chars<'x', 'y'>; };
template <> struct base<9> { using type = bool; };
template <class T, int K> struct wrap;
template <class T> struct wrap<T, 0> { using type = T*; };
template <class T> struct wrap<T, 1> { using type = const T*; };
template <class T> struct wrap<T, 2> { using type = my_template<T>; };
template <class T> struct wrap<T, 3> { using type = with_number<T, 7>; };
template <class T> struct wrap<T, 4> { using type = std::pair<T, int>; };
template <class T> struct wrap<T, 5> { using type = std::vector<T>; };
template <class T> struct wrap<T, 6> { using type = T(*)(T, int); };
template <class T> struct wrap<T, 7> { using type = T* const*; };
template <class T> struct wrap<T, 8> { using type = with_number<T, 8>; };
template <class T, int K> struct outer { using type = T; };
template <class T> struct outer<T, 1> { using type = T[3]; };
template <class T> struct outer<T, 2> { using type = T&; };
template <class T> struct outer<T, 3> { using type = const T&; };
constexpr int NB = 10, NW = 9, NV = 5, NO = 4;
constexpr int n_types = NB * NW * NV * NO;

template <int N> using type = typename outer<typename wrap<typename wrap<
    typename base<N % NB>::type, N / NB % NW>::type, N / NB / NW % NV>::type, N / NB / NW / NV>::type;

using Getter = gul14::string_view (*)();

template <int... I>
gul14::string_view name(std::size_t i, std::integer_sequence<int, I...>)
{
    static constexpr Getter t[] = { &gul14::type_name<type<I>>... };
    return t[i]();
}
std::string full(std::size_t i)
{
    const auto s = name(i, std::make_integer_sequence<int, n_types>{});
    return { s.data(), s.size() };
}
template <int... I>
gul14::string_view basic(std::size_t i, std::integer_sequence<int, I...>)
{
    static constexpr Getter t[] = { &gul14::type_name<typename base<I>::type>... };
    return t[i]();
}
struct Name { std::string full, inner; };
const std::vector<Name>& all()
{
    static const auto v = [] {
        std::vector<Name> r;
        for (std::size_t i = 0; i < static_cast<std::size_t>(n_types); ++i)
        {
            const auto b = basic(i % static_cast<std::size_t>(NB), std::make_integer_sequence<int, NB>{});
            r.push_back({ full(i), std::string(b.data(), b.size()) });
        }
        return r;
    }();
    return v;
}
}

PBT_FACET(type_names, 200000, 2000000)
{
    const auto& v = tn::all();
    const auto i = static_cast<std::size_t>(c.below(tn::n_types)), j = static_cast<std::size_t>(c.below(tn::n_types));
    c.note_f([&] { return v[i].full + " | " + v[j].full; });
    if (i != j) { c.nontrivial(); PBT_CHECK(c, v[i].full != v[j].full, "two types have the same name " << v[i].full); }
    const auto& s = v[i].full;
    PBT_CHECK(c, !s.empty() && s.front() != ' ' && s.back() != ' ', "white space around the name '" << s << "'");
    int depth[3] = { 0, 0, 0 };
    for (char ch : s)
    {
        depth[0] += (ch == '<') - (ch == '>');
        depth[1] += (ch == '(') - (ch == ')');
        depth[2] += (ch == '[') - (ch == ']');
        PBT_CHECK(c, depth[0] >= 0 && depth[1] >= 0 && depth[2] >= 0, "brackets do not match in '" << s << "'");
    }
    PBT_CHECK(c, !depth[0] && !depth[1] && !depth[2], "brackets do not match in '" << s << "'");
    PBT_CHECK(c, s.find(v[i].inner) != std::string::npos, "'" << s << "' does not contain '" << v[i].inner << "'");
    static const std::vector<std::vector<std::string>> basics = { { "int" },
        { "unsigned long", "long unsigned int", "unsigned long int" }, { "tn::my_class" },
        { "tn::inner::my_class" }, { "tn::color" }, { "char" }, { "tn::with_chars<';', '='>" },
        { "tn::with_chars<';', ' '>" }, { "tn::with_chars<'x', 'y'>" }, { "bool" } };
    bool found = false;
    for (const auto& b : basics[i % 10]) found = found || v[i].inner == b;
    PBT_CHECK(c, found, "name '" << v[i].inner << "' instead of " << basics[i % 10][0]);
}
