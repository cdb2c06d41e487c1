// C21: cat concatenates the textual forms of its arguments in order.
#include "strs.h"
#include "gul14/cat.h"
using namespace strs;
using gul14::cat;
using gul14::ConvertingStringView;
namespace {
const bool cfg = [] {
    pbt::config().rule = "two or more arguments, at least one string and one number or character";
    pbt::config().assumptions = { "up to 10 arguments; floating-point text as by printf(\"%f\"), which std::to_string is defined by" };
    return true;
}();

std::string u2s(unsigned long long v)
{
    std::string s;
    do { s.insert(s.begin(), static_cast<char>('0' + v % 10)); v /= 10; } while (v);
    return s;
}
std::string i2s(long long v) { return v < 0 ? "-" + u2s(0ull - static_cast<unsigned long long>(v)) : u2s(static_cast<unsigned long long>(v)); }
std::string f2s(double v)
{
    std::vector<char> b(static_cast<std::size_t>(std::snprintf(nullptr, 0, "%f", v)) + 1);
    std::snprintf(b.data(), b.size(), "%f", v);
    return b.data();
}
double gen_double(pbt::Ctx& c)
{
    switch (c.weighted({ 4, 2, 1, 1 }))
    {
    case 0: return static_cast<double>(c.range(-100000, 100000)) / 64;
    case 1: { std::uint64_t u = c.u64(); double d; std::memcpy(&d, &u, 8); return d; }
    case 2: return c.pick<double>({ 0.0, -0.0, 1e300, -1e300, 5e-324, INFINITY, -INFINITY, static_cast<double>(NAN), 0.5, 1e22 });
    default: return std::ldexp(1.0, static_cast<int>(c.range(-40, 80)));
    }
}

/// One generated argument with its expected text.
struct Arg
{
    int kind = 0;
    std::string text;
    std::unique_ptr<Buf> buf;
    long long i = 0;
    unsigned long long u = 0;
    double d = 0;
    float f = 0;
    char ch = 0;
    int same = -1;       // the same object as this earlier argument
    gul14::string_view part; // kind 11: a part of the text of an earlier argument
};
Arg gen(pbt::Ctx& c)
{
    Arg a;
    a.kind = static_cast<int>(c.below(11));
    switch (a.kind)
    {
    case 0: case 1:
        a.text = sometimes_huge(c, from(c, alphabet(c), length(c, 300)), 4000);
        a.buf.reset(new Buf(a.text));
        break;
    case 2: a.text = c.bytes_str(5, 40); a.text = a.text.substr(0, a.text.find('\0')); break;
    case 3: a.ch = any_char(c); a.text = std::string(1, a.ch); break;
    case 4: a.i = c.integer<int>(); a.text = i2s(a.i); break;
    case 5: a.u = c.integer<unsigned>(); a.text = u2s(a.u); break;
    case 6: a.i = c.integer<long>(); a.text = i2s(a.i); break;
    case 7: a.u = c.integer<unsigned long>(); a.text = u2s(a.u); break;
    case 8: a.d = gen_double(c); a.text = f2s(a.d); break;
    case 9: a.f = static_cast<float>(gen_double(c)); a.text = f2s(static_cast<double>(a.f)); break;
    default: a.u = c.integer<unsigned long long>(); a.text = u2s(a.u); break;
    }
    return a;
}
/// Sometimes an earlier argument again, or a view into (or next to) an earlier one.
Arg gen_with(pbt::Ctx& c, const std::vector<Arg>& before)
{
    if (before.empty() || !c.chance(1, 5)) return gen(c);
    const std::size_t j = c.coin() ? before.size() - 1 : c.below(before.size());
    const Arg& o = before[j];
    Arg a;
    if (o.buf || o.kind == 11)
    {
        if (o.buf && c.chance(1, 3)) { a.kind = o.kind; a.text = o.text; a.same = static_cast<int>(j); return a; }
        const char* p = o.buf ? o.buf->sv().data() : o.part.data();
        const std::size_t len = o.text.size();
        // halves are likely to be adjacent views
        const std::size_t from = c.chance(1, 3) ? c.below(len + 1) : c.coin() ? 0 : len / 2;
        const std::size_t n = c.chance(1, 3) ? c.below(len - from + 1) : from ? len - from : len / 2;
        a.kind = 11;
        a.part = gul14::string_view(p + from, n);
        a.text = o.text.substr(from, n);
        return a;
    }
    a.kind = o.kind;
    a.text = o.text;
    a.same = o.same >= 0 ? o.same : static_cast<int>(j);
    return a;
}
ConvertingStringView make(const Arg& a)
{
    switch (a.kind)
    {
    case 0: return a.text; // std::string
    case 1: return a.buf->sv();
    case 2: return a.text.c_str();
    case 3: return a.ch;
    case 4: return static_cast<int>(a.i);
    case 5: return static_cast<unsigned>(a.u);
    case 6: return static_cast<long>(a.i);
    case 7: return static_cast<unsigned long>(a.u);
    case 8: return a.d;
    case 9: return a.f;
    case 11: return a.part;
    default: return a.u;
    }
}
void eq(pbt::Ctx& c, const std::string& got, const std::string& want, const char* what)
{
    PBT_CHECK(c, got == want, what << " gives " << pbt::show(got) << " instead of " << pbt::show(want));
}
}

PBT_FACET(dynamic, 500000, 10000000)
{
    const std::size_t n = c.below(11);
    std::vector<Arg> a;
    std::string want;
    bool str = false, num = false;
    for (std::size_t i = 0; i < n; ++i)
    {
        a.push_back(gen_with(c, a));
        want += a.back().text;
        (a.back().kind < 3 || a.back().kind == 11 ? str : num) = true;
    }
    c.note_f([&] { std::string s = "cat of"; for (auto& x : a) s += " " + std::to_string(x.kind) + ":" + pbt::show(x.text); return s; });
    if (n > 1 && str && num) c.nontrivial();
    auto m = [&](std::size_t i) { return make(a[a[i].same >= 0 ? static_cast<std::size_t>(a[i].same) : i]); };
    std::string got;
    switch (n)
    {
    case 0: got = cat(); break;
    case 1: got = cat(m(0)); break;
    case 2: got = cat(m(0), m(1)); break;
    case 3: got = cat(m(0), m(1), m(2)); break;
    case 4: got = cat(m(0), m(1), m(2), m(3)); break;
    case 5: got = cat(m(0), m(1), m(2), m(3), m(4)); break;
    case 6: got = cat(m(0), m(1), m(2), m(3), m(4), m(5)); break;
    case 7: got = cat(m(0), m(1), m(2), m(3), m(4), m(5), m(6)); break;
    case 8: got = cat(m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7)); break;
    case 9: got = cat(m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7), m(8)); break;
    default: got = cat({ m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7), m(8), m(9) }); break;
    }
    eq(c, got, want, "cat");
}
PBT_FACET(typed, 500000, 10000000)
{
    const std::string s = from(c, alphabet(c), length(c, 200)), t = c.bytes_str(4, 30);
    const std::string z = t.substr(0, t.find('\0'));
    const Buf b(s);
    const int i = c.integer<int>();
    const unsigned u = c.integer<unsigned>();
    const long l = c.integer<long>();
    const unsigned long ul = c.integer<unsigned long>();
    const long long ll = c.integer<long long>();
    const unsigned long long ull = c.integer<unsigned long long>();
    const short sh = c.integer<short>();
    const unsigned short us = c.integer<unsigned short>();
    const bool bo = c.coin();
    const char ch = any_char(c);
    const double d = gen_double(c);
    const float f = static_cast<float>(gen_double(c));
    const unsigned k = static_cast<unsigned>(c.below(8));
    c.note_f([&] { return "typed call " + std::to_string(k) + " with " + pbt::show(s) + ", " + pbt::show(t) + ", "
        + std::to_string(i) + ", " + std::to_string(ull) + ", " + pbt::show(d); });
    if (!s.empty()) c.nontrivial();
    switch (k)
    {
    case 0: eq(c, cat(s, i), s + i2s(i), "cat(string, int)"); eq(c, cat(i, s), i2s(i) + s, "cat(int, string)"); break;
    case 1: eq(c, cat(ch, b.sv(), ch), std::string(1, ch) + s + ch, "cat(char, view, char)"); break;
    case 2: eq(c, cat(z.c_str(), d, ":", f), z + f2s(d) + ":" + f2s(static_cast<double>(f)), "cat(C string, double, literal, float)"); break;
    case 3: eq(c, cat(u, l, ul, ll, ull), u2s(u) + i2s(l) + u2s(ul) + i2s(ll) + u2s(ull), "cat of integers"); break;
    case 4: eq(c, cat(sh, us), i2s(sh) + u2s(us), "cat(short, unsigned short)"); eq(c, cat(bo), bo ? "1" : "0", "cat(bool)"); break;
    case 5: eq(c, cat(s, t, b.sv(), z.c_str(), ch, "x", s), s + t + s + z + ch + "x" + s, "cat of seven strings"); break;
    case 6: eq(c, cat(d), f2s(d), "cat(double)"); eq(c, cat(s), s, "cat(string)"); eq(c, cat(ch), std::string(1, ch), "cat(char)"); break;
    default: eq(c, cat(i, ' ', d, b.sv(), s), i2s(i) + " " + f2s(d) + s + s, "cat of five"); break;
    }
}
PBT_FACET(converting_view, 400000, 8000000)
{
    // the argument class itself, including copies that outlive the original
    const Arg a = gen(c), b = gen(c);
    c.note_f([&] { return "copies of " + pbt::show(a.text) + " and " + pbt::show(b.text); });
    if (a.kind > 2) c.nontrivial();
    auto same = [&](const ConvertingStringView& v, const Arg& x, const char* what) {
        PBT_CHECK(c, v.size() == x.text.size() && v.length() == x.text.size(), what << ": size " << v.size());
        PBT_CHECK(c, std::string(v.data() ? v.data() : "", v.size()) == x.text, what << ": data");
        eq(c, static_cast<std::string>(v), x.text, what);
        eq(c, cat(v, v), x.text + x.text, what);
    };
    std::unique_ptr<ConvertingStringView> o(new ConvertingStringView(make(a)));
    same(*o, a, "original");
    ConvertingStringView copy(*o);
    std::vector<ConvertingStringView> many;
    for (std::size_t k = 1 + c.below(4); k > 0; --k) many.push_back(*o); // relocates its elements
    ConvertingStringView assigned(make(b));
    assigned = *o;
    o.reset();
    same(copy, a, "copy");
    for (auto& v : many) same(v, a, "copy in a growing vector");
    same(assigned, a, "assigned copy");
    ConvertingStringView moved(std::move(copy));
    same(moved, a, "moved");
    copy = make(b);
    same(copy, b, "assigned after a move");
}
PBT_MAIN
