// C14: ASCII case conversion changes exactly the 26 ASCII letters.
#include "strs.h"
#include "gul14/case_ascii.h"
#include "gul14/substring_checks.h"
#include <locale>
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the string has letters of both cases or a letter and a byte above 127; comparison: equal "
                         "length, different bytes";
    pbt::config().assumptions = { "strings up to about 1500 bytes, a few up to about 130000, all single characters",
        "locales: the default one and a C++ global locale with a deviating character classification" };
    return true;
}();

/// A locale in which case conversion would be something else.
struct Odd : std::ctype<char>
{
    char do_toupper(char) const override { return '?'; }
    char do_tolower(char) const override { return '!'; }
    const char* do_toupper(char* b, const char* e) const override { std::fill(b, const_cast<char*>(e), '?'); return e; }
    const char* do_tolower(char* b, const char* e) const override { std::fill(b, const_cast<char*>(e), '!'); return e; }
};
struct Scope
{
    std::locale old;
    explicit Scope(bool odd) { if (odd) std::locale::global(std::locale(old, new Odd)); }
    ~Scope() { std::locale::global(old); }
};

char letterish(pbt::Ctx& c)
{
    switch (c.weighted({ 5, 5, 3, 3 }))
    {
    case 0: return static_cast<char>('a' + c.below(26));
    case 1: return static_cast<char>('A' + c.below(26));
    case 2: return c.pick<char>({ '@', '[', '`', '{', '\0', '\x7f', '\x80', '\xc0', '\xc1', '\xda', '\xdb', '\xe1', '\xfa', '\xff', ' ', '0', '_' });
    default: return static_cast<char>(c.below(256));
    }
}
std::string gen(pbt::Ctx& c)
{
    std::string s;
    for (std::size_t n = length(c); n > 0; --n) s += letterish(c);
    return s;
}
}

PBT_FACET(convert, 2400000, 19200000)
{
    const std::string s = sometimes_huge(c, gen(c));
    const Scope loc(c.chance(1, 4));
    c.note_f([&] { return "case conversion of " + pbt::show(s); });
    const std::string lo = lower(s), up = upper(s);
    if (lo != s && up != s) c.nontrivial();
    const Buf b(s);
    auto eq = [&](const std::string& got, const std::string& want, const char* what) {
        PBT_CHECK(c, got == want, what << " gives " << pbt::show(got) << " instead of " << pbt::show(want));
    };
    eq(gul14::lowercase_ascii(b.sv()), lo, "lowercase_ascii");
    eq(gul14::uppercase_ascii(b.sv()), up, "uppercase_ascii");
    PBT_CHECK(c, str(b.sv()) == s, "the copying variants changed their input");
    std::string t = s;
    PBT_CHECK(c, &gul14::lowercase_ascii_inplace(t) == &t, "lowercase_ascii_inplace returns another string");
    eq(t, lo, "lowercase_ascii_inplace");
    t = s;
    PBT_CHECK(c, &gul14::uppercase_ascii_inplace(t) == &t, "uppercase_ascii_inplace returns another string");
    eq(t, up, "uppercase_ascii_inplace");
}
PBT_FACET(characters, 1, 1)
{
    c.nontrivial();
    c.note("all 256 characters, and all pairs of them in equals_nocase");
    for (int odd = 0; odd < 2; ++odd)
    {
        const Scope loc(odd != 0);
        for (int i = 0; i < 256; ++i)
        {
            const char x = static_cast<char>(i);
            PBT_CHECK(c, gul14::lowercase_ascii(x) == lower(x), "lowercase_ascii(char " << i << ")");
            PBT_CHECK(c, gul14::uppercase_ascii(x) == upper(x), "uppercase_ascii(char " << i << ")");
            for (int k = 0; k < 256; ++k)
            {
                const char y = static_cast<char>(k);
                PBT_CHECK(c, gul14::equals_nocase(gul14::string_view(&x, 1), gul14::string_view(&y, 1))
                    == (lower(x) == lower(y)), "equals_nocase of characters " << i << " and " << k);
            }
        }
    }
}
PBT_FACET(equals_nocase, 2100000, 16800000)
{
    std::string a = gen(c), b = a;
    for (char& ch : b) if (c.coin()) ch = c.coin() ? lower(ch) : upper(ch);
    if (c.chance(1, 2500) && !a.empty())
    {
        const std::size_t n = c.pick<std::size_t>({ 4096, 65536, 65536, 131072 }) - 4 + c.below(12);
        std::string la, lb;
        while (la.size() < n) { la += a; lb += b; }
        a.swap(la);
        b.swap(lb);
    }
    switch (c.weighted({ 5, 3, 2, 2, 1 }))
    {
    case 0: break;
    case 1: if (!b.empty()) b[c.below(b.size())] = letterish(c); break;
    case 2: if (!b.empty()) b[c.below(b.size())] ^= 0x20; break;
    case 3: b.resize(c.below(b.size() + 3), 'a'); break;
    default: b = gen(c); break;
    }
    const Scope loc(c.chance(1, 4));
    c.note_f([&] { return "equals_nocase(" + pbt::show(a) + ", " + pbt::show(b) + ")"; });
    if (a.size() == b.size() && a != b) c.nontrivial();
    const bool want = lower(a) == lower(b);
    c.label(want ? "equal" : "different");
    const Buf x(a), y(b);
    PBT_CHECK(c, gul14::equals_nocase(x.sv(), y.sv()) == want, "equals_nocase is " << !want);
    PBT_CHECK(c, gul14::equals_nocase(y.sv(), x.sv()) == want, "equals_nocase with swapped arguments is " << !want);
}
PBT_MAIN
