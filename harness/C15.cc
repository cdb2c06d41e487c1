// C15: substring predicates agree with the definition of prefix, suffix and infix.
#include "strs.h"
#include "gul14/substring_checks.h"
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the needle is neither empty nor longer than the haystack";
    pbt::config().assumptions = { "strings up to about 1500 characters, a few up to about 130000" };
    return true;
}();
bool inf(const std::string& h, const std::string& n) { return find_naive(h, n, 0) != std::string::npos; }
bool pre(const std::string& h, const std::string& n)
{
    if (n.size() > h.size()) return false;
    for (std::size_t i = 0; i < n.size(); ++i) if (h[i] != n[i]) return false;
    return true;
}
bool suf(const std::string& h, const std::string& n)
{
    if (n.size() > h.size()) return false;
    for (std::size_t i = 0; i < n.size(); ++i) if (h[h.size() - n.size() + i] != n[i]) return false;
    return true;
}
}
PBT_FACET(strings, 3000000, 24000000)
{
    std::string alpha = alphabet(c);
    if (c.coin()) alpha += c.pick<const char*>({ "aA", "bBaA", "zZ[{", "@`", "\xe4\xc4" });
    std::string n = c.chance(1, 15) ? std::string() : pattern(c, alpha);
    std::string h;
    switch (c.weighted({ 6, 2, 2, 2, 2 }))
    {
    case 0: h = text_around(c, n, alpha); break;
    case 1: h = n + text_around(c, n, alpha, 200); break;
    case 2: h = text_around(c, n, alpha, 200) + n; break;
    case 3: h = from(c, alpha, c.below(6)) + n + from(c, alpha, c.below(6)); break;
    default: h = n.substr(0, n.size() - (n.empty() ? 0 : c.below(2))); break;
    }
    h = sometimes_huge(c, std::move(h));
    if (h.size() > 1900 && c.coin()) n = h.substr(c.below(3), h.size() - c.below(3)); // a huge needle
    if (h.size() <= 1900 && c.coin()) // change the case of some letters
        for (char& ch : h) if (c.chance(1, 3)) ch = c.coin() ? lower(ch) : upper(ch);
    if (!h.empty() && c.chance(1, 4)) h[c.below(h.size())] = any_char(c);
    c.note_f([&] { return "haystack " + pbt::show(h) + ", needle " + pbt::show(n); });
    if (!n.empty() && n.size() <= h.size()) c.nontrivial();
    const std::string lh = lower(h), ln = lower(n);
    c.label_if(inf(h, n), "contained");
    c.label_if(inf(lh, ln) && !inf(h, n), "contained only ignoring case");
    const Buf bh(h), bn(n);
#define ONE(f, want) PBT_CHECK(c, gul14::f(bh.sv(), bn.sv()) == (want), #f " is " << !(want))
    ONE(contains, inf(h, n));
    ONE(starts_with, pre(h, n));
    ONE(ends_with, suf(h, n));
    ONE(contains_nocase, inf(lh, ln));
    ONE(starts_with_nocase, pre(lh, ln));
    ONE(ends_with_nocase, suf(lh, ln));
#undef ONE
}
PBT_FACET(chars, 1800000, 14400000)
{
    std::string alpha = alphabet(c) + c.pick<const char*>({ "aA", "bB", "zZ[{", "@`", "\xe4\xc4" });
    const std::string h = sometimes_huge(c, from(c, alpha, length(c)));
    char n = c.chance(2, 3) ? alpha[c.below(alpha.size())] : any_char(c);
    if (c.chance(1, 3)) n = c.coin() ? lower(n) : upper(n);
    c.note_f([&] { return "haystack " + pbt::show(h) + ", character " + pbt::show(n); });
    if (!h.empty()) c.nontrivial();
    const std::string s(1, n), lh = lower(h), ls = lower(s);
    const Buf bh(h);
#define ONE(f, want) PBT_CHECK(c, gul14::f(bh.sv(), n) == (want), #f "(char) is " << !(want))
    ONE(contains, inf(h, s));
    ONE(starts_with, pre(h, s));
    ONE(ends_with, suf(h, s));
    ONE(contains_nocase, inf(lh, ls));
    ONE(starts_with_nocase, pre(lh, ls));
    ONE(ends_with_nocase, suf(lh, ls));
#undef ONE
}
PBT_MAIN
