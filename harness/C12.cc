// C12: replacing substitutes exactly the leftmost non-overlapping occurrences.
#include "strs.h"
#include "gul14/replace.h"
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the text contains the search string and the replacement differs from it";
    pbt::config().assumptions = { "texts up to about 1500 characters, a few up to about 130000",
        "search string and replacement of the in-place variant are not views of the string being changed" };
    return true;
}();
}
PBT_FACET(replace, 3200000, 25600000)
{
    const std::string alpha = alphabet(c);
    const std::string n = c.chance(1, 20) ? std::string() : pattern(c, alpha);
    std::string r;
    switch (c.weighted({ 3, 3, 3, 2, 2, 1 }))
    {
    case 0: break;
    case 1: r = from(c, alpha, 1 + c.below(4)); break;
    case 2: r = from(c, alpha, c.below(3)) + n + from(c, alpha, c.below(3)); break; // contains the pattern
    case 3: r = n.substr(0, n.size() / 2); break;
    case 4: r = from(c, alpha, n.size()); break;
    default: r = from(c, alphabet(c), length(c, 200)); break;
    }
    const std::string t = sometimes_huge(c, text_around(c, n, alpha));
    c.note_f([&] { return "replace(" + pbt::show(t) + ", " + pbt::show(n) + ", " + pbt::show(r) + ")"; });
    std::string want;
    std::size_t hits = 0;
    if (n.empty()) want = t;
    else
        for (std::size_t i = 0; i < t.size();)
        {
            if (t.compare(i, n.size(), n) == 0) { want += r; i += n.size(); ++hits; }
            else want += t[i++];
        }
    if (hits && n != r) c.nontrivial();
    c.label_if(hits > 1, "several hits");
    c.label_if(n.empty(), "empty search string");
    c.label_if(hits && r.size() > n.size() && r.find(n) != std::string::npos, "replacement contains the pattern");

    const Buf bt(t), bn(n), br(r);
    const std::string got = gul14::replace(bt.sv(), bn.sv(), br.sv());
    PBT_CHECK(c, got == want, "replace gives " << pbt::show(got) << " instead of " << pbt::show(want));
    PBT_CHECK(c, str(bt.sv()) == t, "replace changed its input");
    std::string s = t;
    std::string& ref = gul14::replace_inplace(s, bn.sv(), br.sv());
    PBT_CHECK(c, &ref == &s, "replace_inplace returns another string");
    PBT_CHECK(c, s == want, "replace_inplace gives " << pbt::show(s) << " instead of " << pbt::show(want));
}
PBT_MAIN
