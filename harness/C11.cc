// C11: trimming removes exactly the leading and trailing whitespace.
#include "strs.h"
#include "gul14/trim.h"
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the string keeps at least one character and loses at least one";
    pbt::config().assumptions = { "strings up to about 1500 characters, a few up to about 130000" };
    return true;
}();
const std::string default_ws("\x07\x08\x09\x0a\x0b\x0c\x0d\x20", 8);

void run(pbt::Ctx& c, bool defaults)
{
    std::string ws;
    if (defaults) ws = default_ws;
    else if (!c.chance(1, 15)) ws = char_set(c);
    auto strip = [&](char x) { for (char w : ws) if (w == x) return true; return false; };
    std::string alpha = alphabet(c);
    if (defaults && c.coin()) alpha += std::string("\0\x06\x0e\x1f\x7f\xa0\x85", 7);
    std::string s;
    auto pad = [&] { if (!ws.empty()) { std::size_t k = c.coin() ? c.below(4) : length(c, 400); while (k--) s += ws[c.below(ws.size())]; } };
    pad();
    s = sometimes_huge(c, std::move(s), 5000);
    if (!c.chance(1, 10))
    {
        std::size_t n = length(c, 400);
        while (n--) s += !ws.empty() && c.chance(1, 4) ? ws[c.below(ws.size())] : alpha[c.below(alpha.size())];
    }
    s = sometimes_huge(c, std::move(s), 5000);
    pad();
    s = sometimes_huge(c, std::move(s), 5000);
    c.note_f([&] { return "trim(" + pbt::show(s) + ", " + (defaults ? "default" : pbt::show(ws)) + ")"; });
    std::size_t b = 0, e = s.size();
    while (b < s.size() && strip(s[b])) ++b;
    while (e > b && strip(s[e - 1])) --e;
    std::size_t re = s.size();
    while (re > 0 && strip(s[re - 1])) --re;
    const std::string left = s.substr(b), right = s.substr(0, re), both = s.substr(b, e - b);
    if (!both.empty() && both.size() < s.size()) c.nontrivial();
    c.label_if(both.empty() && !s.empty(), "nothing remains");

    const Buf bs(s), bw(ws);
    auto eq = [&](const std::string& got, const std::string& want, const char* what) {
        PBT_CHECK(c, got == want, what << " gives " << pbt::show(got) << " instead of " << pbt::show(want));
    };
    auto view = [&](gul14::string_view got, std::size_t pos, const std::string& want, const char* what) {
        eq(str(got), want, what);
        if (!want.empty())
            PBT_CHECK(c, got.data() == bs.data() + pos, what << " is not a view into the string at the right place");
    };
    if (defaults)
    {
        eq(gul14::trim(bs.sv()), both, "trim");
        eq(gul14::trim_left(bs.sv()), left, "trim_left");
        eq(gul14::trim_right(bs.sv()), right, "trim_right");
        view(gul14::trim_sv(bs.sv()), b, both, "trim_sv");
        view(gul14::trim_left_sv(bs.sv()), b, left, "trim_left_sv");
        view(gul14::trim_right_sv(bs.sv()), 0, right, "trim_right_sv");
        eq(gul14::trim(gul14::trim(bs.sv())), both, "trim twice");
        eq(gul14::trim_left(gul14::trim_right(bs.sv())), both, "right then left");
        return;
    }
    eq(gul14::trim(bs.sv(), bw.sv()), both, "trim");
    eq(gul14::trim_left(bs.sv(), bw.sv()), left, "trim_left");
    eq(gul14::trim_right(bs.sv(), bw.sv()), right, "trim_right");
    view(gul14::trim_sv(bs.sv(), bw.sv()), b, both, "trim_sv");
    view(gul14::trim_left_sv(bs.sv(), bw.sv()), b, left, "trim_left_sv");
    view(gul14::trim_right_sv(bs.sv(), bw.sv()), 0, right, "trim_right_sv");
    view(gul14::trim_left_sv(gul14::trim_right_sv(bs.sv(), bw.sv()), bw.sv()), b, both, "right then left");
    view(gul14::trim_right_sv(gul14::trim_left_sv(bs.sv(), bw.sv()), bw.sv()), b, both, "left then right");
    view(gul14::trim_sv(gul14::trim_sv(bs.sv(), bw.sv()), bw.sv()), b, both, "trim twice");
}
}
PBT_FACET(custom_set, 2000000, 16000000) { run(c, false); }
PBT_FACET(default_set, 2000000, 16000000) { run(c, true); }
PBT_MAIN
