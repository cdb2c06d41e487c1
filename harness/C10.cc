// C10: tokenizing yields exactly the maximal runs of non-delimiter characters.
#include "strs.h"
#include "gul14/SmallVector.h"
#include "gul14/tokenize.h"
#include <deque>
#include <list>
#include <queue>
#include <set>
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the text has at least two tokens, or a token and a leading, trailing or doubled delimiter";
    pbt::config().assumptions = { "texts up to about 1500 characters, a few up to about 130000" };
    return true;
}();
const std::string default_ws("\x07\x08\x09\x0a\x0b\x0c\x0d\x20", 8);

struct Tok { std::size_t pos, len; };
std::vector<Tok> naive(const std::string& t, const std::string& d)
{
    std::vector<Tok> r;
    std::size_t i = 0;
    while (i < t.size())
    {
        bool isd = false;
        for (char x : d) if (x == t[i]) isd = true;
        if (isd) { ++i; continue; }
        std::size_t k = i;
        for (; k < t.size(); ++k)
        {
            bool e = false;
            for (char x : d) if (x == t[k]) e = true;
            if (e) break;
        }
        r.push_back({ i, k - i });
        i = k;
    }
    return r;
}
template <typename C>
void expect(pbt::Ctx& c, const C& got, const std::vector<std::string>& want, const char* what)
{
    std::vector<std::string> g;
    for (const auto& s : got) g.emplace_back(s.data() ? s.data() : "", s.size());
    PBT_CHECK(c, g == want, what << " gives " << pbt::show(g) << " instead of " << pbt::show(want));
}
template <typename V>
void expect_views(pbt::Ctx& c, const V& got, const std::vector<Tok>& p, const Buf& b, const char* what)
{
    PBT_CHECK(c, got.size() == p.size(), what << " number of tokens");
    std::size_t i = 0;
    for (const auto& v : got)
    {
        PBT_CHECK(c, v.data() == b.data() + p[i].pos && v.size() == p[i].len,
            what << " token " << i << " is not a view of the right place in the text");
        ++i;
    }
}

void run(pbt::Ctx& c, bool defaults)
{
    std::string d;
    if (defaults) d = default_ws;
    else if (!c.chance(1, 20)) d = char_set(c);
    std::string noise = alphabet(c);
    if (defaults && c.coin()) noise += std::string("\0\x06\x0e\x1f\x7f\xa0\x85", 7);
    const std::size_t n = length(c);
    std::string t;
    while (t.size() < n)
    {
        std::size_t k = 1 + (c.coin() ? 0 : c.below(4));
        bool del = !d.empty() && c.chance(2, 5);
        while (k--) t += del ? d[c.below(d.size())] : noise[c.below(noise.size())];
    }
    t = sometimes_huge(c, std::move(t));
    c.note_f([&] { return "tokenize(" + pbt::show(t) + ", " + (defaults ? "default" : pbt::show(d)) + ")"; });
    const Buf bt(t), bd(d);
    const auto p = naive(t, d);
    std::vector<std::string> want;
    for (auto& x : p) want.push_back(t.substr(x.pos, x.len));
    if (p.size() > 1 || (p.size() == 1 && p[0].len < t.size())) c.nontrivial();
    c.label_if(p.empty() && !t.empty(), "delimiters only");
    c.label_if(d.empty(), "no delimiters");

    if (defaults)
    {
        expect(c, gul14::tokenize(bt.sv()), want, "tokenize");
        auto v = gul14::tokenize_sv(bt.sv());
        expect_views(c, v, p, bt, "tokenize_sv");
        auto l = gul14::tokenize<std::list<std::string>>(bt.sv());
        expect(c, l, want, "tokenize<list>");
        auto s = gul14::tokenize_sv<gul14::SmallVector<gul14::string_view, 3>>(bt.sv());
        expect_views(c, s, p, bt, "tokenize_sv<SmallVector<string_view, 3>>");
        return;
    }
    const auto own = gul14::tokenize(bt.sv(), bd.sv());
    static_assert(std::is_same<decltype(gul14::tokenize(bt.sv(), bd.sv())), std::vector<std::string>>::value, "");
    expect(c, own, want, "tokenize");
    const auto views = gul14::tokenize_sv(bt.sv(), bd.sv());
    expect_views(c, views, p, bt, "tokenize_sv");
    switch (c.below(8))
    {
    case 6: // containers without emplace_back()
    {
        auto x = gul14::tokenize<std::multiset<std::string>>(bt.sv(), bd.sv());
        PBT_CHECK(c, x == std::multiset<std::string>(want.begin(), want.end()), "tokenize<multiset>");
        auto y = gul14::tokenize_sv<std::set<gul14::string_view>>(bt.sv(), bd.sv());
        std::set<std::string> g, w(want.begin(), want.end());
        for (auto v : y) g.emplace(v.data(), v.size());
        PBT_CHECK(c, g == w, "tokenize_sv<set<string_view>>");
        break;
    }
    case 7:
    {
        auto x = gul14::tokenize<std::queue<std::string>>(bt.sv(), bd.sv());
        std::vector<std::string> g;
        for (; !x.empty(); x.pop()) g.push_back(x.front());
        expect(c, g, want, "tokenize<queue>");
        break;
    }
    case 0: expect(c, gul14::tokenize<std::list<std::string>>(bt.sv(), bd.sv()), want, "tokenize<list>"); break;
    case 1:
        expect(c, gul14::tokenize<gul14::SmallVector<std::string, 2>>(bt.sv(), bd.sv()), want, "tokenize<SmallVector>");
        break;
    case 2:
    {
        auto v = gul14::tokenize<std::vector<gul14::string_view>>(bt.sv(), bd.sv());
        expect_views(c, v, p, bt, "tokenize<vector<string_view>>");
        break;
    }
    case 3:
    {
        using Q = std::queue<std::string>;
        auto x = gul14::tokenize<Q>(bt.sv(), bd.sv(), [](Q& q, gul14::string_view s) { q.push(std::string(s)); });
        std::vector<std::string> g;
        for (; !x.empty(); x.pop()) g.push_back(x.front());
        expect(c, g, want, "tokenize<queue> with a custom inserter");
        break;
    }
    case 4:
    {
        std::size_t calls = 0;
        using D = std::deque<std::string>;
        auto x = gul14::tokenize_sv<D>(bt.sv(), bd.sv(),
            [&calls](D& q, gul14::string_view s) { ++calls; q.emplace_back(s.data(), s.size()); });
        expect(c, x, want, "tokenize_sv<deque> with a stateful inserter");
        PBT_CHECK(c, calls == want.size(), "inserter called " << calls << " times");
        break;
    }
    default:
    {
        using S = std::multiset<std::string>;
        auto x = gul14::tokenize<S>(bt.sv(), bd.sv(), [](S& q, gul14::string_view s) { q.emplace(s.data(), s.size()); });
        S w(want.begin(), want.end());
        PBT_CHECK(c, x == w, "tokenize<multiset> tokens");
        break;
    }
    }
}
}
PBT_FACET(custom_delimiters, 2000000, 16000000) { run(c, false); }
PBT_FACET(default_delimiters, 1200000, 9600000) { run(c, true); }
PBT_MAIN
