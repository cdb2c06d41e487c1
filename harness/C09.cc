// C09: splitting and joining strings are inverse to each other.
#include "strs.h"
#include "gul14/SmallVector.h"
#include "gul14/join_split.h"
#include <deque>
#include <forward_list>
#include <list>
#include <queue>
#include <regex>
#include <set>
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "split facets: the text contains the delimiter at least once and has other characters; "
                         "join facet: two or more parts and a non-empty delimiter";
    pbt::config().assumptions = { "texts up to about 1500 characters, a few up to about 130000 (thorough: the same, more cases)",
        "regular expressions from a family whose matches an independent scanner can compute" };
    return true;
}();

struct Piece { std::size_t pos, len; };
using Pieces = std::vector<Piece>;

Pieces naive_split(const std::string& t, const std::string& d)
{
    Pieces r;
    std::size_t start = 0;
    for (;;)
    {
        std::size_t hit = find_naive(t, d, start);
        if (hit == std::string::npos) break;
        r.push_back({ start, hit - start });
        start = hit + d.size();
    }
    r.push_back({ start, t.size() - start });
    return r;
}

std::vector<std::string> strings(const Pieces& p, const std::string& t)
{
    std::vector<std::string> r;
    for (auto& x : p) r.push_back(t.substr(x.pos, x.len));
    return r;
}

template <typename C>
void expect(pbt::Ctx& c, const C& got, const std::vector<std::string>& want, const char* what)
{
    std::vector<std::string> g;
    for (const auto& s : got) g.emplace_back(s.data() ? s.data() : "", s.size());
    PBT_CHECK(c, g == want, what << " gives " << pbt::show(g) << " instead of " << pbt::show(want));
}

void expect_views(pbt::Ctx& c, const std::vector<gul14::string_view>& got, const Pieces& p, const Buf& b,
    const char* what)
{
    PBT_CHECK(c, got.size() == p.size(), what << " number of parts");
    for (std::size_t i = 0; i < p.size(); ++i)
        if (p[i].len)
            PBT_CHECK(c, got[i].data() == b.data() + p[i].pos && got[i].size() == p[i].len,
                what << " part " << i << " is not a view of the right place in the text");
}
}

PBT_FACET(split, 750000, 6000000)
{
    const std::string alpha = alphabet(c);
    const std::string d = c.chance(1, 25) ? std::string() : pattern(c, alpha);
    const std::string t = sometimes_huge(c, text_around(c, d, alpha));
    c.note_f([&] { return "split(" + pbt::show(t) + ", " + pbt::show(d) + ")"; });
    const Buf bt(t), bd(d);

    if (d.empty())
    {
        c.label("empty delimiter");
        auto parts = gul14::split(bt.sv(), bd.sv());
        auto views = gul14::split_sv(bt.sv(), bd.sv());
        PBT_CHECK(c, gul14::join(parts, bd.sv()) == t, "round trip with an empty delimiter");
        PBT_CHECK(c, gul14::join(views, bd.sv()) == t, "round trip with an empty delimiter (views)");
        return;
    }
    const Pieces p = naive_split(t, d);
    const auto want = strings(p, t);
    if (p.size() > 1 && t.size() > (p.size() - 1) * d.size()) c.nontrivial();
    c.label_if(p.size() == 1, "no delimiter in the text");
    c.label_if(p.size() > 2 && d.size() > 1, "several hits of a long delimiter");

    const auto parts = gul14::split(bt.sv(), bd.sv());
    static_assert(std::is_same<decltype(gul14::split(bt.sv(), bd.sv())), std::vector<std::string>>::value, "");
    expect(c, parts, want, "split");
    const auto views = gul14::split_sv(bt.sv(), bd.sv());
    expect(c, views, want, "split_sv");
    expect_views(c, views, p, bt, "split_sv");
    PBT_CHECK(c, gul14::join(parts, bd.sv()) == t, "join(split(text, d), d) differs from the text");
    PBT_CHECK(c, gul14::join(views, bd.sv()) == t, "join(split_sv(text, d), d) differs from the text");

    switch (c.below(9))
    {
    case 7: // containers without emplace_back()
    {
        auto x = gul14::split<std::multiset<std::string>>(bt.sv(), bd.sv());
        PBT_CHECK(c, x == std::multiset<std::string>(want.begin(), want.end()), "split<multiset>");
        auto y = gul14::split_sv<std::set<gul14::string_view>>(bt.sv(), bd.sv());
        std::set<std::string> g, w(want.begin(), want.end());
        for (auto v : y) g.emplace(v.data(), v.size());
        PBT_CHECK(c, g == w, "split_sv<set<string_view>>");
        break;
    }
    case 8:
    {
        auto x = gul14::split<std::queue<std::string>>(bt.sv(), bd.sv());
        std::vector<std::string> g;
        for (; !x.empty(); x.pop()) g.push_back(x.front());
        expect(c, g, want, "split<queue>");
        break;
    }
    case 0:
    {
        auto x = gul14::split<std::list<std::string>>(bt.sv(), bd.sv());
        expect(c, x, want, "split<list<string>>");
        PBT_CHECK(c, gul14::join(x, bd.sv()) == t, "round trip via list");
        break;
    }
    case 1:
    {
        auto x = gul14::split<gul14::SmallVector<std::string, 3>>(bt.sv(), bd.sv());
        expect(c, x, want, "split<SmallVector<string, 3>>");
        PBT_CHECK(c, gul14::join(x, bd.sv()) == t, "round trip via SmallVector");
        break;
    }
    case 2:
    {
        auto x = gul14::split<std::vector<gul14::string_view>>(bt.sv(), bd.sv());
        expect(c, x, want, "split<vector<string_view>>");
        expect_views(c, x, p, bt, "split<vector<string_view>>");
        break;
    }
    case 3:
    {
        using Q = std::queue<std::string>;
        auto x = gul14::split<Q>(bt.sv(), bd.sv(),
            [](Q& q, gul14::string_view s) { q.push(std::string(s)); });
        std::vector<std::string> g;
        for (; !x.empty(); x.pop()) g.push_back(x.front());
        expect(c, g, want, "split<queue> with a custom inserter");
        break;
    }
    case 4:
    {
        auto x = gul14::split_sv<std::list<std::string>>(bt.sv(), bd.sv());
        expect(c, x, want, "split_sv<list<string>>");
        break;
    }
    case 5:
    {
        std::size_t calls = 0;
        using D = std::deque<std::string>;
        auto x = gul14::split<D>(bt.sv(), bd.sv(),
            [&calls](D& q, gul14::string_view s) { ++calls; q.emplace_back(s.data(), s.size()); });
        expect(c, x, want, "split<deque> with a stateful inserter");
        PBT_CHECK(c, calls == want.size(), "inserter called " << calls << " times");
        break;
    }
    default:
    {
        auto x = gul14::split_sv<gul14::SmallVector<gul14::string_view, 2>>(bt.sv(), bd.sv());
        expect(c, x, want, "split_sv<SmallVector<string_view, 2>>");
        PBT_CHECK(c, gul14::join(x.begin(), x.end(), bd.sv()) == t, "round trip via iterators");
        break;
    }
    }
}

PBT_FACET(join, 360000, 3000000)
{
    const std::string alpha = alphabet(c);
    const std::string d = c.chance(1, 5) ? std::string() : pattern(c, alpha);
    std::vector<std::string> parts;
    std::size_t n = 0;
    while (c.more(n, 4, 60)) parts.push_back(c.chance(1, 5) ? std::string() : text_around(c, d, alpha, 60));
    c.note_f([&] { return "join(" + pbt::show(parts) + ", " + pbt::show(d) + ")"; });
    std::string want;
    for (std::size_t i = 0; i < parts.size(); ++i) { if (i) want += d; want += parts[i]; }
    if (parts.size() > 1 && !d.empty()) c.nontrivial();
    const Buf bd(d);
    auto chk = [&](const std::string& got, const char* what) {
        PBT_CHECK(c, got == want, what << " gives " << pbt::show(got) << " instead of " << pbt::show(want));
    };
    chk(gul14::join(parts, bd.sv()), "join(vector<string>)");
    chk(gul14::join(parts.begin(), parts.end(), bd.sv()), "join(iterators)");
    std::vector<Buf> bufs;
    for (auto& s : parts) bufs.emplace_back(s);
    std::vector<gul14::string_view> views;
    for (auto& b : bufs) views.push_back(b.sv());
    chk(gul14::join(views, bd.sv()), "join(vector<string_view>)");
    switch (c.below(6))
    {
    case 0: chk(gul14::join(std::list<std::string>(parts.begin(), parts.end()), bd.sv()), "join(list)"); break;
    case 1:
    {
        std::forward_list<std::string> f(parts.begin(), parts.end());
        chk(gul14::join(f, bd.sv()), "join(forward_list)");
        break;
    }
    case 2: chk(gul14::join(views.data(), views.data() + views.size(), bd.sv()), "join(pointers)"); break;
    case 3:
    {
        gul14::SmallVector<std::string, 4> v;
        for (auto& s : parts) v.push_back(s);
        chk(gul14::join(v, bd.sv()), "join(SmallVector)");
        break;
    }
    case 4:
    {
        std::vector<std::string> rev(parts.rbegin(), parts.rend());
        chk(gul14::join(rev.rbegin(), rev.rend(), bd.sv()), "join(reverse iterators)");
        break;
    }
    default:
    {
        std::deque<gul14::string_view> q(views.begin(), views.end());
        chk(gul14::join(q.cbegin(), q.cend(), bd.sv()), "join(deque<string_view>)");
        break;
    }
    }
    // Splitting what was joined returns the parts if the delimiter is nowhere inside them.
    if (!parts.empty() && !d.empty() && naive_split(want, d).size() == parts.size()
        && strings(naive_split(want, d), want) == parts)
        PBT_CHECK(c, gul14::split(want, bd.sv()) == parts, "split(join(parts, d), d) differs from parts");
}

PBT_FACET(regex_split, 180000, 1500000)
{
    // A family of expressions with an independent scanner: sets, runs of sets, literals and
    // alternatives of two literals with different first characters.
    const std::string letters = "abcd,;";
    const unsigned kind = static_cast<unsigned>(c.below(4));
    std::string set = from(c, letters, 1 + c.below(2));
    std::string l1 = from(c, letters, 1 + c.below(3)), l2 = from(c, letters, 1 + c.below(3));
    if (l1[0] == l2[0]) l2 = l1;
    std::string re;
    switch (kind)
    {
    case 0: re = "[" + set + "]"; break;
    case 1: re = "[" + set + "]+"; break;
    case 2: re = l1; break;
    default: re = l1 + "|" + l2; break;
    }
    const std::string t = text_around(c, kind < 2 ? set : l1, letters, 200);
    c.note_f([&] { return "split(" + pbt::show(t) + ", regex " + pbt::show(re) + ")"; });
    auto match = [&](std::size_t i) -> std::size_t { // length of the match at i, 0 = none
        switch (kind)
        {
        case 0: return set.find(t[i]) != std::string::npos;
        case 1: { std::size_t k = i; while (k < t.size() && set.find(t[k]) != std::string::npos) ++k; return k - i; }
        case 2: return t.compare(i, l1.size(), l1) == 0 ? l1.size() : 0;
        default:
            return t.compare(i, l1.size(), l1) == 0 ? l1.size() : t.compare(i, l2.size(), l2) == 0 ? l2.size() : 0;
        }
    };
    Pieces p;
    std::size_t start = 0;
    for (std::size_t i = 0; i < t.size();)
    {
        std::size_t m = match(i);
        if (m) { p.push_back({ start, i - start }); i += m; start = i; }
        else ++i;
    }
    p.push_back({ start, t.size() - start });
    if (p.size() > 1 && p.size() < t.size()) c.nontrivial();
    const auto want = strings(p, t);
    const Buf bt(t);
    const std::regex rx{ re };
    expect(c, gul14::split(bt.sv(), rx), want, "split(regex)");
    auto views = gul14::split<std::vector<gul14::string_view>>(bt.sv(), rx);
    expect(c, views, want, "split<vector<string_view>>(regex)");
    expect_views(c, views, p, bt, "split<vector<string_view>>(regex)");
    using Q = std::queue<std::string>;
    auto x = gul14::split<Q>(bt.sv(), rx, [](Q& q, gul14::string_view s) { q.push(std::string(s)); });
    std::vector<std::string> g;
    for (; !x.empty(); x.pop()) g.push_back(x.front());
    expect(c, g, want, "split<queue>(regex) with a custom inserter");
    if (kind == 2)
        PBT_CHECK(c, gul14::join(gul14::split(bt.sv(), rx), l1) == t, "round trip via a literal regex");
}
PBT_MAIN
