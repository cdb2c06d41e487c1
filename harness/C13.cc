// C13: escaping produces printable ASCII and unescaping restores every string.
#include "strs.h"
#include "gul14/escape.h"
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "round trip: at least one byte had to be escaped and one did not; decoding: the text has a "
                         "valid and a malformed escape sequence; exhaustive facets: always";
    pbt::config().assumptions = { "strings up to about 1500 bytes, a few up to about 130000; all strings of one and two bytes" };
    return true;
}();

std::string ref_escape(const std::string& s)
{
    static const char hex[] = "0123456789abcdef";
    std::string r;
    for (char ch : s)
    {
        const unsigned u = static_cast<unsigned char>(ch);
        if (ch == '\n') r += "\\n";
        else if (ch == '\r') r += "\\r";
        else if (ch == '\t') r += "\\t";
        else if (ch == '\\') r += "\\\\";
        else if (ch == '"') r += "\\\"";
        else if (u < 0x20 || u > 0x7e) { r += "\\x"; r += hex[u / 16]; r += hex[u % 16]; }
        else r += ch;
    }
    return r;
}

int hexval(char ch)
{
    if (ch >= '0' && ch <= '9') return ch - '0';
    if (ch >= 'a' && ch <= 'f') return ch - 'a' + 10;
    if (ch >= 'A' && ch <= 'F') return ch - 'A' + 10;
    return -1;
}

std::string ref_unescape(const std::string& s, int* good = nullptr, int* bad = nullptr)
{
    std::string r;
    for (std::size_t i = 0; i < s.size();)
    {
        if (s[i] == '\\' && i + 1 < s.size())
        {
            const char n = s[i + 1];
            if (good) ++*good;
            if (n == '"' || n == '\\') { r += n; i += 2; continue; }
            if (n == 'n') { r += '\n'; i += 2; continue; }
            if (n == 'r') { r += '\r'; i += 2; continue; }
            if (n == 't') { r += '\t'; i += 2; continue; }
            if (n == 'x' && i + 3 < s.size() && hexval(s[i + 2]) >= 0 && hexval(s[i + 3]) >= 0)
            {
                r += static_cast<char>(16 * hexval(s[i + 2]) + hexval(s[i + 3]));
                i += 4;
                continue;
            }
            if (good) --*good;
        }
        if (s[i] == '\\' && bad) ++*bad;
        r += s[i++];
    }
    return r;
}

void round_trip(pbt::Ctx& c, const std::string& s)
{
    const Buf b(s);
    const std::string e = gul14::escape(b.sv());
    for (char ch : e)
        PBT_CHECK(c, static_cast<unsigned char>(ch) >= 0x20 && static_cast<unsigned char>(ch) <= 0x7e,
            "escape(" << pbt::show(s) << ") contains a non-printable character: " << pbt::show(e));
    PBT_CHECK(c, e == ref_escape(s), "escape(" << pbt::show(s) << ") gives " << pbt::show(e)
        << " instead of " << pbt::show(ref_escape(s)));
    const Buf be(e);
    const std::string u = gul14::unescape(be.sv());
    PBT_CHECK(c, u == s, "unescape(escape(" << pbt::show(s) << ")) gives " << pbt::show(u));
}
void decode(pbt::Ctx& c, const std::string& s)
{
    const Buf b(s);
    const std::string u = gul14::unescape(b.sv());
    PBT_CHECK(c, u == ref_unescape(s), "unescape(" << pbt::show(s) << ") gives " << pbt::show(u)
        << " instead of " << pbt::show(ref_unescape(s)));
}
}

PBT_FACET(round_trip, 900000, 8000000)
{
    std::string s;
    std::size_t n = length(c);
    if (c.chance(1, 2000)) n = c.size(c.tier ? 60000 : 8000);
    const unsigned mode = static_cast<unsigned>(c.below(3));
    while (n--)
        switch (mode)
        {
        case 0: s += static_cast<char>(c.below(256)); break;
        case 1: s += any_char(c); break;
        default: s += c.pick<char>({ '\\', 'x', '4', 'f', 'F', 'n', '"', '\n', 'r', 't', '\x1f', '\x7f', '\0', ' ' }); break;
        }
    s = sometimes_huge(c, std::move(s));
    c.note_f([&] { return "round trip of " + pbt::show(s); });
    const std::string e = ref_escape(s);
    if (e.size() > s.size() && e.size() < 2 * s.size()) c.nontrivial();
    round_trip(c, s);
}
PBT_FACET(decode, 750000, 7000000)
{
    std::string s;
    std::size_t n = length(c, 600);
    if (c.chance(1, 3000)) n = c.size(c.tier ? 30000 : 5000);
    while (s.size() < n)
        switch (c.weighted({ 4, 4, 4, 2, 3, 2, 1 }))
        {
        case 0: s += '\\'; break;
        case 1: s += "\\x"; break;
        case 2: s += "0123456789abcdefABCDEF"[c.below(22)]; break;
        case 3: s += "nrt\"\\xXNaubefgG"[c.below(15)]; break;
        case 4: { s += "\\x"; s += "0123456789abcdefABCDEF"[c.below(22)]; s += "0123456789abcdefABCDEFgG/:@`"[c.below(28)]; break; }
        case 5: s += any_char(c); break;
        default: s += c.pick<char>({ '\0', '\n', 'x', '0' }); break;
        }
    s = sometimes_huge(c, std::move(s));
    c.note_f([&] { return "unescape " + pbt::show(s); });
    int good = 0, bad = 0;
    ref_unescape(s, &good, &bad);
    if (good && bad) c.nontrivial();
    c.label_if(good, "valid sequence");
    c.label_if(bad, "malformed sequence");
    decode(c, s);
}
PBT_FACET(exhaustive, 1, 1)
{
    c.nontrivial();
    c.note("all strings of length 0, 1 and 2, bare and after a backslash and \\x");
    round_trip(c, "");
    decode(c, "");
    for (unsigned x = 0; x < 256; ++x)
    {
        round_trip(c, std::string(1, static_cast<char>(x)));
        decode(c, std::string(1, static_cast<char>(x)));
        decode(c, "\\x" + std::string(1, static_cast<char>(x)));
        for (unsigned y = 0; y < 256; ++y)
        {
            const std::string s{ static_cast<char>(x), static_cast<char>(y) };
            round_trip(c, s);
            decode(c, s);
            decode(c, "\\x" + s);
            decode(c, "\\" + s);
        }
    }
}
PBT_MAIN
