// C17: integer and boolean parsing accepts exactly the representable numbers.
#include "strs.h"
#include "gul14/to_number.h"
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the text is a well-formed number of two or more digits, or differs from one by a single edit";
    pbt::config().assumptions = { "all standard integer types including char and wchar_t; strings up to about 70 characters" };
    return true;
}();
using I128 = __int128;

std::string dec(I128 v)
{
    const bool neg = v < 0;
    unsigned __int128 u = neg ? static_cast<unsigned __int128>(-(v + 1)) + 1 : static_cast<unsigned __int128>(v);
    std::string s;
    do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); u /= 10; } while (u);
    return neg ? "-" + s : s;
}

/// Independent parser. Returns true and the value if the text denotes a value of T.
template <typename T>
bool reference(const std::string& s, I128& out)
{
    std::size_t i = 0;
    bool neg = false;
    if (std::is_signed<T>::value && !s.empty() && s[0] == '-') { neg = true; i = 1; }
    if (i == s.size()) return false;
    I128 v = 0;
    bool big = false;
    for (; i < s.size(); ++i)
    {
        const char ch = s[i];
        if (ch != '0' && ch != '1' && ch != '2' && ch != '3' && ch != '4' && ch != '5' && ch != '6' && ch != '7'
            && ch != '8' && ch != '9') return false;
        if (!big) v = v * 10 + (ch - '0');
        if (v > (I128{ 1 } << 70)) big = true;
    }
    if (big) return false;
    if (neg) v = -v;
    if (v < static_cast<I128>(std::numeric_limits<T>::min()) || v > static_cast<I128>(std::numeric_limits<T>::max()))
        return false;
    out = v;
    return true;
}

template <typename T>
void check(pbt::Ctx& c, const std::string& s)
{
    const Buf b(s);
    const gul14::optional<T> got = gul14::to_number<T>(b.sv());
    I128 want = 0;
    const bool ok = reference<T>(s, want);
    PBT_CHECK(c, got.has_value() == ok, pbt::show(s) << " is " << (ok ? "rejected" : "accepted as " + dec(static_cast<I128>(*got)))
        << " as a " << sizeof(T) * 8 << "-bit " << (std::is_signed<T>::value ? "signed" : "unsigned") << " integer");
    if (ok)
        PBT_CHECK(c, static_cast<I128>(*got) == want, pbt::show(s) << " is parsed as " << dec(static_cast<I128>(*got)));
    c.label_if(ok, "accepted");
    c.label_if(!ok, "rejected");
}
void check_all(pbt::Ctx& c, const std::string& s)
{
    switch (c.below(4))
    {
    case 0: check<signed char>(c, s); check<unsigned char>(c, s); check<char>(c, s); check<short>(c, s); break;
    case 1: check<unsigned short>(c, s); check<int>(c, s); check<unsigned>(c, s); break;
    case 2: check<long>(c, s); check<unsigned long>(c, s); check<wchar_t>(c, s); break;
    default: check<long long>(c, s); check<unsigned long long>(c, s); check<char16_t>(c, s); break;
    }
}
std::string near_limit(pbt::Ctx& c)
{
    // around +-2^k, where the type limits and the wrap-around points of the digit loop are
    const unsigned k = static_cast<unsigned>(c.pick<int>({ 7, 8, 15, 16, 31, 32, 63, 64, 65, 66 }));
    I128 v = I128{ 1 } << k;
    if (c.chance(1, 3)) v *= c.pick<int>({ 2, 3, 5, 9, 10, 11 });
    v += c.range(-12, 12);
    if (c.coin()) v = -v;
    return dec(v);
}
}

PBT_FACET(numbers, 4500000, 36000000)
{
    std::string s;
    switch (c.weighted({ 6, 3, 3, 2 }))
    {
    case 0: s = near_limit(c); break;
    case 1: s = dec(static_cast<I128>(c.integer<long long>())); break;
    case 2: s = (c.coin() ? "-" : "") + from(c, "0123456789", 1 + c.below(24)); break;
    default: s = (c.coin() ? "-" : "") + from(c, "0123456789", 18 + c.below(4)); break;
    }
    if (c.chance(1, 6)) s.insert(s[0] == '-' ? 1 : 0, std::string(1 + c.below(40), '0'));
    const bool edit = c.chance(1, 3);
    if (edit)
    {
        const std::size_t at = c.below(s.size() + 1);
        switch (c.below(4))
        {
        case 0: s.insert(at, 1, any_char(c)); break;
        case 1: s.insert(at, 1, c.pick<char>({ '+', '-', '.', ' ', '\0', 'e', 'x', '/', ':', '\t', '9', '0' })); break;
        case 2: if (at < s.size()) s.erase(at, 1); break;
        default: if (at < s.size()) s[at] = any_char(c); break;
        }
    }
    c.note_f([&] { return "parse " + pbt::show(s); });
    if (s.size() > 1) c.nontrivial();
    // whitespace around the number is documented as undefined
    auto ws = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
    if (!s.empty() && (ws(s.front()) || ws(s.back()))) return;
    check_all(c, s);
}
PBT_FACET(round_trip, 3000000, 24000000)
{
    const unsigned t = static_cast<unsigned>(c.below(8));
    c.nontrivial();
    auto go = [&](auto v) {
        using T = decltype(v);
        const std::string s = dec(static_cast<I128>(v));
        c.note_f([&] { return "round trip of " + s; });
        const Buf b(s);
        const auto r = gul14::to_number<T>(b.sv());
        PBT_CHECK(c, r.has_value() && *r == v, "parsing " << s << " does not return the number");
    };
    switch (t)
    {
    case 0: go(c.integer<signed char>()); break;
    case 1: go(c.integer<unsigned char>()); break;
    case 2: go(c.integer<short>()); break;
    case 3: go(c.integer<unsigned short>()); break;
    case 4: go(c.integer<int>()); break;
    case 5: go(c.integer<unsigned>()); break;
    case 6: go(c.integer<long long>()); break;
    default: go(c.integer<unsigned long long>()); break;
    }
}
PBT_FACET(small_exhaustive, 1, 1)
{
    c.nontrivial();
    c.note("all decimal texts from -70000 to 70000, bare and with leading zeros, all strings of one and two bytes");
    for (int i = -70000; i <= 70000; ++i)
    {
        const std::string s = dec(i);
        std::string z = s;
        z.insert(i < 0 ? 1 : 0, "00");
        check<signed char>(c, s); check<unsigned char>(c, s); check<short>(c, s); check<unsigned short>(c, s);
        check<int>(c, s); check<short>(c, z); check<unsigned char>(c, z);
    }
    for (unsigned x = 0; x < 256; ++x)
    {
        if (x == ' ' || (x >= 9 && x <= 13)) continue;
        std::string s(1, static_cast<char>(x));
        check<int>(c, s); check<unsigned char>(c, s); check<unsigned long>(c, s);
        for (unsigned y = 0; y < 256; ++y)
        {
            if (y == ' ' || (y >= 9 && y <= 13)) continue;
            std::string t = s + static_cast<char>(y);
            check<int>(c, t); check<unsigned char>(c, t); check<long>(c, t);
        }
    }
}
PBT_FACET(boolean, 1250000, 10000000)
{
    std::string s;
    switch (c.weighted({ 5, 2, 2, 2 }))
    {
    case 0:
        s = c.pick<const char*>({ "true", "false", "0", "1" });
        for (char& ch : s) if (c.chance(1, 3)) ch = upper(ch);
        break;
    case 1: s = from(c, "01", c.below(4)); break;
    case 2: s = from(c, "trueTRUEfalsFALS01", c.below(6)); break;
    default: s = c.bytes_str(3, 8); break;
    }
    if (c.chance(1, 3))
    {
        const std::size_t at = c.below(s.size() + 1);
        switch (c.below(3))
        {
        case 0: s.insert(at, 1, any_char(c)); break;
        case 1: if (at < s.size()) s.erase(at, 1); break;
        default: if (at < s.size()) s[at] = any_char(c); break;
        }
    }
    c.note_f([&] { return "parse as bool: " + pbt::show(s); });
    auto ws = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
    if (!s.empty() && (ws(s.front()) || ws(s.back()))) return;
    if (s.size() > 1) c.nontrivial();
    const std::string l = lower(s);
    const bool t = l == "true" || s == "1", f = l == "false" || s == "0";
    const Buf b(s);
    const auto r = gul14::to_number<bool>(b.sv());
    PBT_CHECK(c, r.has_value() == (t || f), pbt::show(s) << (r.has_value() ? " accepted" : " rejected") << " as a boolean");
    if (t || f) PBT_CHECK(c, *r == t, pbt::show(s) << " has the wrong truth value");
}
PBT_MAIN
