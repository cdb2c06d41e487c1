// strs.h - string generators and exactly sized buffers shared by the string harnesses.
#ifndef STRS_H_
#define STRS_H_
#include "pbt.h"
#include "gul14/string_view.h"

namespace strs {

/// A copy of some characters in a heap block of exactly that size: reading one character
/// before or after it is a memory error that AddressSanitizer reports.
template <typename Char>
class BasicBuf
{
public:
    explicit BasicBuf(const std::basic_string<Char>& s) : n_(s.size()), p_(new Char[s.size()])
    { std::copy(s.begin(), s.end(), p_.get()); }
    gul14::basic_string_view<Char> sv() const { return { p_.get(), n_ }; }
    const Char* data() const { return p_.get(); }
    std::size_t size() const { return n_; }
    bool contains(const Char* a, std::size_t n) const { return a >= p_.get() && a + n <= p_.get() + n_; }
private:
    std::size_t n_;
    std::unique_ptr<Char[]> p_;
};
using Buf = BasicBuf<char>;

inline std::string str(gul14::string_view v) { return std::string(v.data() ? v.data() : "", v.size()); }

/// A typical length: mostly short, sometimes beyond the sizes at which implementations
/// change their strategy (16, 64, 256, 1024...).
inline std::size_t length(pbt::Ctx& c, std::size_t longest = 1500)
{
    switch (c.weighted({ 30, 12, 3, 1 }))
    {
    case 0: return c.size(8);
    case 1: return c.size(24);
    case 2: return c.size(150);
    default: return c.size(longest);
    }
}

/// Characters that matter to string algorithms.
inline char any_char(pbt::Ctx& c)
{
    switch (c.weighted({ 4, 3, 3, 1 }))
    {
    case 0: return static_cast<char>('a' + c.below(3));
    case 1: return static_cast<char>(32 + c.below(95));
    case 2: return static_cast<char>(c.below(256));
    default: return c.pick<char>({ '\0', ' ', '\t', '\n', '\r', '\\', '"', 'Z', '\x7f', '\x80', '\xff' });
    }
}

/// The alphabet of one case: often tiny so that matches, near matches and overlaps abound.
inline std::string alphabet(pbt::Ctx& c)
{
    std::string a;
    const std::size_t n = 1 + c.weighted({ 1, 6, 4, 2, 1, 1 });
    for (std::size_t i = 0; i < n; ++i) a += any_char(c);
    return a;
}

inline std::string from(pbt::Ctx& c, const std::string& alpha, std::size_t n)
{
    std::string s;
    if (alpha.empty()) return s;
    s.reserve(n);
    while (s.size() < n) s += alpha[c.below(alpha.size())];
    return s;
}

/// A set of characters (with possible repetitions): mostly a handful, sometimes many or nearly all.
inline std::string char_set(pbt::Ctx& c)
{
    std::string s;
    switch (c.weighted({ 12, 3, 1 }))
    {
    case 0: return from(c, alphabet(c), 1 + c.below(6));
    case 1: { std::size_t n = 7 + c.below(40); while (n--) s += any_char(c); return s; }
    default:
    {
        const unsigned omit = static_cast<unsigned>(c.below(256)), start = static_cast<unsigned>(c.below(256));
        const std::size_t n = 20 + c.below(236);
        for (std::size_t i = 0; i < n; ++i) if ((start + i) % 256 != omit) s += static_cast<char>((start + i) % 256);
        return s;
    }
    }
}

/// A pattern to search for.
inline std::string pattern(pbt::Ctx& c, const std::string& alpha)
{
    switch (c.weighted({ 5, 10, 3, 1 }))
    {
    case 0: return from(c, alpha, 1);
    case 1: return from(c, alpha, 1 + c.below(4));
    case 2: { std::string u = from(c, alpha, 1 + c.below(3)); return u + u + u.substr(0, c.below(u.size() + 1)); }
    default: return from(c, alpha, 1 + c.below(40));
    }
}

/// A text made of copies, prefixes, suffixes and one-off variants of a pattern, and noise.
inline std::string text_around(pbt::Ctx& c, const std::string& pat, const std::string& alpha,
    std::size_t longest = 1500)
{
    const std::size_t n = length(c, longest);
    std::string s;
    while (s.size() < n)
    {
        switch (c.weighted({ 5, 3, 2, 5, 1 }))
        {
        case 0: s += pat; break;
        case 1: s += pat.substr(0, c.below(pat.size() + 1)); break;
        case 2: s += pat.substr(c.below(pat.size() + 1)); break;
        case 3: s += alpha.empty() ? 'x' : alpha[c.below(alpha.size())]; break;
        default:
            s += any_char(c);
        }
        if (pat.empty() && alpha.empty()) break;
        if (c.pos > 20000) break;
    }
    return s;
}

/// Once in a while turns a string into a very long one by repeating it (few choices, so that
/// the case still shrinks): sizes around and far beyond 4 KiB, 64 KiB and 128 KiB.
template <typename S>
S sometimes_huge(pbt::Ctx& c, S s, std::uint64_t one_in = 2500)
{
    if (!c.chance(1, one_in) || s.empty()) return s;
    const std::size_t n = c.pick<std::size_t>({ 2000, 4096, 32768, 65536, 65536, 131072 }) - 8 + c.below(20);
    S r;
    r.reserve(n + s.size());
    while (r.size() < n) r.insert(r.end(), s.begin(), s.end());
    if (c.coin()) r.resize(n);
    return r;
}

/// Position of the first occurrence of p in s at or after `from`, or npos (naive).
template <typename S>
std::size_t find_naive(const S& s, const S& p, std::size_t start)
{
    for (std::size_t i = start; i + p.size() <= s.size(); ++i)
    {
        std::size_t k = 0;
        while (k < p.size() && s[i + k] == p[k]) ++k;
        if (k == p.size()) return i;
    }
    return std::string::npos;
}

inline char lower(char ch)
{
    static const char up[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", lo[] = "abcdefghijklmnopqrstuvwxyz";
    for (int i = 0; i < 26; ++i) if (up[i] == ch) return lo[i];
    return ch;
}
inline char upper(char ch)
{
    static const char up[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", lo[] = "abcdefghijklmnopqrstuvwxyz";
    for (int i = 0; i < 26; ++i) if (lo[i] == ch) return up[i];
    return ch;
}
inline std::string lower(std::string s) { for (char& ch : s) ch = lower(ch); return s; }
inline std::string upper(std::string s) { for (char& ch : s) ch = upper(ch); return s; }

} // namespace strs
#endif
