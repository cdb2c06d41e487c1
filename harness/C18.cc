// C18: floating-point parsing accepts exactly the grammar and is accurate.
#include "strs.h"
#include "gul14/to_number.h"
using namespace strs;
namespace {
const bool cfg = [] {
    pbt::config().rule = "the text matches the number grammar with a non-zero digit, or differs from such a text by one edit";
    pbt::config().assumptions = { "reference values from the C library's strtof/strtod/strtold",
        "tolerance: 2 ulp for float, 4 ulp for double, 32 ulp for long double (64 near its subnormal range)",
        "exponents that do not fit an int may be rejected (documented limit)",
        "a number beyond the largest finite one must not yield a finite value; it may yield infinity or nothing",
        "whitespace around the number is not exercised (documented as undefined)" };
    return true;
}();

bool digit(char c) { return c >= '0' && c <= '9'; }

struct Parsed
{
    bool ok = false, special = false, nan = false, neg = false, zero = true;
    bool huge_exponent = false; ///< exponent value outside of int
};

/// Independent recognizer of the documented grammar.
Parsed recognize(const std::string& s)
{
    Parsed p;
    std::size_t i = 0;
    if (i < s.size() && s[i] == '-') { p.neg = true; ++i; }
    const std::string rest = lower(s.substr(i));
    if (rest == "inf" || rest == "infinity") { p.ok = p.special = true; return p; }
    if (rest.compare(0, 3, "nan") == 0)
    {
        p.special = p.nan = true;
        if (rest.size() == 3) { p.ok = true; return p; }
        if (rest.size() < 5 || rest[3] != '(' || rest.back() != ')') return p;
        for (std::size_t k = 4; k + 1 < rest.size(); ++k)
            if (!digit(rest[k]) && !(rest[k] >= 'a' && rest[k] <= 'z') && rest[k] != '_') return p;
        p.ok = true;
        return p;
    }
    std::size_t digits = 0;
    for (; i < s.size() && digit(s[i]); ++i) { ++digits; if (s[i] != '0') p.zero = false; }
    if (i < s.size() && s[i] == '.')
        for (++i; i < s.size() && digit(s[i]); ++i) { ++digits; if (s[i] != '0') p.zero = false; }
    if (digits == 0) return p;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
    {
        ++i;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        const std::size_t first = i;
        long long v = 0;
        for (; i < s.size() && digit(s[i]); ++i) if (v < 100000000000ll) v = v * 10 + (s[i] - '0');
        if (i == first) return p;
        if (v > 2147483647ll) p.huge_exponent = true;
    }
    p.ok = i == s.size();
    return p;
}

inline float str_to(const char* s, float) { return std::strtof(s, nullptr); }
inline double str_to(const char* s, double) { return std::strtod(s, nullptr); }
inline long double str_to(const char* s, long double) { return std::strtold(s, nullptr); }

/// Number of representable steps between a and b, at most `cap`.
template <typename T>
int steps(T a, T b, int cap)
{
    int n = 0;
    while (a != b && n < cap) { a = std::nextafter(a, b); ++n; }
    return n;
}

template <typename T>
void check(pbt::Ctx& c, const std::string& s)
{
    const Buf b(s);
    const auto got = gul14::to_number<T>(b.sv());
    const Parsed p = recognize(s);
    if (!p.ok)
    {
        PBT_CHECK(c, !got.has_value(), pbt::show(s) << " is not a number but is accepted as " << pbt::show(*got));
        c.label("rejected");
        return;
    }
    if (p.nan)
    {
        PBT_CHECK(c, got.has_value() && std::isnan(*got), pbt::show(s) << " does not give NaN");
        return;
    }
    const T ref = str_to(s.c_str(), T{});
    if (p.special)
    {
        PBT_CHECK(c, got.has_value() && *got == ref, pbt::show(s) << " does not give infinity");
        return;
    }
    if (!got.has_value())
    {
        PBT_CHECK(c, p.huge_exponent || std::isinf(ref), pbt::show(s) << " is a number but is rejected");
        c.label("refused range");
        return;
    }
    c.label("accepted");
    PBT_CHECK(c, !std::isnan(*got), pbt::show(s) << " gives NaN");
    if (p.zero) PBT_CHECK(c, *got == 0, pbt::show(s) << " gives " << pbt::show(*got));
    PBT_CHECK(c, std::signbit(*got) == p.neg, pbt::show(s) << " gives the wrong sign: " << pbt::show(*got));
    int tol = sizeof(T) == 4 ? 2 : sizeof(T) == 8 ? 4 : 32;
    if (sizeof(T) > 8 && std::abs(static_cast<long double>(ref)) < 1e-4900L) tol = 64;
    const int n = steps(*got, ref, 200);
    PBT_CHECK(c, n <= tol, pbt::show(s) << " gives " << pbt::show(*got) << " instead of " << pbt::show(ref) << ", "
        << (n >= 200 ? "200 or more" : std::to_string(n)) << " representable steps away");
    if (sizeof(T) <= 8)
    {
        const long double wide = std::strtold(s.c_str(), nullptr);
        if (std::abs(wide) > static_cast<long double>(std::numeric_limits<T>::max()) * (1 + 1e-5L))
            PBT_CHECK(c, std::isinf(*got), pbt::show(s) << " is beyond the range but gives " << pbt::show(*got));
    }
    c.label_if(std::isinf(ref), "overflow");
    c.label_if(ref == 0 && !p.zero, "underflow");
    c.label_if(std::fpclassify(ref) == FP_SUBNORMAL, "subnormal");
}

void check_one(pbt::Ctx& c, const std::string& s)
{
    auto ws = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
    if (!s.empty() && (ws(s.front()) || ws(s.back()))) return;
    switch (c.below(3))
    {
    case 0: check<float>(c, s); break;
    case 1: check<double>(c, s); break;
    default: check<long double>(c, s); break;
    }
}

std::string mantissa(pbt::Ctx& c)
{
    std::string s;
    auto digits = [&] {
        switch (c.weighted({ 6, 3, 2, 1 }))
        {
        case 0: return from(c, "0123456789", c.below(6));
        case 1: return from(c, "0123456789", 15 + c.below(10));
        case 2: return from(c, "0000000009", c.below(30));
        default: return std::string(c.below(c.tier ? 6000 : 700), c.pick<char>({ '0', '0', '9', '1' })) + from(c, "0123456789", c.below(25));
        }
    };
    s = digits();
    if (c.chance(2, 3)) s += "." + digits();
    return s;
}
std::string exponent(pbt::Ctx& c)
{
    std::string s(1, c.coin() ? 'e' : 'E');
    switch (c.below(3)) { case 0: break; case 1: s += '+'; break; default: s += '-'; break; }
    switch (c.weighted({ 6, 3, 3, 2, 2, 1, 4 }))
    {
    case 6: s += std::to_string(c.pick<int>({ 38, 45, 308, 324, 4932, 4951 }) + c.range(-7, 7)); break;
    case 0: s += std::to_string(c.below(30)); break;
    case 1: s += std::to_string(c.below(50)); break;
    case 2: s += std::to_string(c.below(360)); break;
    case 3: s += std::to_string(4850 + c.below(150)); break;
    case 4: s += std::to_string(c.below(6000)); break;
    default: s += c.pick<const char*>({ "2147483647", "2147483646", "2147483640", "2147483648", "99999999999999", "0000000000000000012", "8191", "8192", "16384" }); break;
    }
    return s;
}
std::string gen(pbt::Ctx& c)
{
    std::string s = c.chance(1, 4) ? "-" : "";
    if (c.chance(1, 12))
    {
        std::string n = c.pick<const char*>({ "inf", "infinity", "nan", "nan()", "nan(12_aZ)", "nan(_)" });
        for (char& ch : n) if (c.chance(1, 3)) ch = upper(ch);
        return s + n;
    }
    s += mantissa(c);
    if (c.chance(2, 3)) s += exponent(c);
    return s;
}
}

PBT_FACET(well_formed, 1500000, 12000000)
{
    const std::string s = gen(c);
    c.note_f([&] { return "parse " + pbt::show(s); });
    const Parsed p = recognize(s);
    if (p.ok && !p.zero) c.nontrivial();
    check_one(c, s);
}
PBT_FACET(mutated, 1500000, 12000000)
{
    std::string s = gen(c);
    for (std::size_t k = 1 + c.below(2); k > 0; --k)
    {
        const std::size_t at = c.below(s.size() + 1);
        switch (c.weighted({ 4, 4, 2, 2, 1 }))
        {
        case 0: s.insert(at, 1, c.pick<char>({ '+', '-', '.', '\0', 'e', 'E', 'x', 'p', ',', '_', '(', ')', 'f', 'n', ' ', '/', ':' })); break;
        case 1: if (at < s.size()) s[at] = c.pick<char>({ '+', '-', '.', '\0', 'e', 'E', 'x', 'p', ',', '_', '(', ')', 'f', 'n', ' ', '/', ':' }); break;
        case 2: if (at < s.size()) s.erase(at, 1); break;
        case 3: s.insert(at, 1, any_char(c)); break;
        default: s.resize(at); break;
        }
    }
    c.note_f([&] { return "parse " + pbt::show(s); });
    if (s.size() > 2) c.nontrivial();
    check_one(c, s);
}
PBT_FACET(round_trip, 1200000, 9600000)
{
    // text produced by printf with enough digits for any value
    c.nontrivial();
    char buf[6000];
    auto print = [&](const char* f, auto v, int prec) { std::snprintf(buf, sizeof buf, f, prec, v); };
    switch (c.below(3))
    {
    case 0:
    {
        std::uint32_t u = static_cast<std::uint32_t>(c.u64());
        float f;
        std::memcpy(&f, &u, 4);
        if (c.chance(1, 3)) f = static_cast<float>(c.range(-2000000, 2000000)) / 16;
        print(c.coin() ? "%.*g" : "%.*e", static_cast<double>(f), 9);
        break;
    }
    case 1:
    {
        std::uint64_t u = c.u64();
        double f;
        std::memcpy(&f, &u, 8);
        if (c.chance(1, 3)) f = static_cast<double>(c.integer<long long>()) / 1024;
        print(c.chance(1, 8) ? "%.*f" : c.coin() ? "%.*g" : "%.*e", f, 17);
        break;
    }
    default:
    {
        long double f = std::ldexp(static_cast<long double>(c.u64()), static_cast<int>(c.range(-16500, 16300)));
        if (c.coin()) f = -f;
        print(c.coin() ? "%.*Lg" : "%.*Le", f, 21);
        break;
    }
    }
    const std::string s = buf;
    c.note_f([&] { return "parse " + pbt::show(s); });
    check_one(c, s);
}
PBT_MAIN
