// C33: formatting and parsing of dates and times.
//
// Oracles: (1) an independent formatter of every conversion specifier on top of cal.h,
// (2) an independent reference parser: it splits the text into fields, solves them for a
// date and a time of day and accepts only if every field agrees with the solution,
// (3) the round trip text -> value -> text.
#ifndef C33_MACHINE_H_
#define C33_MACHINE_H_
#pragma GCC diagnostic ignored "-Wunused-function"
#include "pbt.h"
#include "cal.h"
#include <gul14/date.h>
#include <iomanip>
#include <locale>

namespace gd = gul14::date;
namespace sc = std::chrono;
using pbt::Ctx;
using I = std::int64_t;
using cal::Date;

static const char* const WDAY[7] = { "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday" };
static const char* const MON[12] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };

static std::string pad(I v, int w, char fill = '0')
{
    std::string s = std::to_string(v < 0 ? -v : v);
    while (static_cast<int>(s.size()) < w) s.insert(s.begin(), fill);
    return v < 0 ? "-" + s : s;
}

/// What can be known about a value that is to be formatted.
struct Fields
{
    bool ymd = false, has_y = false, has_m = false, has_d = false;   // ymd: a complete valid date
    Date date{ 0, 0, 0 };
    I day = 0;
    int wd = -1;                           // 0 = Sunday
    bool tod = false, neg = false;
    I h = 0, mi = 0, s = 0, sub = 0;       // sub in units of 10^-width
    int width = 0;
    bool has_off = false;
    I off_min = 0;
    bool has_abbrev = false;
    std::string abbrev;
    std::string count, unit;
    void set_day(I n)
    {
        day = n; date = cal::date(n); ymd = has_y = has_m = has_d = true; wd = cal::wday(n);
    }
};

static int week_from(const Fields& f, int first) // first day of the week
{
    // Number of week starts (of weekday `first`) in this year up to and including the day.
    int n = 0;
    for (I d = cal::jan1(f.date.y); d <= f.day; ++d) if (cal::wday(d) == first) ++n;
    return n;
}

static std::string year_text(I y) { return pad(y, 4); }

/// Text of one conversion specifier; ok = false if a needed field is not there.
static std::string spec_text(char s, const Fields& f, bool& ok, bool& minus)
{
    I iy = 0; int iw = 0;
    if (f.ymd) cal::iso_week(f.day, iy, iw);
    auto need = [&](bool b) { if (!b) ok = false; return b; };
    auto sign = [&]() -> std::string { if (minus) { minus = false; return "-"; } return ""; };
    auto secs = [&]() { return pad(f.s, 2) + (f.width ? "." + pad(f.sub, f.width) : ""); };
    switch (s)
    {
    case 'a': return need(f.wd >= 0) ? std::string(WDAY[f.wd]).substr(0, 3) : "";
    case 'A': return need(f.wd >= 0) ? WDAY[f.wd] : "";
    case 'u': return need(f.wd >= 0) ? std::to_string(f.wd ? f.wd : 7) : "";
    case 'w': return need(f.wd >= 0) ? std::to_string(f.wd) : "";
    case 'b': case 'h': return need(f.has_m) ? std::string(MON[f.date.m - 1]).substr(0, 3) : "";
    case 'B': return need(f.has_m) ? MON[f.date.m - 1] : "";
    case 'm': return need(f.has_m) ? pad(f.date.m, 2) : "";
    case 'd': return need(f.has_d) ? pad(f.date.d, 2) : "";
    case 'e': return need(f.has_d) ? pad(f.date.d, 2, ' ') : "";
    case 'Y': return need(f.has_y) ? year_text(f.date.y) : "";
    case 'y': return need(f.has_y) ? pad(std::abs(f.date.y) % 100, 2) : "";
    case 'C': return need(f.has_y) ? pad(cal::fdiv(f.date.y, 100), 2) : "";
    case 'F': return need(f.ymd) ? year_text(f.date.y) + "-" + pad(f.date.m, 2) + "-" + pad(f.date.d, 2) : "";
    case 'D': case 'x': return need(f.ymd) ? pad(f.date.m, 2) + "/" + pad(f.date.d, 2) + "/" + pad(std::abs(f.date.y) % 100, 2) : "";
    case 'j':
        if (f.ymd) return pad(cal::yday(f.date), 3);
        return need(f.tod) ? pad(f.h / 24, 3) : "";
    case 'G': return need(f.ymd) ? year_text(iy) : "";
    case 'g': return need(f.ymd) ? pad(std::abs(iy) % 100, 2) : "";
    case 'V': return need(f.ymd) ? pad(iw, 2) : "";
    case 'U': return need(f.ymd) ? pad(week_from(f, 0), 2) : "";
    case 'W': return need(f.ymd) ? pad(week_from(f, 1), 2) : "";
    case 'H': return need(f.tod) ? sign() + pad(f.h, 2) : "";
    case 'I': return need(f.tod) ? sign() + pad(f.h % 12 ? f.h % 12 : 12, 2) : "";
    case 'M': return need(f.tod) ? sign() + pad(f.mi, 2) : "";
    case 'S': return need(f.tod) ? sign() + secs() : "";
    case 'R': return need(f.tod) ? sign() + pad(f.h, 2) + ":" + pad(f.mi, 2) : "";
    case 'T': return need(f.tod) ? std::string(f.neg ? "-" : "") + pad(f.h, 2) + ":" + pad(f.mi, 2) + ":" + secs() : "";
    case 'X': return need(f.tod) ? pad(f.h, 2) + ":" + pad(f.mi, 2) + ":" + pad(f.s, 2) : "";
    case 'p': return need(f.tod) ? (f.h % 24 < 12 ? "AM" : "PM") : "";
    case 'r': return need(f.tod) ? pad(f.h % 12 ? f.h % 12 : 12, 2) + ":" + pad(f.mi, 2) + ":" + pad(f.s, 2) + (f.h % 24 < 12 ? " AM" : " PM") : "";
    case 'c':
        if (!need(f.ymd && f.tod)) return "";
        return std::string(WDAY[f.wd]).substr(0, 3) + " " + std::string(MON[f.date.m - 1]).substr(0, 3) + " "
            + pad(f.date.d, 2, ' ') + " " + pad(f.h, 2) + ":" + pad(f.mi, 2) + ":" + pad(f.s, 2) + " " + year_text(f.date.y);
    case 'Q': return need(f.tod) ? f.count : "";
    case 'q': return need(f.tod) ? f.unit : "";
    case 'Z': return need(f.has_abbrev) ? f.abbrev : "";
    case 'z': return need(f.has_off) ? (f.off_min < 0 ? "-" : "+") + pad(std::abs(f.off_min) / 60, 2) + pad(std::abs(f.off_min) % 60, 2) : "";
    case ':': return need(f.has_off) ? (f.off_min < 0 ? "-" : "+") + pad(std::abs(f.off_min) / 60, 2) + ":" + pad(std::abs(f.off_min) % 60, 2) : "";
    case 'n': return "\n";
    case 't': return "\t";
    case '%': return "%";
    default: return "?";
    }
}

static const std::string ALL_SPECS = "aAbBhcxCdeDFgGHIjmMnpQqrRStTuUVwWXyYzZ%";
static bool has_char(const char* s, char c) { return std::strchr(s, c) != nullptr; }

/// Expected output for a whole format string.
static std::string ref_format(const std::string& fmt, const Fields& f, bool& ok)
{
    std::string r;
    bool minus = f.tod && f.neg;
    for (std::size_t i = 0; i < fmt.size(); ++i)
    {
        if (fmt[i] != '%') { r += fmt[i]; continue; }
        if (i + 1 == fmt.size()) { r += '%'; break; }
        char s = fmt[++i];
        if (s == 'E' || s == 'O')
        {
            if (i + 1 == fmt.size()) { r += '%'; r += s; break; }
            const char k = fmt[++i];
            const bool valid = s == 'E' ? has_char("cCxXyYz", k) : has_char("deHImMSuUVwWyz", k);
            if (!valid) { r += '%'; r += s; r += k; continue; }
            if (k == 'z') { r += spec_text(':', f, ok, minus); continue; }
            if (k == 'S')                 // no fraction
            {
                Fields g = f; g.width = 0;
                r += spec_text('S', g, ok, minus);
                continue;
            }
            r += spec_text(k, f, ok, minus);
            continue;
        }
        if (ALL_SPECS.find(s) == std::string::npos) { r += '%'; r += s; continue; }
        r += spec_text(s, f, ok, minus);
    }
    return r;
}

// ---------------------------------------------------------------------------------------
// Time points of all precisions

template <class D> struct Prec
{
    using P = typename D::period;
    static constexpr I per_day = P::num >= 86400 ? 1 : 86400 / (P::den == 1 ? P::num : 1) * P::den;
    // decimal digits needed to show 1/den exactly
    static int width()
    {
        if (P::den == 1) return 0;
        I p = 1; int w = 0;
        while (p % P::den != 0) { p *= 10; ++w; }
        return w;
    }
    static I scale() { I p = 1; for (int i = 0; i < width(); ++i) p *= 10; return p; }
    static bool narrow() { return P::den >= 1000000000; }
};
using quarter = sc::duration<I, std::ratio<1, 4>>;
using tenth = sc::duration<I, std::ratio<1, 10>>;
using d1024 = sc::duration<I, std::ratio<1, 1024>>;

static I gen_day(Ctx& c, I y0, I y1)
{
    const I lo = cal::jan1(y0), hi = cal::jan1(y1 + 1) - 1;
    switch (c.weighted({ 4, 3, 3, 2 }))
    {
    case 0: { const I a = std::max(lo, cal::jan1(1900)), b = std::min(hi, cal::jan1(2101)); return c.range(a, b); }
    case 1: return c.range(lo, hi);
    case 2: // around the turn of a year
    {
        const I y = c.coin() ? c.range(std::max<I>(y0, 1960), std::min<I>(y1, 2070)) : c.range(y0, y1);
        return std::min(hi, std::max(lo, cal::jan1(y) + c.range(-8, 8)));
    }
    default: // the end of a month
    {
        const I y = c.range(y0, y1);
        const int m = static_cast<int>(c.range(1, 12));
        return cal::number({ y, m, c.coin() ? cal::mdays(y, m) : static_cast<int>(c.range(1, cal::mdays(y, m))) });
    }
    }
}

template <class D> static I gen_tick(Ctx& c)
{
    const I n = Prec<D>::per_day;
    switch (c.weighted({ 3, 2, 2, 2 }))
    {
    case 0: return c.range(0, n - 1);
    case 1: return c.coin() ? 0 : n - 1;
    case 2: // whole seconds
    {
        if (n <= 86400) return c.range(0, n - 1);
        return c.range(0, 86399) * (n / 86400);
    }
    default: // around whole hours, especially noon
    {
        if (n < 24) return 0;
        const I k = (c.coin() ? 12 : c.range(0, 23)) * (n / 24) + c.range(-2, 2);
        return std::min(n - 1, std::max<I>(0, k));
    }
    }
}

template <class D> static void set_tod(Fields& f, I tick)
{
    f.tod = true;
    const I n = Prec<D>::per_day;
    I s, sub = 0;
    if (n <= 86400) s = tick * (86400 / n);
    else { const I den = n / 86400; s = tick / den; sub = (tick % den) * (Prec<D>::scale() / den); }
    f.h = s / 3600; f.mi = s / 60 % 60; f.s = s % 60; f.sub = sub; f.width = Prec<D>::width();
}

// --- random format strings ---

static std::string gen_format(Ctx& c, const std::string& specs, bool modifiers)
{
    std::string f;
    std::size_t n = 0;
    while (c.more(n, 5, 20))
    {
        switch (c.weighted({ 8, 3, modifiers ? 2u : 0u, 1 }))
        {
        case 0: f += '%'; f += specs[c.below(specs.size())]; break;
        case 1: f += c.pick<const char*>({ " ", "-", ":", "T", "Y", "d", "m", "H", "Z", "q", "E", "O", "x", "abc", "0", "9", ".", "/", ",", "\n", "_", "[", "y", "n", "k" }); break;
        case 2:
            f += '%'; f += c.coin() ? 'E' : 'O';
            f += c.chance(3, 4) ? ALL_SPECS[c.below(ALL_SPECS.size())] : c.pick<char>({ 'E', 'O', 'k', ' ', '1', '-' });
            break;
        default: f += c.pick<const char*>({ "%%", "%k", "%l", "%-", "%f", "%1", "% ", "%s", "%L", "%i", "%v" }); break;
        }
    }
    if (c.chance(1, 20)) f += '%';
    else if (modifiers && c.chance(1, 40)) f += "%E";
    return f;
}

/// Years outside of 1000 to 9999 are left out for what goes through the C library.
static bool c_library_years(const std::string& fmt)
{
    for (std::size_t i = 0; i + 1 < fmt.size(); ++i)
    {
        if (fmt[i] != '%') continue;
        const char s = fmt[i + 1];
        if (s == 'c' || s == 'x' || s == 'E' || s == 'O') return true;
        ++i;
    }
    return false;
}

template <class V> static void check_format(Ctx& c, const std::string& fmt, const V& v, const std::string& want, bool ok, const std::string& what)
{
    // format() throws if a field is missing
    std::string got;
    bool threw = false;
    try { got = c.coin() ? gd::format(fmt, v) : c.coin() ? gd::format(fmt.c_str(), v) : gd::format(std::locale::classic(), fmt, v); }
    catch (const std::ios_base::failure&) { threw = true; }
    PBT_CHECK(c, threw == !ok, "format(" << pbt::show(fmt) << ") of " << what << (threw ? " failed" : " should fail but gives ") << pbt::show(got) << ", expected " << pbt::show(want));
    if (!threw) PBT_CHECK(c, got == want, "format(" << pbt::show(fmt) << ") of " << what << " gives " << pbt::show(got) << ", expected " << pbt::show(want));
    // to_stream() into a stream with unusual settings
    std::ostringstream os;
    os.fill('*');
    os.setf(std::ios::hex, std::ios::basefield);
    os.setf(std::ios::showpos | std::ios::uppercase | std::ios::showbase);
    os.setf(std::ios::left, std::ios::adjustfield);
    os.precision(3);
    const auto flags = os.flags();
    gd::to_stream(os, fmt.c_str(), v);
    PBT_CHECK(c, os.fail() == !ok, "to_stream(" << pbt::show(fmt) << ") of " << what << ": stream state " << os.fail());
    if (ok) PBT_CHECK(c, os.str() == want, "to_stream(" << pbt::show(fmt) << ") of " << what << " writes " << pbt::show(os.str()) << ", expected " << pbt::show(want));
    PBT_CHECK(c, os.flags() == flags && os.fill() == '*' && os.precision() == 3, "to_stream changed the settings of the stream, format " << pbt::show(fmt));
    // wide characters
    if (c.chance(1, 3))
    {
        const std::wstring wf(fmt.begin(), fmt.end());
        std::wstring ww;
        for (char ch : want) if (ch != '\xC2') ww += static_cast<wchar_t>(static_cast<unsigned char>(ch));
        std::wstring wg;
        bool wthrew = false;
        try { wg = gd::format(wf, v); }
        catch (const std::ios_base::failure&) { wthrew = true; }
        PBT_CHECK(c, wthrew == !ok, "wide format(" << pbt::show(fmt) << ") of " << what << (wthrew ? " failed" : " should fail"));
        if (ok) PBT_CHECK(c, wg == ww, "wide format(" << pbt::show(fmt) << ") of " << what << " gives " << pbt::show(std::string(wg.begin(), wg.end())) << ", expected " << pbt::show(want));
    }
}

static std::string desc(const Fields& f)
{
    std::ostringstream o;
    if (f.ymd) o << f.date.y << "-" << f.date.m << "-" << f.date.d << " (day " << f.day << ") ";
    if (f.tod) o << (f.neg ? "-" : "") << f.h << ":" << f.mi << ":" << f.s << "+" << f.sub << "e-" << f.width << " ";
    return o.str();
}

template <class D> void parse_either(Ctx& c, bool mutated);

// ---------------------------------------------------------------------------------------
// Reference parser

struct Parsed
{
    enum class R { accept, reject, unknown } r = R::reject;
    // fields found in the text, each with "given" flags
    std::map<char, I> v;          // Y y C G g m d j w U V W H I p M
    bool has_s = false;
    std::string s_int, s_frac;
    bool has_z = false; I off = 0;
    bool has_Z = false; std::string abbrev;
    std::size_t end = 0;          // how much of the text is used
    std::string why;
    bool unknown = false;
};

struct Scan
{
    const std::string& t;
    std::size_t p = 0;
    bool bad = false;
    Parsed& out;
    int sec_chars;

    bool eof() const { return p >= t.size(); }
    static bool dig(char ch) { return ch >= '0' && ch <= '9'; }
    void fail(const char* why) { if (!bad) out.why = why; bad = true; }
    void set(char k, I v)
    {
        const auto it = out.v.find(k);
        if (it == out.v.end()) out.v[k] = v;
        else if (it->second != v)
        {
            if ((k == 'm' || k == 'd') && (v == 0 || it->second == 0)) out.unknown = true; // 00 counts as "not given"
            fail("two different values for one field");
        }
    }
    bool number(unsigned maxd, I& v, unsigned mind = 1)
    {
        v = 0;
        unsigned n = 0;
        while (!eof() && dig(t[p]) && n < maxd) { v = std::min<I>(v * 10 + (t[p] - '0'), 4000000000ll); ++p; ++n; }
        if (n < mind) { fail("no number"); return false; }
        return true;
    }
    void unsigned_field(char k, unsigned maxd)
    {
        if (!eof() && (t[p] == '+' || t[p] == '-')) out.unknown = true; // some fields take a sign
        I v;
        if (number(maxd, v)) set(k, v);
    }
    void signed_field(char k, unsigned maxd)
    {
        bool neg = false;
        if (!eof() && (t[p] == '-' || t[p] == '+')) { neg = t[p] == '-'; ++p; }
        I v;
        if (number(maxd, v)) set(k, neg ? -v : v);
    }
    void literal(char ch)
    {
        if (eof() || t[p] != ch) { fail("literal"); return; }
        ++p;
    }
    void seconds(int chars)
    {
        std::string a, b;
        bool point = false;
        int n = 0;
        while (!eof() && n < chars)
        {
            if (t[p] == '.' && !point) point = true;
            else if (dig(t[p])) (point ? b : a) += t[p];
            else break;
            ++p; ++n;
        }
        if (a.empty() && b.empty()) { fail("no seconds"); return; }
        if (a.empty()) out.unknown = true;           // ".5"
        if (out.has_s) { if (out.s_int != a || out.s_frac != b) out.unknown = true; }
        out.has_s = true; out.s_int = a; out.s_frac = b;
    }
    void name(const char* const* names, int n, char k, int add, bool abbreviated)
    {
        std::string w;
        while (p + w.size() < t.size() && std::isalpha(static_cast<unsigned char>(t[p + w.size()]))) w += t[p + w.size()];
        for (int i = 0; i < n; ++i)
        {
            const std::string full = names[i], ab = full.substr(0, 3);
            if (w == full || w == ab)
            {
                if ((w == ab) != abbreviated && full != ab) out.unknown = true;
                p += w.size();
                set(k, i + add);
                return;
            }
        }
        // Some other word: only the clear cases are judged.
        if (!w.empty())
            for (int i = 0; i < n; ++i)
                if (std::toupper(static_cast<unsigned char>(w[0])) == names[i][0]) { out.unknown = true; return; }
        fail("no name");
    }
    void ampm()
    {
        if (p + 2 <= t.size() && t[p + 1] == 'M' && (t[p] == 'A' || t[p] == 'P')) { set('p', t[p] == 'P'); p += 2; return; }
        if (p + 2 <= t.size() && std::toupper(static_cast<unsigned char>(t[p + 1])) == 'M' && std::strchr("APap", t[p])) out.unknown = true;
        fail("no AM/PM");
    }
    void zone(bool colon)
    {
        bool neg = false;
        if (eof()) { fail("no offset"); return; }
        if (t[p] == '-' || t[p] == '+') { neg = t[p] == '-'; ++p; }
        else if (dig(t[p])) out.unknown = true;
        I h, m = 0;
        if (!number(2, h, colon ? 1 : 2)) return;
        if (colon) { if (!eof() && t[p] == ':') { ++p; if (!number(2, m, 2)) return; } }
        else if (!eof() && dig(t[p])) { if (!number(2, m, 2)) return; }
        if (m > 59) { fail("minutes of the offset"); return; }
        if (h > 23) out.unknown = true;
        const I o = (neg ? -1 : 1) * (h * 60 + m);
        if (out.has_z && out.off != o) { fail("two offsets"); return; }
        out.has_z = true; out.off = o;
    }
    void abbreviation()
    {
        std::string a;
        while (!eof() && (std::isalnum(static_cast<unsigned char>(t[p])) || std::strchr("_/-+", t[p])) && t[p]) a += t[p++];
        if (a.empty()) { fail("no time zone"); return; }
        if (out.has_Z && out.abbrev != a) { fail("two time zones"); return; }
        out.has_Z = true; out.abbrev = a;
    }
    static bool space(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
};

/// Fields of a text according to a format.
static Parsed ref_scan(const std::string& fmt, const std::string& text, int frac_width)
{
    Parsed out;
    const int sec_chars = frac_width ? 3 + frac_width : 2;
    Scan s{ text, 0, false, out, sec_chars };
    for (std::size_t i = 0; i < fmt.size() && !s.bad; ++i)
    {
        if (fmt[i] != '%')
        {
            if (Scan::space(fmt[i])) while (!s.eof() && Scan::space(text[s.p])) ++s.p;
            else s.literal(fmt[i]);
            continue;
        }
        char k = fmt[++i];
        unsigned w = 0;
        while (Scan::dig(k)) { w = w * 10 + static_cast<unsigned>(k - '0'); k = fmt[++i]; }
        char mod = 0;
        if (k == 'E' || k == 'O') { mod = k; k = fmt[++i]; }
        auto width = [&](unsigned d) { return w ? w : d; };
        switch (k)
        {
        case 'Y': s.signed_field('Y', width(4)); break;
        case 'G': s.signed_field('G', width(4)); break;
        case 'C': s.signed_field('C', width(2)); break;
        case 'y': s.unsigned_field('y', width(2)); break;
        case 'g': s.unsigned_field('g', width(2)); break;
        case 'm': s.unsigned_field('m', width(2)); break;
        case 'd': case 'e': s.unsigned_field('d', width(2)); break;
        case 'j': s.unsigned_field('j', width(3)); break;
        case 'U': case 'V': case 'W': s.unsigned_field(k, width(2)); break;
        case 'u': case 'w':
        {
            I v;
            if (!s.number(1, v)) break;
            if (k == 'u') { if (v < 1 || v > 7) s.fail("weekday"); else s.set('w', v % 7); }
            else { if (v > 6) s.fail("weekday"); else s.set('w', v); }
            break;
        }
        case 'a': s.name(WDAY, 7, 'w', 0, true); break;
        case 'A': s.name(WDAY, 7, 'w', 0, false); break;
        case 'b': case 'h': s.name(MON, 12, 'm', 1, true); break;
        case 'B': s.name(MON, 12, 'm', 1, false); break;
        case 'F':
            s.signed_field('Y', width(4)); if (!s.bad) s.literal('-');
            if (!s.bad) s.unsigned_field('m', 2);
            if (!s.bad) s.literal('-');
            if (!s.bad) s.unsigned_field('d', 2);
            break;
        case 'D':
            s.unsigned_field('m', 2); if (!s.bad) s.literal('/');
            if (!s.bad) s.unsigned_field('d', 2);
            if (!s.bad) s.literal('/');
            if (!s.bad) s.unsigned_field('y', 2);
            break;
        case 'H': case 'M': s.unsigned_field(k, width(2)); break;
        case 'I': s.unsigned_field('I', width(2)); break;
        case 'S': s.seconds(mod ? 2 : sec_chars); break;
        case 'T':
            s.unsigned_field('H', 2); if (!s.bad) s.literal(':');
            if (!s.bad) s.unsigned_field('M', 2);
            if (!s.bad) s.literal(':');
            if (!s.bad) s.seconds(sec_chars);
            break;
        case 'R':
            s.unsigned_field('H', 2); if (!s.bad) s.literal(':');
            if (!s.bad) s.unsigned_field('M', 2);
            break;
        case 'p': s.ampm(); break;
        case 'z': s.zone(mod != 0); break;
        case 'Z': s.abbreviation(); break;
        case 'n': if (s.eof() || !Scan::space(text[s.p])) s.fail("white space"); else ++s.p; break;
        case 't': if (!s.eof() && Scan::space(text[s.p])) ++s.p; break;
        case '%': s.literal('%'); break;
        default: out.unknown = true; break;
        }
    }
    out.end = s.p;
    out.r = s.bad ? Parsed::R::reject : Parsed::R::accept;
    return out;
}

/// Solves the date fields. Sets r to reject if there is no (complete and consistent) date.
static void solve_date(Parsed& q, I& day)
{
    auto has = [&](char k) { return q.v.count(k) != 0; };
    auto get = [&](char k) { return q.v.at(k); };
    auto reject = [&](const char* w) { q.r = Parsed::R::reject; q.why = w; };
    if (q.r == Parsed::R::reject) return;
    bool hasY = has('Y');
    I Y = hasY ? get('Y') : 0;
    if (has('y'))
    {
        const I y2 = get('y');
        I full;
        if (has('C')) { const I C = get('C'); full = C >= 0 ? 100 * C + y2 : 100 * (C + 1) - (y2 ? y2 : 100); }
        else if (hasY) { if (std::abs(Y) % 100 != y2) return reject("%y and %Y"); full = Y; }
        else full = y2 >= 69 ? 1900 + y2 : 2000 + y2;
        if (hasY && full != Y) return reject("%y and %Y");
        Y = full; hasY = true;
    }
    else if (has('C') && hasY && cal::fdiv(Y, 100) != get('C')) q.unknown = true; // %C alone is not used
    bool hasG = has('G');
    I G = hasG ? get('G') : 0;
    if (has('g'))
    {
        const I g2 = get('g');
        if (hasG) { if (std::abs(G) % 100 != g2) return reject("%g and %G"); }
        else { G = g2 >= 69 ? 1900 + g2 : 2000 + g2; hasG = true; }
        if (has('C') || has('y')) q.unknown = true; // whose century is it?
    }
    if (hasY && (Y < cal::first_year || Y > cal::last_year)) { q.unknown = q.unknown || hasG; return reject("year out of range"); }
    if (hasG && (G <= cal::first_year + 1 || G >= cal::last_year)) { if (G >= cal::first_year && G <= cal::last_year) q.unknown = true; if (hasY) q.unknown = true; return reject("ISO year out of range"); }
    // 00 for a month or a day counts as "not given" in some combinations
    if ((has('m') && get('m') == 0) || (has('d') && get('d') == 0))
    {
        if (has('j') || has('U') || has('V') || has('W')) q.unknown = true;
        return reject("month or day is 0");
    }
    bool solved = false;
    if (hasY && has('m') && has('d'))
    {
        if (get('m') > 12 || get('d') > cal::mdays(Y, get('m'))) return reject("no such date");
        day = cal::number({ Y, static_cast<int>(get('m')), static_cast<int>(get('d')) });
        solved = true;
    }
    if (!solved && hasY && has('j'))
    {
        if (get('j') < 1 || get('j') > (cal::leap(Y) ? 366 : 365)) return reject("no such day of the year");
        day = cal::jan1(Y) + get('j') - 1;
        solved = true;
    }
    if (!solved && hasG && has('V') && has('w'))
    {
        // search the ISO year for the day
        if (get('V') < 1 || get('V') > 53) return reject("ISO week");
        for (I d = cal::jan1(G) - 7; d < cal::jan1(G) + 375 && !solved; ++d)
        {
            I iy; int iw;
            cal::iso_week(d, iy, iw);
            if (iy == G && iw == get('V') && cal::wday(d) == get('w')) { day = d; solved = true; }
        }
        if (!solved) return reject("no such ISO week");
    }
    for (int k = 0; k < 2 && !solved; ++k)
        if (hasY && has(k ? 'W' : 'U') && has('w'))
        {
            for (I d = cal::jan1(Y); d < cal::jan1(Y + 1) && !solved; ++d)
            {
                if (cal::wday(d) != get('w')) continue;
                Fields f; f.set_day(d);
                if (week_from(f, k) == get(k ? 'W' : 'U')) { day = d; solved = true; }
            }
            if (!solved) return reject("no such week");
        }
    if (!solved) return reject("date not determined");
    Fields f;
    f.set_day(day);
    I iy; int iw;
    cal::iso_week(day, iy, iw);
    if (f.date.y < cal::first_year || f.date.y > cal::last_year) { q.unknown = true; return; }
    const std::pair<char, I> all[] = { { 'm', f.date.m }, { 'd', f.date.d }, { 'j', cal::yday(f.date) }, { 'w', f.wd },
        { 'V', iw }, { 'U', week_from(f, 0) }, { 'W', week_from(f, 1) } };
    if (hasY && Y != f.date.y) return reject("year");
    if (hasG && G != iy) return reject("ISO year");
    for (const auto& a : all)
        if (has(a.first) && get(a.first) != a.second) return reject("fields do not agree");
}

/// Solves the time fields; num / den seconds since midnight.
static void solve_time(Parsed& q, I& secs, std::string& frac, bool any_range)
{
    if (q.r == Parsed::R::reject) return;
    auto has = [&](char k) { return q.v.count(k) != 0; };
    auto get = [&](char k) { return q.v.at(k); };
    auto reject = [&](const char* w) { q.r = Parsed::R::reject; q.why = w; };
    I H = has('H') ? get('H') : 0;
    if (has('I'))
    {
        const I i = get('I');
        if (i < 1 || i > 12) return reject("%I");
        if (has('p'))
        {
            const I h = i % 12 + (get('p') ? 12 : 0);
            if (has('H') && h != H) return reject("%H and %I %p");
            H = h;
        }
        else if (!has('H')) return reject("%I without %p");
        else if (H % 12 != i % 12) return reject("%H and %I");
        else if (H > 23) q.unknown = true;
    }
    else if (has('p'))
    {
        if (!has('H') || (H < 24 && (H >= 12) != (get('p') == 1))) q.unknown = true; // %p without %I is not used
    }
    const I M = has('M') ? get('M') : 0;
    const I S = q.has_s && !q.s_int.empty() ? std::stoll(q.s_int) : 0;
    if (!any_range) { if (H > 23 || M > 59 || S > 59) return reject("time of day out of range"); }
    else if (M > 59 || S > 59) q.unknown = true;
    secs = H * 3600 + M * 60 + S;
    frac = q.s_frac;
}

// --- formats that determine a time point ---

struct FormatChoice { std::string fmt; I y0, y1; bool full_time; bool has_zone; bool libc; };

static FormatChoice gen_time_format(Ctx& c, bool seconds_only)
{
    FormatChoice r{ "", -9999, 9999, false, false, false };
    static const char* const dates[] = { "%Y-%m-%d", "%F", "%D", "%y%m%d", "%C%y-%m-%d", "%d %b %Y", "%d %B %Y", " %e. %B %Y",
        "%h %d, %Y", "%Y%m%d", "%Y-%j", "%Y%j", "%G-W%V-%u", "%GW%V%u", "%G %V %a", "%g-W%V-%u", "%Y %U %w", "%Y %U %A",
        "%Y %W %u", "%Y %W %a", "%m/%d/%Y", "%5Y-%m-%d", "%6F", "%5G-W%V-%w", "%d.%m.%Y", "%A, %d. %B %Y", "%j %Y",
        "%u %V %G", "%6Y-%j", "%U/%w %Y", "%W/%a %Y", "%Y-%3m-%4d", "%Od/%Om/%Y", "%m/ %e/%Y", "%x" };
    const std::size_t k = c.below(sizeof dates / sizeof dates[0]);
    std::string d = dates[k];
    if (d.find("%D") != std::string::npos || d.find("%y%") == 0 || d.find("%g") != std::string::npos || d == "%x") { r.y0 = 1969; r.y1 = 2068; }
    if (d.find("%5") != std::string::npos || d.find("%6") != std::string::npos) { r.y0 = -32760; r.y1 = 32760; }
    if (d == "%x" || d.find("%O") != std::string::npos) { r.libc = true; r.y0 = std::max<I>(r.y0, 1000); }
    // The ISO year of a day near the turn of the century may leave the range.
    if (d.find("%g") != std::string::npos) { r.y0 = 1970; r.y1 = 2067; }
    if (d.find("%G") == 0) { r.y0 = std::max<I>(r.y0, -9998); r.y1 = std::min<I>(r.y1, 9998); }
    // redundant fields
    if (c.chance(1, 3))
    {
        std::size_t n = 0;
        while (c.more(n, 2, 4))
        {
            std::string e = c.pick<const char*>({ "%a", "%A", "%u", "%w", "%j", "%U", "%W", "%V", "%G", "%y", "%m", "%d", "%Y", "%b", "%F" });
            if (r.y1 > 9999 && (e == "%G" || e == "%Y" || e == "%F")) continue;
            if (e == "%G") { r.y0 = std::max<I>(r.y0, -9998); r.y1 = std::min<I>(r.y1, 9998); }
            if (d.find("%g") != std::string::npos && e == "%y") continue;
            if (c.coin()) d += "|" + e; else d = e + "|" + d;
        }
    }
    std::string t;
    switch (c.weighted({ 2, 3, 3, 2, 2, 2, 1, 1, 1, 2, 1, 1, 1 }))
    {
    case 0: break;
    case 1: t = "%H:%M:%S"; r.full_time = true; break;
    case 2: t = "%T"; r.full_time = true; break;
    case 3: t = "%R"; break;
    case 4: t = "%I:%M:%S %p"; r.full_time = true; break;
    case 5: t = "%H%M%S"; r.full_time = true; break;
    case 6: t = "%p %I.%M"; break;
    case 7: t = "%H h %M m"; break;
    case 8: t = "%I%p%M;%S"; r.full_time = true; break;
    case 9: t = "%H:%M:%S (%I)"; r.full_time = true; break;
    case 10: t = "%T %I %p"; r.full_time = true; break;
    case 11: t = seconds_only ? c.pick<const char*>({ "%r", "%X", "%OH:%OM:%OS" }) : "%M'%H"; r.full_time = seconds_only; r.libc = r.libc || seconds_only; break;
    default: t = "%3H:%2M:%S"; r.full_time = true; break;
    }
    std::string z;
    switch (c.weighted({ 6, 2, 1, 1, 2, 1 }))
    {
    case 0: break;
    case 1: z = "%z"; break;
    case 2: z = "%Ez"; break;
    case 3: z = "%Oz"; break;
    case 4: z = " %Z"; break;
    default: z = "%z %Z"; break;
    }
    r.has_zone = z.find('z') != std::string::npos;
    auto sep = [&] { return std::string(c.pick<const char*>({ " ", "_", "%n", "%t", " %% ", "%%", ";", "  ", ",", "[x]", "\t", " at " })); };
    if (t.empty()) r.fmt = d + (z.empty() ? "" : sep() + z);
    else if (c.chance(3, 4)) r.fmt = d + (c.coin() && !std::isalpha(static_cast<unsigned char>(0)) ? std::string(" ") : sep()) + t + (z.empty() ? "" : (r.full_time && c.coin() ? "" : " ") + z);
    else r.fmt = t + sep() + (z.empty() ? "" : z + " ") + d;
    if (c.chance(1, 10)) r.fmt += c.pick<const char*>({ " ", "%t", "%t%t", ".", " %t", "%%" });
    if (c.chance(1, 20)) r.fmt = c.pick<const char*>({ " ", "%t", "<", "%%" }) + r.fmt;
    return r;
}

/// A text for the format, token by token (so that whole tokens can be replaced).
static std::vector<std::string> tokens(const std::string& fmt, const Fields& f)
{
    std::vector<std::string> r;
    bool ok = true, minus = false;
    for (std::size_t i = 0; i < fmt.size(); ++i)
    {
        if (fmt[i] != '%') { r.push_back(std::string(1, fmt[i])); continue; }
        char k = fmt[++i];
        std::string w;
        while (Scan::dig(k)) { w += k; k = fmt[++i]; }
        char mod = 0;
        if (k == 'E' || k == 'O') { mod = k; k = fmt[++i]; }
        if (k == 'z' && mod) { r.push_back(spec_text(':', f, ok, minus)); continue; }
        if (k == 'S' && mod) { Fields g = f; g.width = 0; r.push_back(spec_text('S', g, ok, minus)); continue; }
        r.push_back(spec_text(k, f, ok, minus));
    }
    return r;
}

static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& e : v) s += e; return s; }

/// Changes the text; the reference decides what the result means.
static std::string mutate(Ctx& c, std::vector<std::string> tk)
{
    const std::size_t n = 1 + c.below(2);
    std::string s;
    for (std::size_t k = 0; k < n; ++k)
    {
        if (c.coin() && !tk.empty())
        {
            // replace the number in one token
            std::size_t i = c.below(tk.size());
            for (std::size_t tries = 0; tries < tk.size() && !(tk[i].size() > 0 && Scan::dig(tk[i].back())); ++tries) i = (i + 1) % tk.size();
            std::string& e = tk[i];
            std::size_t a = e.size();
            while (a > 0 && Scan::dig(e[a - 1])) --a;
            std::string v = c.pick<const char*>({ "00", "0", "1", "01", "7", "8", "12", "13", "23", "24", "28", "29", "30", "31", "32", "52", "53", "54",
                "59", "60", "61", "99", "000", "001", "365", "366", "367", "999", "0000", "1900", "2000", "9999", "32767", "32768", "99999", "100", "257", "256", "4294967297", "" });
            if (c.coin()) while (v.size() < e.size() - a) v = "0" + v;
            e = e.substr(0, a) + v;
        }
        else
        {
            s = join(tk);
            const std::size_t p = s.empty() ? 0 : c.below(s.size());
            const std::string ins = c.pick<const char*>({ "0", "1", "9", "-", "+", ".", ":", " ", "x", "%", "\n", "A", "P", "/", "5", "2" });
            switch (c.below(6))
            {
            case 0: case 1: if (!s.empty()) s[p] = static_cast<char>('0' + c.below(10)); break;
            case 2: if (!s.empty()) s.erase(p, 1); break;
            case 3: s.insert(p, ins); break;
            case 4: s.resize(p); break;
            default: if (!s.empty()) s[p] = ins[0]; break;
            }
            tk.assign(1, s);
        }
    }
    return join(tk);
}

/// |value - text| must be at most half a unit of the type (in fractions of a second).
template <class D> static bool near_value(I local_days_, I secs, const std::string& frac, D v)
{
    using P = typename D::period;
    // difference in units of 1 / (den * 10^k) seconds
    __int128 scale = 1;
    __int128 fr = 0;
    for (char ch : frac) { scale *= 10; fr = fr * 10 + (ch - '0'); }
    const __int128 text = ((static_cast<__int128>(local_days_) * 86400 + secs) * scale + fr) * P::den;
    const __int128 value = static_cast<__int128>(v.count()) * P::num * scale;
    const __int128 diff = text > value ? text - value : value - text;
    const __int128 unit = static_cast<__int128>(P::num) * scale; // one tick
    return diff * 2 <= unit;
}

template <class Stream> static std::string rest_of(Stream& is)
{
    is.clear();
    using Ch = typename Stream::char_type;
    std::basic_string<Ch> s((std::istreambuf_iterator<Ch>(is)), std::istreambuf_iterator<Ch>());
    return std::string(s.begin(), s.end());
}

/// All ways to call the parser.
template <class V> static bool lib_parse(Ctx& c, const std::string& fmt, const std::string& text, V& v, std::string* abbrev, sc::minutes* off, std::string& rest)
{
    std::istringstream is(text);
    if (c.coin()) is.setf(std::ios::hex, std::ios::basefield);
    if (c.chance(1, 4)) is.unsetf(std::ios::skipws);
    const auto flags = is.flags();
    const auto how = c.below(3);
    if (abbrev && off)
    {
        if (how == 0) gd::from_stream(is, fmt.c_str(), v, abbrev, off);
        else if (how == 1) is >> gd::parse(fmt, v, *abbrev, *off);
        else is >> gd::parse(fmt.c_str(), v, *abbrev, *off);
    }
    else if (abbrev)
    {
        if (how == 0) gd::from_stream(is, fmt.c_str(), v, abbrev);
        else if (how == 1) is >> gd::parse(fmt, v, *abbrev);
        else is >> gd::parse(fmt.c_str(), v, *abbrev);
    }
    else if (off)
    {
        if (how == 0) gd::from_stream(is, fmt.c_str(), v, static_cast<std::string*>(nullptr), off);
        else if (how == 1) is >> gd::parse(fmt, v, *off);
        else is >> gd::parse(fmt.c_str(), v, *off);
    }
    else
    {
        if (how == 0) gd::from_stream(is, fmt.c_str(), v);
        else if (how == 1) is >> gd::parse(fmt, v);
        else is >> gd::parse(fmt.c_str(), v);
    }
    if (is.flags() != flags) c.fail("parsing changed the flags of the stream, format " + pbt::show(fmt));
    const bool ok = !is.fail();
    rest = rest_of(is);
    return ok;
}

#endif
