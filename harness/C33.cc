// C33: formatting and parsing of dates and times (see C33_machine.h).
#include "C33_machine.h"

template <class D> static void format_time_point(Ctx& c)
{
    std::string specs = "aAbBhcxCdeDFgGHIjmMnprRStTuUVwWXyYzZ%";
    const bool mods = c.coin();
    const std::string fmt = gen_format(c, specs, mods);
    I y0 = -32760, y1 = 32760;
    if (c_library_years(fmt)) { y0 = 1000; y1 = 9999; }
    if (Prec<D>::narrow()) { y0 = std::max<I>(y0, 1678); y1 = std::min<I>(y1, 2261); }
    Fields f;
    f.set_day(gen_day(c, y0, y1));
    const I tick = gen_tick<D>(c);
    set_tod<D>(f, tick);
    const D since{ f.day * Prec<D>::per_day + tick };
    if (fmt.find('Q') != std::string::npos || fmt.find('q') != std::string::npos)
    {
        // only after an E or O (a literal), never as a conversion
    }
    c.nontrivial();
    c.note_f([&] { return "format " + pbt::show(fmt) + " of " + desc(f); });
    bool ok = true;
    if (c.chance(2, 3))
    {
        f.has_off = true; f.off_min = 0; f.has_abbrev = true; f.abbrev = "UTC";
        const auto want = ref_format(fmt, f, ok);
        check_format(c, fmt, gd::sys_time<D>{ since }, want, ok, desc(f));
    }
    else
    {
        const gd::local_time<D> lt{ since };
        if (c.coin())
        {
            const auto want = ref_format(fmt, f, ok);
            check_format(c, fmt, lt, want, ok, "local " + desc(f));
        }
        else
        {
            const I off = c.coin() ? c.range(-99 * 60, 99 * 60) : c.pick<I>({ 0, -1, 1, -59, 59, 60, -60, -61, 330, -570 });
            const sc::seconds offs{ off * 60 };
            const std::string abbr = c.pick<const char*>({ "CET", "X", "", "America/New_York", "+03" });
            f.has_off = true; f.off_min = off; f.has_abbrev = true; f.abbrev = abbr;
            const auto want = ref_format(fmt, f, ok);
            std::ostringstream os;
            gd::to_stream(os, fmt.c_str(), lt, &abbr, &offs);
            PBT_CHECK(c, os.fail() == !ok && (!ok || os.str() == want), "to_stream(" << pbt::show(fmt) << ") of local " << desc(f) << " offset " << off << " min writes " << pbt::show(os.str()) << ", expected " << pbt::show(want));
        }
    }
}

PBT_FACET(format_time_points, 600000, 60000000)
{
    switch (c.below(10))
    {
    case 0: case 1: format_time_point<sc::seconds>(c); break;
    case 2: case 3: format_time_point<sc::milliseconds>(c); break;
    case 4: format_time_point<sc::microseconds>(c); break;
    case 5: format_time_point<sc::nanoseconds>(c); break;
    case 6: format_time_point<sc::minutes>(c); break;
    case 7: format_time_point<gd::days>(c); break;
    case 8: format_time_point<quarter>(c); break;
    default: if (c.coin()) format_time_point<tenth>(c); else format_time_point<d1024>(c); break;
    }
}

static void parse_any(Ctx& c, bool mutated)
{
    switch (c.below(8))
    {
    case 0: case 1: parse_either<sc::seconds>(c, mutated); break;
    case 2: case 3: parse_either<sc::milliseconds>(c, mutated); break;
    case 4: parse_either<sc::microseconds>(c, mutated); break;
    case 5: parse_either<sc::nanoseconds>(c, mutated); break;
    case 6: parse_either<sc::minutes>(c, mutated); break;
    default: parse_either<tenth>(c, mutated); break;
    }
}

PBT_FACET(round_trip, 600000, 60000000) { parse_any(c, false); }
PBT_FACET(changed_text, 1200000, 120000000) { parse_any(c, true); }

// --- streaming of the calendar types ---

template <class V> static std::string streamed(Ctx& c, const V& v)
{
    std::ostringstream os;
    const bool odd = c.coin();
    if (odd) { os.setf(std::ios::hex, std::ios::basefield); os.fill('#'); }
    const auto fl = os.flags();
    // index and unknown names are plain unsigned numbers: keep them decimal
    if (odd) os.setf(std::ios::dec, std::ios::basefield);
    const auto fl2 = os.flags();
    (void)fl;
    using gd::operator<<;
    os << v;
    if (os.flags() != fl2) c.fail("streaming changed the flags of the stream");
    return os.str();
}

PBT_FACET(streaming, 600000, 60000000)
{
    using namespace gd;
    const I y = c.coin() ? c.range(1000, 9999) : c.range(-32767, 32767);
    const int m = static_cast<int>(c.chance(5, 6) ? c.range(1, 12) : c.pick<int>({ 0, 13, 99, 255 }));
    const int d = static_cast<int>(c.chance(5, 6) ? c.range(1, 31) : c.pick<int>({ 0, 32, 99, 255 }));
    const int wd = static_cast<int>(c.chance(5, 6) ? c.range(0, 6) : c.pick<int>({ 8, 9 }));
    const int ix = static_cast<int>(c.chance(5, 6) ? c.range(1, 5) : c.pick<int>({ 0, 6, 7 }));
    const bool mok = m >= 1 && m <= 12, dok = d >= 1 && d <= 31, wok = wd <= 6, iok = ix >= 1 && ix <= 5;
    const std::string Y = pad(y, 4), M = mok ? std::string(MON[m - 1]).substr(0, 3) : std::to_string(m), D = pad(d, 2),
        W = wok ? std::string(WDAY[wd]).substr(0, 3) : std::to_string(wd);
    const year gy(static_cast<int>(y)); const month gm(static_cast<unsigned>(m)); const day gdd(static_cast<unsigned>(d));
    const weekday gw(static_cast<unsigned>(wd));
    auto bad = [](bool ok, const char* n) { return ok ? std::string() : std::string(" is not a valid ") + n; };
    std::string got, want;
    const auto k = c.below(16);
    switch (k)
    {
    case 0: got = streamed(c, gy); want = Y; break;
    case 1: got = streamed(c, gm); want = M + bad(mok, "month"); break;
    case 2: got = streamed(c, gdd); want = D + bad(dok, "day"); break;
    case 3: got = streamed(c, gw); want = W + bad(wok, "weekday"); break;
    case 4: if (ix > 7) return; got = streamed(c, gw[static_cast<unsigned>(ix)]); want = W + "[" + std::to_string(ix) + "]" + bad(wok && iok, "weekday_indexed"); break;
    case 5: got = streamed(c, gw[last]); want = W + "[last]" + bad(wok, "weekday_last"); break;
    case 6: got = streamed(c, gy / gm); want = Y + "/" + M + bad(mok, "year_month"); break;
    case 7: got = streamed(c, gm / gdd); want = M + "/" + D + bad(mok && dok && d <= cal::mdays(2000, m), "month_day"); break;
    case 8: got = streamed(c, gm / last); want = M + "/last" + bad(mok, "month_day_last"); break;
    case 9: got = streamed(c, gm / gw[static_cast<unsigned>(ix)]); want = M + "/" + W + "[" + std::to_string(ix) + "]" + bad(mok && wok && iok, "month_weekday"); break;
    case 10: got = streamed(c, gm / gw[last]); want = M + "/" + W + "[last]" + bad(mok && wok, "month_weekday_last"); break;
    case 11:
    {
        got = streamed(c, gy / gm / gdd);
        const std::string t = "-" + pad(m, 2) + "-" + pad(d, 2) + bad(mok && d >= 1 && d <= cal::mdays(y, m), "year_month_day");
        want = Y + t;
        if (std::abs(y) < 1000 && got == std::to_string(y) + t) want = got; // the padding of small years is not claimed
        break;
    }
    case 12: got = streamed(c, gy / gm / last); want = Y + "/" + M + "/last" + bad(mok, "year_month_day_last"); break;
    case 13:
    {
        // whether the index exists in the month is part of being valid
        const auto v = gy / gm / gw[static_cast<unsigned>(ix)];
        bool ok = mok && wok && iok;
        if (ok && ix == 5) { int n = 0; for (int q = 1; q <= cal::mdays(y, m); ++q) if (cal::wday(cal::number({ y, m, q })) == wd) ++n; ok = n == 5; }
        got = streamed(c, v);
        want = Y + "/" + M + "/" + W + "[" + std::to_string(ix) + "]" + bad(ok, "year_month_weekday");
        break;
    }
    case 14: got = streamed(c, gy / gm / gw[last]); want = Y + "/" + M + "/" + W + "[last]" + bad(mok && wok, "year_month_weekday_last"); break;
    default:
    {
        const I n = gen_day(c, 1000, 9999);
        const I tick = gen_tick<sc::milliseconds>(c);
        Fields f; f.set_day(n); set_tod<sc::milliseconds>(f, tick);
        bool ok = true, minus = false;
        const std::string date = spec_text('F', f, ok, minus);
        if (c.coin()) { got = streamed(c, sys_days{ days{ n } }); want = date; }
        else if (c.coin()) { got = streamed(c, sys_time<sc::milliseconds>{ sc::milliseconds{ n * 86400000 + tick } }); want = date + " " + spec_text('T', f, ok, minus); }
        else { got = streamed(c, local_time<sc::milliseconds>{ sc::milliseconds{ n * 86400000 + tick } }); want = date + " " + spec_text('T', f, ok, minus); }
        break;
    }
    }
    c.nontrivial();
    c.note_f([&] { return "streaming kind " + std::to_string(k) + ": " + pbt::show(got); });
    PBT_CHECK(c, got == want, "streaming (kind " << k << ", year " << y << " month " << m << " day " << d << " weekday " << wd << "[" << ix << "]) gives " << pbt::show(got) << ", expected " << pbt::show(want));
}

static int conf = [] {
    auto& k = pbt::config();
    k.rule = "a case is non-trivial if a value was formatted and compared with the reference text, or if a text was parsed and the reference parser could judge it";
    k.assumptions = {
        "C locale; years that go through the C library (%c, %x, %E and %O modifiers) are limited to 1000 to 9999",
        "parsing reads four digits for %Y and %G unless a width is given, so round trips of other years use a width",
        "%e is parsed with white space before it in the format; formatted text of a one-digit day starts with a space",
        "%p without %I, %C without %y, a sign in front of an unsigned field, names in another case or length and offsets of 24 hours or more are not judged when parsing",
        "%I, %p, %r of durations of a day or more, %j of negative durations and the sign of negative durations in more than one field are not claimed",
    };
    return 0;
}();
