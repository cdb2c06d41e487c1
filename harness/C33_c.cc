#include "C33_machine.h"
// --- parsing into parts of a date, durations ---

template <class V> static bool part_parse(Ctx& c, const std::string& fmt, const std::string& text, V& v, std::string& rest)
{
    return lib_parse(c, fmt, text, v, nullptr, nullptr, rest);
}

PBT_FACET(parse_parts, 600000, 60000000)
{
    Fields f;
    f.set_day(gen_day(c, -9999, 9999));
    f.tod = true;
    const auto kind = c.below(9);
    std::string fmt;
    switch (kind)
    {
    case 0: fmt = c.pick<const char*>({ "%Y", "%C%y", "%5Y", "%Y!", "%4Y", "%Y %y" }); break;
    case 1: fmt = c.pick<const char*>({ "%m", "%b", "%B", "%h", "%m %b", "%3m", "%1m" }); break;
    case 2: fmt = c.pick<const char*>({ "%d", "%d.", " %e", "%d %d", "%3d" }); break;
    case 3: fmt = c.pick<const char*>({ "%a", "%A", "%u", "%w", "%a %u", "%w,%A" }); break;
    case 4: fmt = c.pick<const char*>({ "%Y-%m", "%b %Y", "%Y%m", "%m/%Y", "%C%y/%m", "%5Y-%m" }); break;
    case 5: fmt = c.pick<const char*>({ "%m-%d", "%d. %B", "%b %d", "%m%d", "--%m-%d" }); break;
    case 6: fmt = c.pick<const char*>({ "%F", "%Y-%m-%d", "%G-W%V-%u", "%Y%j", "%a %F", "%Y %U %w", "%F %W" }); break;
    case 7: fmt = c.pick<const char*>({ "%H:%M:%S", "%T", "%R", "%H:%M", "%M:%S", "%S", "%3H", "%H%M", "%I:%M %p", "%4H:%M:%S" }); break;
    default: fmt = c.pick<const char*>({ "%T", "%H:%M:%S", "%S", "%M:%S", "%R" }); break;
    }
    set_tod<sc::milliseconds>(f, gen_tick<sc::milliseconds>(c));
    const bool secs_type = kind == 7;
    if (secs_type) { f.sub = 0; f.width = 0; }
    if (fmt.find("%3H") == 0) f.h = c.range(0, 999);
    if (fmt.find("%4H") == 0) f.h = c.range(0, 9999);
    if (kind == 8 && c.coin()) f.h = c.range(0, 99);
    if (kind != 7 && kind != 8 && fmt.find("%G") == 0 && (f.date.y < -9990 || f.date.y > 9990)) f.set_day(0);
    const auto tk = tokens(fmt, f);
    const bool mutated = c.coin();
    const std::string text = mutated ? mutate(c, tk) : join(tk);
    c.note_f([&] { return "parse " + pbt::show(text) + " with " + pbt::show(fmt) + " kind " + std::to_string(kind); });
    Parsed q = ref_scan(fmt, text, kind == 8 ? 3 : 0);
    std::string rest;
    bool ok = false;
    auto has = [&](char k) { return q.v.count(k) != 0; };
    auto get = [&](char k) { return q.v.at(k); };
    const auto R = Parsed::R::reject;
    I Y = has('Y') ? get('Y') : 0;
    if (q.r != R && has('y'))
    {
        const I y2 = get('y');
        if (has('C')) { const I C = get('C'); Y = C >= 0 ? 100 * C + y2 : 100 * (C + 1) - (y2 ? y2 : 100); }
        else if (std::abs(Y) % 100 != y2) q.r = R;
    }
    const bool y_ok = Y >= cal::first_year && Y <= cal::last_year;
    const bool m_ok = has('m') && get('m') >= 1 && get('m') <= 12;
    const bool d_ok = has('d') && get('d') >= 1 && get('d') <= 31;
    bool same = true; // the value agrees with the text
    std::ostringstream val;
    bool unchanged = true;
    switch (kind)
    {
    case 0:
    {
        const gd::year b{ 77 };
        gd::year v = b;
        ok = part_parse(c, fmt, text, v, rest);
        if (!y_ok) q.r = R;
        same = static_cast<int>(v) == Y; unchanged = v == b; val << static_cast<int>(v);
        break;
    }
    case 1:
    {
        const gd::month b{ 77 };
        gd::month v = b;
        ok = part_parse(c, fmt, text, v, rest);
        if (!m_ok) q.r = R;
        same = m_ok && static_cast<unsigned>(v) == get('m'); unchanged = v == b; val << static_cast<unsigned>(v);
        break;
    }
    case 2:
    {
        const gd::day b{ 77 };
        gd::day v = b;
        ok = part_parse(c, fmt, text, v, rest);
        if (!d_ok) q.r = R;
        same = d_ok && static_cast<unsigned>(v) == get('d'); unchanged = v == b; val << static_cast<unsigned>(v);
        break;
    }
    case 3:
    {
        const gd::weekday b{ 9u };
        gd::weekday v = b;
        ok = part_parse(c, fmt, text, v, rest);
        same = has('w') && v.c_encoding() == get('w'); unchanged = v == b; val << v.c_encoding();
        break;
    }
    case 4:
    {
        const gd::year_month b{ gd::year{ 77 }, gd::month{ 77 } };
        gd::year_month v = b;
        ok = part_parse(c, fmt, text, v, rest);
        if (!m_ok || !y_ok) q.r = R;
        same = m_ok && static_cast<unsigned>(v.month()) == get('m') && static_cast<int>(v.year()) == Y; unchanged = v == b;
        val << static_cast<int>(v.year()) << "/" << static_cast<unsigned>(v.month());
        break;
    }
    case 5:
    {
        const gd::month_day b{ gd::month{ 77 }, gd::day{ 77 } };
        gd::month_day v = b;
        ok = part_parse(c, fmt, text, v, rest);
        if (!m_ok || !d_ok || get('d') > cal::mdays(2000, get('m'))) q.r = R;
        same = m_ok && d_ok && static_cast<unsigned>(v.month()) == get('m') && static_cast<unsigned>(v.day()) == get('d'); unchanged = v == b;
        val << static_cast<unsigned>(v.month()) << "/" << static_cast<unsigned>(v.day());
        break;
    }
    case 6:
    {
        const auto b = gd::year{ 77 } / 77 / 77;
        auto v = b;
        ok = part_parse(c, fmt, text, v, rest);
        I day = 0;
        solve_date(q, day);
        if (q.r != R)
        {
            const Date t = cal::date(day);
            same = t == Date{ static_cast<int>(v.year()), static_cast<int>(static_cast<unsigned>(v.month())), static_cast<int>(static_cast<unsigned>(v.day())) };
        }
        unchanged = v == b;
        val << static_cast<int>(v.year()) << "-" << static_cast<unsigned>(v.month()) << "-" << static_cast<unsigned>(v.day());
        break;
    }
    case 7:
    {
        const sc::seconds b{ 123456789 };
        sc::seconds v = b;
        ok = part_parse(c, fmt, text, v, rest);
        I secs = 0; std::string frac;
        solve_time(q, secs, frac, true);
        if (q.r != R) same = near_value<sc::seconds>(0, secs, frac, v);
        unchanged = v == b; val << v.count();
        break;
    }
    default:
    {
        const sc::milliseconds b{ 123456789 };
        sc::milliseconds v = b;
        ok = part_parse(c, fmt, text, v, rest);
        I secs = 0; std::string frac;
        solve_time(q, secs, frac, true);
        if (q.r != R) same = near_value<sc::milliseconds>(0, secs, frac, v);
        unchanged = v == b; val << v.count();
        break;
    }
    }
    if (!ok) PBT_CHECK(c, unchanged, "a failed parse of " << pbt::show(text) << " with " << pbt::show(fmt) << " changed the value");
    if (q.unknown) { c.label("not judged"); return; }
    c.nontrivial();
    c.label(q.r == R ? "rejected" : "accepted");
    if (q.r == R) { PBT_CHECK(c, !ok, pbt::show(text) << " must not be accepted with " << pbt::show(fmt) << " (kind " << kind << "), gives " << val.str()); return; }
    PBT_CHECK(c, ok, pbt::show(text) << " must be accepted with " << pbt::show(fmt) << " (kind " << kind << ")");
    PBT_CHECK(c, same, pbt::show(text) << " with " << pbt::show(fmt) << " (kind " << kind << ") gives " << val.str());
    PBT_CHECK(c, rest == text.substr(q.end), pbt::show(text) << " with " << pbt::show(fmt) << " leaves " << pbt::show(rest) << " unread");
}

// --- arbitrary formats and texts: no crash, and what is accepted agrees with the text ---

PBT_FACET(arbitrary_input, 600000, 60000000)
{
    std::string fmt = gen_format(c, "aAbBhCdeDFgGHIjmMnpRStTuUVwWyYzZ%", false);
    while (!fmt.empty() && fmt.back() == '%') fmt.pop_back();
    std::string text;
    std::size_t n = 0;
    while (c.more(n, 10, 40))
        text += c.pick<const char*>({ "0", "1", "2", "9", "12", "2021", "-", ":", " ", "/", "+", "T", "AM", "PM", "Mon", "Jan", "May", ".", "%", "\n", "x", "31", "0", "Z" });
    // half of the time the text fits the format to some extent
    if (c.coin())
    {
        Fields f;
        f.set_day(gen_day(c, -9990, 9990));
        set_tod<sc::milliseconds>(f, gen_tick<sc::milliseconds>(c));
        f.has_off = f.has_abbrev = true; f.off_min = c.range(-1000, 1000); f.abbrev = "UTC";
        auto tk = tokens(fmt, f);
        text = c.coin() ? join(tk) : mutate(c, tk);
    }
    c.note_f([&] { return "parse " + pbt::show(text) + " with " + pbt::show(fmt); });
    Parsed q = ref_scan(fmt, text, 3);
    I day = 0, secs = 0;
    std::string frac;
    solve_date(q, day);
    solve_time(q, secs, frac, false);
    if (static_cast<int>(frac.size()) > 3) q.unknown = true;
    // formats with conversions the parser does not know
    for (std::size_t i = 0; i + 1 < fmt.size(); ++i)
        if (fmt[i] == '%') { if (std::strchr("aAbBhCdeDFgGHIjmMnpRStTuUVwWyYzZ%", fmt[i + 1]) == nullptr) q.unknown = true; ++i; }
    gd::sys_time<sc::milliseconds> v{};
    std::string rest;
    const bool ok = lib_parse(c, fmt, text, v, nullptr, nullptr, rest);
    if (q.unknown) { c.label("not judged"); return; }
    c.nontrivial();
    c.label(ok ? "accepted" : "rejected");
    if (q.r == Parsed::R::reject)
    {
        PBT_CHECK(c, !ok, pbt::show(text) << " must not be accepted with " << pbt::show(fmt) << " (" << q.why << "), gives " << v.time_since_epoch().count());
        return;
    }
    PBT_CHECK(c, ok, pbt::show(text) << " must be accepted with " << pbt::show(fmt));
    if (q.has_z) secs -= q.off * 60;
    PBT_CHECK(c, near_value<sc::milliseconds>(day, secs, frac, v.time_since_epoch()), pbt::show(text) << " with " << pbt::show(fmt) << " gives " << v.time_since_epoch().count());
}

// --- wide characters ---

PBT_FACET(wide_parse, 300000, 30000000)
{
    auto ch = gen_time_format(c, true);
    Fields f;
    f.set_day(gen_day(c, ch.y0, ch.y1));
    const I tick = gen_tick<sc::seconds>(c);
    set_tod<sc::seconds>(f, tick);
    f.has_off = true; f.off_min = c.range(-700, 700);
    f.has_abbrev = true; f.abbrev = "CET";
    const std::string text = join(tokens(ch.fmt, f));
    const std::wstring wf(ch.fmt.begin(), ch.fmt.end());
    std::wstring wt(text.begin(), text.end());
    const bool spoil = c.coin() && !wt.empty();
    if (spoil)
    {
        // a character whose lower bits look like the right one
        std::size_t p = c.below(wt.size());
        if (std::isspace(static_cast<unsigned char>(text[p]))) return;
        wt[p] = static_cast<wchar_t>(wt[p] + 0x100 * c.range(1, 30));
    }
    c.nontrivial();
    c.note_f([&] { return "wide parse of " + pbt::show(text) + " with " + pbt::show(ch.fmt) + (spoil ? " (spoiled)" : ""); });
    gd::sys_seconds v{};
    std::wistringstream is(wt);
    if (c.coin()) is >> gd::parse(wf, v); else is >> gd::parse(wf.c_str(), v);
    // the same text in narrow characters
    gd::sys_seconds n{};
    std::istringstream in(text);
    in >> gd::parse(ch.fmt, n);
    if (!spoil)
    {
        PBT_CHECK(c, is.fail() == in.fail(), "wide and narrow parse of " << pbt::show(text) << " with " << pbt::show(ch.fmt) << " disagree");
        if (!is.fail()) PBT_CHECK(c, v == n, "wide parse of " << pbt::show(text) << " with " << pbt::show(ch.fmt) << " gives " << v.time_since_epoch().count() << ", narrow " << n.time_since_epoch().count());
    }
    else if (!is.fail())
    {
        // Only an earlier end of the text may have been accepted.
        std::size_t used = wt.size() - rest_of(is).size();
        for (std::size_t i = 0; i < used; ++i)
            PBT_CHECK(c, wt[i] < 256, "a wide character that is no digit was accepted in " << pbt::show(text) << " with " << pbt::show(ch.fmt));
    }
}

