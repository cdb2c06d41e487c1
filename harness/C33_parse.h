#include "C33_machine.h"
template <class TP, class D> static void parse_time_point(Ctx& c, bool local, bool mutated)
{
    const bool seconds_only = std::is_same<D, sc::seconds>::value;
    auto ch = gen_time_format(c, seconds_only);
    const std::string& fmt = ch.fmt;
    I y0 = ch.y0, y1 = ch.y1;
    if (Prec<D>::narrow()) { y0 = std::max<I>(y0, 1679); y1 = std::min<I>(y1, 2260); }
    Fields f;
    f.set_day(gen_day(c, y0, y1));
    const I tick = gen_tick<D>(c);
    set_tod<D>(f, tick);
    f.has_off = true;
    f.off_min = c.coin() ? c.range(-23 * 60 - 59, 23 * 60 + 59) : c.pick<I>({ 0, 1, -1, 59, -59, 60, -60, 120, -570 });
    f.has_abbrev = true;
    f.abbrev = c.pick<const char*>({ "UTC", "CEST", "A", "America/New_York", "+03", "-03", "Etc/GMT+5", "x_y" });
    const auto tk = tokens(fmt, f);
    std::string text = join(tk);
    if (mutated) text = mutate(c, tk);
    c.note_f([&] { return "parse " + pbt::show(text) + " with " + pbt::show(fmt); });

    // what goes through the C library means the same as these
    std::string rfmt = fmt;
    for (const auto& e : { std::make_pair("%x", "%D"), std::make_pair("%X", "%T"), std::make_pair("%r", "%I:%M:%S %p") })
    {
        const auto p = rfmt.find(e.first);
        if (p != std::string::npos) rfmt.replace(p, 2, e.second);
    }
    Parsed q = ref_scan(rfmt, text, Prec<D>::width());
    I day = 0, secs = 0;
    std::string frac;
    solve_date(q, day);
    solve_time(q, secs, frac, false);
    if (ch.libc && mutated) q.unknown = true;
    // Dates that the type cannot represent (days near the limits are not judged)
    if (Prec<D>::narrow() && q.r == Parsed::R::accept)
    {
        if (std::abs(day) > 106752) { q.r = Parsed::R::reject; q.why = "not representable"; }
        else if (std::abs(day) > 106749) q.unknown = true;
    }
    // rounding up to the next day or 60 seconds
    if (static_cast<int>(frac.size()) > Prec<D>::width() && frac.find_first_not_of('9') == std::string::npos) q.unknown = true;

    const TP before{ D{ 12345 } };
    TP v = before;
    std::string abbrev, rest;
    sc::minutes off{ 0 };
    const bool use_a = c.coin(), use_o = c.coin();
    const bool ok = lib_parse(c, fmt, text, v, use_a ? &abbrev : nullptr, use_o ? &off : nullptr, rest);
    if (!ok) PBT_CHECK(c, v == before, "a failed parse of " << pbt::show(text) << " with " << pbt::show(fmt) << " changed the value");
    if (q.unknown) { c.label("not judged"); return; }
    c.label(q.r == Parsed::R::accept ? "accepted" : "rejected");
    if (mutated && q.r == Parsed::R::accept && text != join(tk)) c.label("accepted after a change");
    c.nontrivial();
    if (q.r == Parsed::R::reject)
    {
        PBT_CHECK(c, !ok, pbt::show(text) << " must not be accepted with " << pbt::show(fmt) << " (" << q.why << "), gives " << v.time_since_epoch().count());
        return;
    }
    PBT_CHECK(c, ok, pbt::show(text) << " must be accepted with " << pbt::show(fmt));
    if (!local && q.has_z) secs -= q.off * 60;
    const D got = v.time_since_epoch();
    PBT_CHECK(c, near_value<D>(day, secs, frac, got), pbt::show(text) << " with " << pbt::show(fmt) << " gives " << got.count()
        << " ticks, expected day " << day << " + " << secs << "." << frac << " s");
    PBT_CHECK(c, rest == text.substr(q.end), pbt::show(text) << " with " << pbt::show(fmt) << " leaves " << pbt::show(rest) << " unread, expected " << pbt::show(text.substr(q.end)));
    if (use_a) PBT_CHECK(c, abbrev == (q.has_Z ? q.abbrev : ""), "time zone " << pbt::show(abbrev) << " from " << pbt::show(text) << " with " << pbt::show(fmt));
    if (use_o) PBT_CHECK(c, off.count() == (q.has_z ? q.off : 0), "offset " << off.count() << " from " << pbt::show(text) << " with " << pbt::show(fmt));
    if (!mutated && ch.full_time)
    {
        // the round trip itself
        I want = f.day * Prec<D>::per_day + tick;
        I have = got.count();
        if (!local && ch.has_zone) have += f.off_min * 60 * (Prec<D>::per_day / 86400);
        if (Prec<D>::per_day >= 86400) PBT_CHECK(c, have == want, "round trip of " << pbt::show(text) << " with " << pbt::show(fmt) << ": " << have << " ticks instead of " << want);
    }
}

template <class D> void parse_either(Ctx& c, bool mutated)
{
    if (c.chance(2, 3)) parse_time_point<gd::sys_time<D>, D>(c, false, mutated);
    else parse_time_point<gd::local_time<D>, D>(c, true, mutated);
}

