#include "C33_machine.h"
// --- partial and invalid values ---

PBT_FACET(format_parts, 400000, 40000000)
{
    const std::string fmt = gen_format(c, c.coin() ? std::string("aAbBhcxCdeDFgGHIjmMnpQqrRStTuUVwWXyYzZ%")
                                                    : std::string("aAbBhCdemnt%uwyYFj"), c.chance(1, 4));
    if (fmt.find("%Ew") != std::string::npos) return; // printed as it is, but only if there is a weekday
    const bool cl = c_library_years(fmt);
    const I y = cl ? c.range(1000, 9999) : c.coin() ? c.range(-32760, 32760) : c.range(1900, 2100);
    const int m = static_cast<int>(c.weighted({ 6, 1 }) == 0 ? c.range(1, 12) : c.pick<int>({ 0, 13, 14, 255 }));
    const int d = static_cast<int>(c.weighted({ 6, 1 }) == 0 ? c.range(1, 31) : c.pick<int>({ 0, 32, 99, 255 }));
    Fields f;
    f.date = { y, m, d };
    bool ok = true;
    const gd::year gy(static_cast<int>(y));
    const gd::month gm(static_cast<unsigned>(m));
    const gd::day gdd(static_cast<unsigned>(d));
    const bool mok = m >= 1 && m <= 12, dok = d >= 1 && d <= 31;
    c.nontrivial();
    std::ostringstream w;
    const auto kind = c.below(8);
    w << "kind " << kind << " y " << y << " m " << m << " d " << d;
    c.note_f([&] { return "format " + pbt::show(fmt) + " of " + w.str(); });
    // Conversions that go through strftime print something for an invalid field before the
    // stream is found to have failed; only the failure matters then.
    switch (kind)
    {
    case 0: f.has_y = true; { const auto t = ref_format(fmt, f, ok); check_format(c, fmt, gy, t, ok, w.str()); } break;
    case 1: f.has_m = mok; { const auto t = ref_format(fmt, f, ok); check_format(c, fmt, gm, t, ok, w.str()); } break;
    case 2: f.has_d = dok; { const auto t = ref_format(fmt, f, ok); check_format(c, fmt, gdd, t, ok, w.str()); } break;
    case 3:
    {
        const int wd = static_cast<int>(c.range(0, 6));
        f.wd = wd;
        const auto t = ref_format(fmt, f, ok);
        check_format(c, fmt, gd::weekday(static_cast<unsigned>(c.coin() || wd ? wd : 7)), t, ok, w.str());
        break;
    }
    case 4: f.has_y = true; f.has_m = mok; { const auto t = ref_format(fmt, f, ok); check_format(c, fmt, gy / gm, t, ok, w.str()); } break;
    case 5: f.has_m = mok; f.has_d = dok; { const auto t = ref_format(fmt, f, ok); check_format(c, fmt, gm / gdd, t, ok, w.str()); } break;
    default:
        f.has_y = true; f.has_m = mok; f.has_d = dok;
        if (mok && d >= 1 && d <= cal::mdays(y, m)) f.set_day(cal::number(f.date));
        { const auto t = ref_format(fmt, f, ok); check_format(c, fmt, gy / gm / gdd, t, ok, w.str()); }
        break;
    }
}

