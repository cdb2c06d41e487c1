#include "C33_machine.h"
// --- durations ---

template <class D> static void format_duration(Ctx& c, const char* unit)
{
    const I per_day = Prec<D>::per_day;
    const bool big = c.coin();
    const I ticks_h = std::max<I>(1, per_day / 24);
    I n = big ? c.range(0, ticks_h * 24 * 400) : gen_tick<D>(c);
    if (c.chance(1, 10)) n = c.range(0, 5);
    if (per_day == 1) n = c.range(0, 100000);
    const bool neg = n != 0 && c.chance(1, 3);
    Fields f;
    f.tod = true; f.neg = neg;
    // hours may exceed a day
    const I d = n / per_day;
    set_tod<D>(f, n % per_day);
    f.h += d * 24;
    std::string specs = "HMSTRn%Hj";
    if (neg) specs = "HMSTR";
    if (per_day >= 86400 && Prec<D>::scale() == per_day / 86400) // the precision is that of the type
    {
        specs += "Qq";
        f.count = std::to_string(neg ? -n : n);
        f.unit = unit;
    }
    if (!neg && f.h < 24) specs += "IprX";
    std::string fmt;
    if (neg)
    {
        // The sign belongs to the first field that can show it; one such field only.
        fmt = c.coin() ? "[" : "";
        fmt += '%'; fmt += specs[c.below(specs.size())];
        fmt += c.pick<const char*>({ "", "]", " %%", "%n" });
    }
    else fmt = gen_format(c, specs, false);
    bool ok = true;
    const auto want = ref_format(fmt, f, ok);
    const D v{ neg ? -n : n };
    c.nontrivial();
    c.note_f([&] { return "format " + pbt::show(fmt) + " of a duration " + desc(f); });
    check_format(c, fmt, v, want, ok, "duration " + desc(f));
    std::ostringstream os;
    using gd::operator<<;
    os << v;
    PBT_CHECK(c, os.str() == std::to_string(neg ? -n : n) + unit, "streaming the duration " << desc(f) << " gives " << os.str());
    if (per_day >= 86400)
    {
        std::ostringstream ot;
        ot << gd::make_time(v);
        bool m2 = false;
        PBT_CHECK(c, ot.str() == spec_text('T', f, ok, m2), "streaming the time of day " << desc(f) << " gives " << ot.str());
    }
}

PBT_FACET(format_durations, 400000, 40000000)
{
    switch (c.below(10))
    {
    case 0: format_duration<sc::seconds>(c, "s"); break;
    case 1: format_duration<sc::milliseconds>(c, "ms"); break;
    case 2: format_duration<sc::microseconds>(c, "\xC2\xB5s"); break;
    case 3: format_duration<sc::nanoseconds>(c, "ns"); break;
    case 4: format_duration<sc::minutes>(c, "min"); break;
    case 5: format_duration<sc::hours>(c, "h"); break;
    case 6: format_duration<gd::days>(c, "d"); break;
    case 7: format_duration<quarter>(c, "[1/4]s"); break;
    case 8: format_duration<tenth>(c, "ds"); break;
    default: format_duration<d1024>(c, "[1/1024]s"); break;
    }
}

