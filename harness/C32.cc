// C32: calendar arithmetic is exact for every date (walk over all dates, generated dates).
#include "pbt.h"
#include "cal.h"
#include "gul14/date.h"
using pbt::Ctx;
namespace gd = gul14::date;
namespace {
const bool cfg = [] {
    pbt::config().rule = "walk: always (each case covers 128 years day by day); generated: the date is valid and not in 1970 to 2038, or the operation crosses a month or year boundary";
    pbt::config().assumptions = { "years -32767 to 32767 (the range of gul14::date::year)", "months, days and weekdays as bytes, weekday index 0 to 7",
        "duration rounding: integral representations whose results are representable" };
    return true;
}();

using cal::Date;
using cal::I;
std::string str(const Date& t) { return std::to_string(t.y) + "-" + std::to_string(t.m) + "-" + std::to_string(t.d); }
Date get(const gd::year_month_day& x) { return { static_cast<int>(x.year()), static_cast<int>(static_cast<unsigned>(x.month())), static_cast<int>(static_cast<unsigned>(x.day())) }; }
gd::year Y(I y) { return gd::year{ static_cast<int>(y) }; }
gd::month M(int m) { return gd::month{ static_cast<unsigned>(m) }; }
gd::day D(int d) { return gd::day{ static_cast<unsigned>(d) }; }
gd::year_month_day make(const Date& t) { return { Y(t.y), M(t.m), D(t.d) }; }
I num(gd::sys_days d) { return d.time_since_epoch().count(); }
I num(gd::local_days d) { return d.time_since_epoch().count(); }
gd::sys_days sys(I n) { return gd::sys_days{ gd::days{ static_cast<int>(n) } }; }
gd::local_days loc(I n) { return gd::local_days{ gd::days{ static_cast<int>(n) } }; }
unsigned wd(gd::weekday w) { return w.c_encoding(); }

I gen_year(Ctx& c)
{
    switch (c.weighted({ 5, 3, 3, 2, 1 }))
    {
    case 0: return c.range(1890, 2110);
    case 1: return 100 * c.range(-327, 327) + c.range(-1, 1);
    case 2: return c.range(cal::first_year, cal::last_year);
    case 3: return c.range(-10, 10);
    default: return c.coin() ? cal::first_year + static_cast<I>(c.below(3)) : cal::last_year - static_cast<I>(c.below(3));
    }
}
Date gen_date(Ctx& c)
{
    Date t{ gen_year(c), static_cast<int>(c.range(1, 12)), 1 };
    const int n = cal::mdays(t.y, t.m);
    t.d = c.coin() ? static_cast<int>(c.range(1, n)) : c.coin() ? n : c.coin() ? 1 : static_cast<int>(c.range(std::min(n, 27), n));
    return t;
}
void check_date(Ctx& c, const Date& t, I n)
{
    const gd::year_month_day x = make(t);
    const Date back = get(gd::year_month_day{ sys(n) });
    PBT_CHECK(c, num(gd::sys_days{ x }) == n, "day number of " << str(t) << " is " << num(gd::sys_days{ x }) << " instead of " << n);
    PBT_CHECK(c, back == t, "day number " << n << " is " << str(back) << " instead of " << str(t));
    PBT_CHECK(c, x.ok(), str(t) << " must be valid");
    PBT_CHECK(c, wd(gd::weekday{ sys(n) }) == static_cast<unsigned>(cal::wday(n)), "weekday of " << str(t) << " is " << wd(gd::weekday{ sys(n) }));
}

// Every day of 128 consecutive years, in ascending order.
PBT_FACET(walk, 8000, 40000)
{
    const I first = cal::first_year + 128 * static_cast<I>(c.below(512));
    const I last = std::min(first + 127, cal::last_year);
    c.note_f([&] { return "all days from " + std::to_string(first) + " to " + std::to_string(last); });
    I n = cal::jan1(first);
    int w = cal::wday(n);
    for (I y = first; y <= last; ++y)
    {
        PBT_CHECK(c, Y(y).is_leap() == cal::leap(y) && Y(y).ok(), "is_leap() of " << y);
        for (int m = 1; m <= 12; ++m)
        {
            const int days = cal::mdays(y, m);
            const gd::year_month_day_last l = Y(y) / M(m) / gd::last;
            PBT_CHECK(c, static_cast<int>(static_cast<unsigned>(l.day())) == days && num(gd::sys_days{ l }) == n + days - 1, "last day of " << y << "-" << m << " is " << static_cast<unsigned>(l.day()));
            for (int d = 1; d <= days; ++d, ++n, w = (w + 1) % 7)
            {
                check_date(c, { y, m, d }, n);
                PBT_CHECK(c, wd(gd::weekday{ sys(n) }) == static_cast<unsigned>(w), "weekdays do not follow each other at " << y << "-" << m << "-" << d);
            }
        }
    }
    PBT_CHECK(c, n == cal::jan1(last + 1), "harness: calendar");
    c.nontrivial();
}

template <typename A> void check_order(Ctx& c, const A& a, const A& b, int cmp, const char* what)
{
    PBT_CHECK(c, (a == b) == (cmp == 0) && (a != b) == (cmp != 0) && (a < b) == (cmp < 0) && (a > b) == (cmp > 0) && (a <= b) == (cmp <= 0) && (a >= b) == (cmp >= 0), "comparison of " << what << ", expected order " << cmp);
}
template <typename T> int cmp3(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }

PBT_FACET(date_differences, 200000, 2000000)
{
    const Date a = gen_date(c);
    I delta = c.coin() ? c.range(-800, 800) : c.coin() ? c.range(-40, 40) : c.range(-20000000, 20000000);
    const I n = cal::number(a);
    if (n + delta < cal::jan1(cal::first_year) || n + delta >= cal::jan1(cal::last_year + 1)) delta = 0;
    const Date b = cal::date(n + delta);
    c.note_f([&] { return str(a) + " and " + str(b) + ", " + std::to_string(delta) + " days"; });
    if (b.y != a.y || b.m != a.m) c.nontrivial();
    check_date(c, a, n);
    check_date(c, b, n + delta);
    const gd::sys_days sa = make(a), sb = make(b);
    PBT_CHECK(c, (sb - sa).count() == delta, "difference is " << (sb - sa).count());
    const Date s = get(gd::year_month_day{ sa + gd::days{ static_cast<int>(delta) } });
    PBT_CHECK(c, s == b, "adding the days gives " << str(s));
    PBT_CHECK(c, num(gd::local_days{ make(a) }) == n && get(gd::year_month_day{ loc(n) }) == a && wd(gd::weekday{ loc(n) }) == static_cast<unsigned>(cal::wday(n)), "local days differ from system days");
    check_order(c, make(a), make(b), cmp3(a, b), "dates");
    check_order(c, gd::year_month(Y(a.y), M(a.m)), gd::year_month(Y(b.y), M(b.m)), cmp3(a.y * 12 + a.m, b.y * 12 + b.m), "months of years");
    check_order(c, gd::month_day(M(a.m), D(a.d)), gd::month_day(M(b.m), D(b.d)), cmp3(a.m * 40 + a.d, b.m * 40 + b.d), "month and day");
    check_order(c, gd::month_day_last(M(a.m)), gd::month_day_last(M(b.m)), cmp3(a.m, b.m), "last days of months");
    check_order(c, Y(a.y) / M(a.m) / gd::last, Y(b.y) / M(b.m) / gd::last, cmp3(a.y * 12 + a.m, b.y * 12 + b.m), "last days");
    check_order(c, Y(a.y), Y(b.y), cmp3(a.y, b.y), "years");
    check_order(c, M(a.m), M(b.m), cmp3(a.m, b.m), "months");
    check_order(c, D(a.d), D(b.d), cmp3(a.d, b.d), "days");
    PBT_CHECK(c, (gd::year_month(Y(b.y), M(b.m)) - gd::year_month(Y(a.y), M(a.m))).count() == (b.y - a.y) * 12 + b.m - a.m, "difference in months");
    PBT_CHECK(c, (Y(b.y) - Y(a.y)).count() == b.y - a.y, "difference in years");
    PBT_CHECK(c, (M(b.m) - M(a.m)).count() == cal::fmod(b.m - a.m, 12), "difference of months " << (M(b.m) - M(a.m)).count());
    PBT_CHECK(c, (D(b.d) - D(a.d)).count() == b.d - a.d, "difference of days");
}

// X + amount in all spellings; `want` is the expected result
template <typename X, typename A> void check_add(Ctx& c, const X& x, const A& a, const X& want, const char* what)
{
    X p = x, q = want;
    PBT_CHECK(c, x + a == want && a + x == want, what << ": sum");
    PBT_CHECK(c, x - (-a) == want && want - a == x, what << ": difference");
    X& r = (p += a);
    PBT_CHECK(c, p == want && &r == &p, what << ": +=");
    X& s = (q -= a);
    PBT_CHECK(c, q == x && &s == &q, what << ": -=");
}
PBT_FACET(months_and_years, 200000, 2000000)
{
    const Date a = gen_date(c);
    const unsigned w = static_cast<unsigned>(c.below(7)), index = static_cast<unsigned>(c.range(1, 5));
    I dm = c.coin() ? c.range(-30, 30) : c.range(-800000, 800000);
    I dy = c.coin() ? c.range(-10, 10) : c.range(-65534, 65534);
    auto fits = [](I y) { return y >= cal::first_year && y <= cal::last_year; };
    const I t = a.y * 12 + a.m - 1;
    if (!fits(cal::fdiv(t + dm, 12))) dm = 0;
    if (!fits(a.y + dy)) dy = 0;
    const Date b{ cal::fdiv(t + dm, 12), static_cast<int>(cal::fmod(t + dm, 12)) + 1, a.d };
    const Date e{ a.y + dy, a.m, a.d };
    c.note_f([&] { return str(a) + " plus " + std::to_string(dm) + " months, plus " + std::to_string(dy) + " years"; });
    if (b.y != a.y || e.y != a.y) c.nontrivial();
    const gd::months ms{ static_cast<int>(dm) };
    const gd::years ys{ static_cast<int>(dy) };
    check_add(c, make(a), ms, make(b), "months added to a date");
    check_add(c, make(a), ys, make(e), "years added to a date");
    PBT_CHECK(c, make(b).ok() == (b.d <= cal::mdays(b.y, b.m)) && make(e).ok() == (e.d <= cal::mdays(e.y, e.m)), "validity after adding");
    check_add(c, gd::year_month(Y(a.y), M(a.m)), ms, gd::year_month(Y(b.y), M(b.m)), "months added to a month of a year");
    check_add(c, gd::year_month(Y(a.y), M(a.m)), ys, gd::year_month(Y(e.y), M(e.m)), "years added to a month of a year");
    check_add(c, Y(a.y) / M(a.m) / gd::last, ms, Y(b.y) / M(b.m) / gd::last, "months added to the last day of a month");
    check_add(c, Y(a.y) / M(a.m) / gd::last, ys, Y(e.y) / M(e.m) / gd::last, "years added to the last day of a month");
    const gd::weekday_indexed wi = gd::weekday{ w }[index];
    const gd::weekday_last wl = gd::weekday{ w }[gd::last];
    check_add(c, Y(a.y) / M(a.m) / wi, ms, Y(b.y) / M(b.m) / wi, "months added to the n-th weekday");
    check_add(c, Y(a.y) / M(a.m) / wi, ys, Y(e.y) / M(e.m) / wi, "years added to the n-th weekday");
    check_add(c, Y(a.y) / M(a.m) / wl, ms, Y(b.y) / M(b.m) / wl, "months added to the last weekday");
    check_add(c, Y(a.y) / M(a.m) / wl, ys, Y(e.y) / M(e.m) / wl, "years added to the last weekday");
    check_add(c, Y(a.y), ys, Y(e.y), "years");
    check_add(c, M(a.m), ms, M(b.m), "months");
}

PBT_FACET(fields, 100000, 1000000)
{
    const int m = static_cast<int>(c.range(1, 12)), w = static_cast<int>(c.below(7)), w2 = static_cast<int>(c.below(7));
    const I dm = c.integer<int>() / 2, dd = c.integer<int>() / 2;
    c.note_f([&] { return "month " + std::to_string(m) + ", weekday " + std::to_string(w) + ", " + std::to_string(dm) + ", " + std::to_string(dd); });
    if (dm > 12 || dm < -12) c.nontrivial();
    check_add(c, M(m), gd::months{ static_cast<int>(dm) }, M(static_cast<int>(cal::fmod(m - 1 + dm, 12)) + 1), "months");
    const gd::weekday x{ static_cast<unsigned>(w) }, y{ static_cast<unsigned>(w2) };
    check_add(c, x, gd::days{ static_cast<int>(dd) }, gd::weekday{ static_cast<unsigned>(cal::fmod(w + dd, 7)) }, "weekdays");
    PBT_CHECK(c, (x - y).count() == cal::fmod(w - w2, 7), "difference of weekdays " << w << " and " << w2 << " is " << (x - y).count());
    PBT_CHECK(c, (x == y) == (w == w2) && (x != y) == (w != w2), "comparison of weekdays");
    PBT_CHECK(c, x.ok() && wd(x) == static_cast<unsigned>(w) && x.iso_encoding() == (w == 0 ? 7u : static_cast<unsigned>(w)) && gd::weekday{ x.iso_encoding() } == x, "encoding of weekday " << w);
    gd::weekday z = x; ++z; PBT_CHECK(c, z == x + gd::days{ 1 }, "++weekday"); --z; PBT_CHECK(c, z == x, "--weekday");
    PBT_CHECK(c, z++ == x && wd(z) == static_cast<unsigned>((w + 1) % 7) && z-- == x + gd::days{ 1 } && z == x, "weekday++, weekday--");
    gd::month n = M(m); ++n; PBT_CHECK(c, n == M(m % 12 + 1), "++month"); --n; PBT_CHECK(c, n == M(m), "--month");
    PBT_CHECK(c, n++ == M(m) && n == M(m % 12 + 1) && n-- == M(m % 12 + 1) && n == M(m), "month++, month--");
    const I yv = c.range(cal::first_year + 1, cal::last_year - 1);
    gd::year yy = Y(yv); ++yy; PBT_CHECK(c, yy == Y(yv + 1), "++year"); --yy; PBT_CHECK(c, yy == Y(yv), "--year");
    PBT_CHECK(c, yy++ == Y(yv) && yy == Y(yv + 1) && yy-- == Y(yv + 1) && yy == Y(yv) && -yy == Y(-yv) && +yy == yy && static_cast<int>(yy) == yv, "year++, year--, -year");
    const int dv = static_cast<int>(c.range(2, 30)), da = static_cast<int>(c.range(1 - dv, 31 - dv));
    gd::day d = D(dv); ++d; PBT_CHECK(c, d == D(dv + 1), "++day"); --d; PBT_CHECK(c, d == D(dv), "--day");
    PBT_CHECK(c, d++ == D(dv) && d == D(dv + 1) && d-- == D(dv + 1) && d == D(dv), "day++, day--");
    check_add(c, D(dv), gd::days{ da }, D(dv + da), "days");
}

PBT_FACET(validity, 200000, 2000000)
{
    const I y = c.chance(1, 20) ? -32768 : gen_year(c);
    const int m = c.chance(1, 4) ? static_cast<int>(c.below(256)) : static_cast<int>(c.range(0, 14)), d = c.chance(1, 4) ? static_cast<int>(c.below(256)) : static_cast<int>(c.range(0, 33));
    const unsigned w = static_cast<unsigned>(c.chance(1, 4) ? c.below(16) : c.below(8)), index = static_cast<unsigned>(c.below(8));
    const bool yok = y != -32768, mok = m >= 1 && m <= 12, wok = w <= 7;
    c.note_f([&] { return str({ y, m, d }) + ", weekday " + std::to_string(w) + ", index " + std::to_string(index); });
    const Date t{ y, m, d };
    const bool dok = yok && mok && d >= 1 && d <= cal::mdays(y, m);
    if (!dok) c.nontrivial();
    PBT_CHECK(c, Y(y).ok() == yok && M(m).ok() == mok && D(d).ok() == (d >= 1 && d <= 31), "ok() of year, month or day");
    PBT_CHECK(c, make(t).ok() == dok, "ok() of " << str(t));
    PBT_CHECK(c, gd::year_month(Y(y), M(m)).ok() == (yok && mok), "ok() of year_month");
    PBT_CHECK(c, gd::month_day(M(m), D(d)).ok() == (mok && d >= 1 && d <= cal::mdays(2000, m)), "ok() of month_day");
    PBT_CHECK(c, gd::month_day_last(M(m)).ok() == mok && (Y(y) / gd::month_day_last(M(m))).ok() == (yok && mok), "ok() of month_day_last");
    const gd::weekday wk{ w };
    PBT_CHECK(c, wk.ok() == wok && (!wok || wd(wk) == w % 7), "ok() of weekday " << w);
    if (w <= 7)
    {
        PBT_CHECK(c, wk[index].ok() == (index >= 1 && index <= 5) && wk[index].index() == index && wk[index].weekday() == wk, "weekday_indexed " << w << "[" << index << "]");
        PBT_CHECK(c, wk[gd::last].ok() && wk[gd::last].weekday() == wk, "weekday_last");
        PBT_CHECK(c, gd::month_weekday(M(m), wk[index]).ok() == (mok && index >= 1 && index <= 5) && gd::month_weekday_last(M(m), wk[gd::last]).ok() == mok, "ok() of month_weekday");
        const gd::year_month_weekday x = Y(y) / M(m) / wk[index];
        const gd::year_month_weekday_last xl = Y(y) / M(m) / wk[gd::last];
        PBT_CHECK(c, xl.ok() == (yok && mok), "ok() of year_month_weekday_last");
        PBT_CHECK(c, static_cast<int>(x.year()) == y && static_cast<unsigned>(x.month()) == static_cast<unsigned>(m) && x.weekday() == wk && x.index() == index && x.weekday_indexed() == wk[index], "fields of year_month_weekday");
        PBT_CHECK(c, static_cast<int>(xl.year()) == y && static_cast<unsigned>(xl.month()) == static_cast<unsigned>(m) && xl.weekday() == wk && xl.weekday_last() == wk[gd::last], "fields of year_month_weekday_last");
        if (yok && mok)
        {
            // search the n-th and the last such weekday day by day
            int nth = 0, lastd = 0; unsigned count = 0;
            for (int k = 1; k <= cal::mdays(y, m); ++k)
                if (cal::wday(cal::number({ y, m, k })) == static_cast<int>(w % 7)) { lastd = k; if (++count == index) nth = k; }
            PBT_CHECK(c, x.ok() == (nth > 0), "ok() of weekday " << w << "[" << index << "] in " << y << "-" << m);
            PBT_CHECK(c, num(gd::sys_days{ xl }) == cal::number({ y, m, lastd }) && num(gd::local_days{ xl }) == cal::number({ y, m, lastd }), "last weekday " << w << " of " << y << "-" << m << " is day " << num(gd::sys_days{ xl }) - cal::number({ y, m, 1 }) + 1 << " instead of " << lastd);
            int first = 1;
            while (cal::wday(cal::number({ y, m, first })) != static_cast<int>(w % 7)) ++first;
            const I want = cal::number({ y, m, first }) + 7 * (static_cast<I>(index) - 1);
            PBT_CHECK(c, num(gd::sys_days{ x }) == want && num(gd::local_days{ x }) == want, "weekday " << w << "[" << index << "] of " << y << "-" << m << " is at " << num(gd::sys_days{ x }) << " instead of " << want);
            if (nth > 0)
            {
                const gd::year_month_weekday back{ gd::sys_days{ x } }, lback{ gd::local_days{ x } };
                PBT_CHECK(c, back == x && !(back != x) && lback == x, "weekday " << w << "[" << index << "] of " << y << "-" << m << " does not survive the conversion to days");
            }
        }
    }
    if (yok && mok && cal::number(t) == cal::number(t)) // days outside of the month count on
        PBT_CHECK(c, num(gd::sys_days{ make(t) }) == cal::number({ y, m, 1 }) + d - 1, "day number of " << str(t) << " is " << num(gd::sys_days{ make(t) }));
}

PBT_FACET(composition, 100000, 1000000)
{
    const Date t = gen_date(c);
    const gd::year y = Y(t.y); const gd::month m = M(t.m); const gd::day d = D(t.d);
    const int yi = static_cast<int>(t.y), mi = t.m, di = t.d;
    const gd::weekday w{ static_cast<unsigned>(c.below(7)) };
    const unsigned index = static_cast<unsigned>(c.range(1, 5));
    c.note_f([&] { return str(t); });
    if (t.y < 1970 || t.y > 2038) c.nontrivial();
    const gd::year_month_day x{ y, m, d };
    PBT_CHECK(c, get(x) == t, "fields");
    PBT_CHECK(c, y / m / d == x && y / mi / d == x && y / m / di == x && y / mi / di == x && m / d / y == x && m / di / y == x && m / d / yi == x && d / m / y == x && d / mi / y == x && d / m / yi == x
        && mi / d / y == x && mi / d / yi == x && y / (m / d) == x && yi / (m / d) == x, "different spellings of " << str(t));
    const gd::year_month_day_last l = y / m / gd::last;
    PBT_CHECK(c, y / mi / gd::last == l && m / gd::last / y == l && m / gd::last / yi == l && gd::last / m / y == l && mi / gd::last / y == l && gd::last / mi / yi == l && y / (m / gd::last) == l && yi / (m / gd::last) == l
        && l.year() == y && l.month() == m && l.month_day_last() == m / gd::last && (m / gd::last).month() == m, "different spellings of the last day");
    const Date ld{ t.y, t.m, cal::mdays(t.y, t.m) };
    PBT_CHECK(c, get(gd::year_month_day{ l }) == ld && num(gd::local_days{ l }) == cal::number(ld), "last day of the month");
    const gd::weekday_indexed wi = w[index]; const gd::weekday_last wl = w[gd::last];
    const gd::year_month_weekday yw = y / m / wi; const gd::year_month_weekday_last yl = y / m / wl;
    PBT_CHECK(c, y / mi / wi == yw && m / wi / y == yw && m / wi / yi == yw && wi / m / y == yw && mi / wi / y == yw && wi / mi / yi == yw && y / (m / wi) == yw && yi / (m / wi) == yw, "different spellings of the n-th weekday");
    PBT_CHECK(c, y / mi / wl == yl && m / wl / y == yl && m / wl / yi == yl && wl / m / y == yl && mi / wl / y == yl && wl / mi / yi == yl && y / (m / wl) == yl && yi / (m / wl) == yl, "different spellings of the last weekday");
    PBT_CHECK(c, (m / d).month() == m && (m / d).day() == d && (y / m).year() == y && (y / m).month() == m && (m / wi).month() == m && (m / wi).weekday_indexed() == wi && (m / wl).weekday_last() == wl && (m / wl).month() == m, "fields");
    const gd::weekday_indexed wo = (w + gd::days{ 1 })[index], wj = w[index % 5 + 1];
    PBT_CHECK(c, wi != wo && wi != wj && wi == w[index] && wl != (w + gd::days{ 1 })[gd::last] && wl == w[gd::last] && yw != y / m / wj && yw != y / (m + gd::months{ 1 }) / wi && yl != y / (m + gd::months{ 1 }) / wl
        && (m / wi) != (m / wj) && (m / wl) == (m / wl) && (m / wl) != ((m + gd::months{ 1 }) / wl) && (m / wi) == (m / wi), "comparison of weekday specifications");
}
using namespace gul14::date::literals;
static_assert(2021_y / gd::March / 14_d == gd::year_month_day(gd::year(2021), gd::month(3), gd::day(14)) && gd::sys_days(1970_y / 1 / 1).time_since_epoch().count() == 0 && gd::Sunday.c_encoding() == 0, "constant expressions");
static_assert(static_cast<unsigned>(gd::January) == 1 && static_cast<unsigned>(gd::February) == 2 && static_cast<unsigned>(gd::April) == 4 && static_cast<unsigned>(gd::May) == 5 && static_cast<unsigned>(gd::June) == 6
    && static_cast<unsigned>(gd::July) == 7 && static_cast<unsigned>(gd::August) == 8 && static_cast<unsigned>(gd::September) == 9 && static_cast<unsigned>(gd::October) == 10 && static_cast<unsigned>(gd::November) == 11
    && static_cast<unsigned>(gd::December) == 12 && gd::Monday.c_encoding() == 1 && gd::Tuesday.c_encoding() == 2 && gd::Wednesday.c_encoding() == 3 && gd::Thursday.c_encoding() == 4 && gd::Friday.c_encoding() == 5
    && gd::Saturday.c_encoding() == 6, "names");

// ---- rounding of durations and time points
using I128 = __int128;
I128 floor128(I128 a, I128 b) { I128 q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
template <typename To, typename From>
void rounding(Ctx& c)
{
    // value in units of To = v * num / den
    using R = std::ratio_divide<typename From::period, typename To::period>;
    I lim = static_cast<I>((I128{ 1 } << 62) / R::num);
    if (sizeof(typename To::rep) == 4) lim = static_cast<I>(std::min<I128>(lim, (I128{ 1 } << 30) * R::den / R::num));
    using CT = typename std::common_type<From, To>::type; // used for differences and comparisons
    using K = std::ratio_divide<typename From::period, typename CT::period>;
    if (sizeof(typename CT::rep) == 4) lim = static_cast<I>(std::min<I128>(lim, (I128{ 1 } << 30) / K::num - 2 * K::den));
    else lim = static_cast<I>(std::min<I128>(lim, (I128{ 1 } << 61) / K::num));
    I v;
    switch (c.below(4))
    {
    case 0: v = c.range(-100, 100); break;
    case 1: v = static_cast<I>(c.u64()) % lim; break;
    case 2: v = static_cast<I>(std::min<I128>(lim / 2, R::den)) * c.range(-3, 3) / 2 + c.range(-2, 2); break; // ties and their neighbours
    default: v = static_cast<I>((I128{ c.range(-100000, 100000) } * R::den / R::num / 2)) + c.range(-1, 1); break;
    }
    if (v > lim || v < -lim) v %= lim;
    v = static_cast<typename From::rep>(v);
    const I128 x = I128{ v } * R::num;
    const I128 lo = floor128(x, R::den), hi = -floor128(-x, R::den), tr = x / R::den;
    const I128 d0 = x - lo * R::den, d1 = hi * R::den - x;
    const I128 rd = d0 < d1 ? lo : d1 < d0 ? hi : (lo % 2 == 0 ? lo : hi);
    c.note_f([&] { return std::to_string(v) + " * " + std::to_string(R::num) + " / " + std::to_string(R::den); });
    if (d0 != 0 && v < 0) c.nontrivial();
    c.label_if(d0 != 0 && d0 == d1, "tie");
    const From f{ static_cast<typename From::rep>(v) };
    const std::chrono::time_point<std::chrono::system_clock, From> tp{ f };
    const gd::local_time<From> lt{ f };
    auto s = [](I128 z) { return std::to_string(static_cast<I>(z)); };
    const I fl = gd::floor<To>(f).count(), ce = gd::ceil<To>(f).count(), ro = gd::round<To>(f).count(), tc = gd::trunc<To>(f).count();
    PBT_CHECK(c, fl == lo, "floor gives " << fl << " instead of " << s(lo));
    PBT_CHECK(c, ce == hi, "ceil gives " << ce << " instead of " << s(hi));
    PBT_CHECK(c, ro == rd, "round gives " << ro << " instead of " << s(rd));
    PBT_CHECK(c, tc == tr, "trunc gives " << tc << " instead of " << s(tr));
    PBT_CHECK(c, gd::floor<To>(tp).time_since_epoch().count() == lo && gd::ceil<To>(tp).time_since_epoch().count() == hi && gd::round<To>(tp).time_since_epoch().count() == rd
        && gd::trunc<To>(tp).time_since_epoch().count() == tr && gd::floor<To>(lt).time_since_epoch().count() == lo, "rounding of time points");
    PBT_CHECK(c, gd::abs(f).count() == (v < 0 ? -v : v), "abs");
}
PBT_FACET(duration_rounding, 400000, 4000000)
{
    using namespace std::chrono;
    using third = duration<I, std::ratio<1, 3>>; using frame = duration<I, std::ratio<1001, 30000>>; using seven = duration<I, std::ratio<7>>;
    switch (c.below(14))
    {
    case 0: rounding<gd::days, seconds>(c); break;
    case 1: rounding<gd::days, nanoseconds>(c); break;
    case 2: rounding<seconds, milliseconds>(c); break;
    case 3: rounding<minutes, seconds>(c); break;
    case 4: rounding<hours, microseconds>(c); break;
    case 5: rounding<gd::weeks, gd::days>(c); break;
    case 6: rounding<gd::years, gd::days>(c); break;
    case 7: rounding<gd::months, hours>(c); break;
    case 8: rounding<third, milliseconds>(c); break;
    case 9: rounding<frame, milliseconds>(c); break;
    case 10: rounding<milliseconds, frame>(c); break;
    case 11: rounding<seven, seconds>(c); break;
    case 12: rounding<seconds, seconds>(c); break;
    default: rounding<milliseconds, microseconds>(c); break;
    }
}
PBT_FACET(floating_point_truncation, 100000, 1000000)
{
    using ds = std::chrono::duration<double>; using fs = std::chrono::duration<float>;
    double v = c.coin() ? static_cast<double>(c.range(-4000000, 4000000)) / 8 : std::ldexp(static_cast<double>(static_cast<I>(c.u64())), static_cast<int>(c.range(-80, 10)));
    if (c.chance(1, 30)) v = c.pick({ 0.0, -0.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -0.75 });
    c.note_f([&] { return pbt::show(v); });
    if (v < 0) c.nontrivial();
    const double t = gd::trunc<ds>(ds(v)).count();
    PBT_CHECK(c, t == std::trunc(v) && std::signbit(t) == std::signbit(std::trunc(v)), "trunc of " << pbt::show(v) << " gives " << pbt::show(t));
    const float f = static_cast<float>(v), tf = gd::trunc<fs>(fs(f)).count();
    PBT_CHECK(c, tf == std::trunc(f) && std::signbit(tf) == std::signbit(std::trunc(f)), "trunc of " << pbt::show(f) << " gives " << pbt::show(tf));
    if (std::fabs(v) < 1e9)
    {
        const double fl = static_cast<double>(gd::floor<std::chrono::seconds>(ds(v)).count()), ce = static_cast<double>(gd::ceil<std::chrono::seconds>(ds(v)).count());
        PBT_CHECK(c, fl == std::floor(v) && ce == std::ceil(v), "floor or ceil of " << pbt::show(v) << " gives " << fl << ", " << ce);
    }
}

// ---- time of day
template <typename Dur, unsigned Width>
void time_of_day(Ctx& c)
{
    using H = gd::hh_mm_ss<Dur>;
    static_assert(H::fractional_width == Width, "fractional width");
    constexpr I num = Dur::period::num, den = Dur::period::den;
    I v = c.coin() ? static_cast<I>(I128{ c.range(-200000, 200000) } * den / num) + c.range(-3, 3) : static_cast<I>(c.u64()) % static_cast<I>((I128{ 1 } << 55) / num);
    if (sizeof(typename Dur::rep) == 4) v = static_cast<I>(v % 20000);
    const Dur d{ static_cast<typename Dur::rep>(v) };
    I128 p10 = 1;
    for (unsigned i = 0; i < Width; ++i) p10 *= 10;
    const I128 total = (v < 0 ? -I128{ v } : I128{ v }) * num * p10 / den; // in units of the precision, truncated
    const H x{ d };
    const I128 sub = total % p10, sec = total / p10;
    c.note_f([&] { return std::to_string(v) + " * " + std::to_string(num) + "/" + std::to_string(den) + " s"; });
    if (v < 0 && sub != 0) c.nontrivial();
    PBT_CHECK(c, x.is_negative() == (v < 0), "is_negative");
    PBT_CHECK(c, x.hours().count() == sec / 3600 && x.minutes().count() == sec / 60 % 60 && x.seconds().count() == sec % 60, "fields " << x.hours().count() << ":" << x.minutes().count() << ":" << x.seconds().count());
    PBT_CHECK(c, x.subseconds().count() == sub, "subseconds " << static_cast<I>(x.subseconds().count()));
    PBT_CHECK(c, x.to_duration().count() == (v < 0 ? -total : total) && static_cast<typename H::precision>(x) == x.to_duration(), "to_duration");
    PBT_CHECK(c, x.in_conventional_range() == (v >= 0 && sec < 86400), "in_conventional_range");
    const auto y = gd::make_time(d);
    PBT_CHECK(c, y.to_duration() == x.to_duration() && y.hours() == x.hours(), "make_time");
    // the text: sign, hours (at least two digits), minutes, seconds with decimals
    std::ostringstream os;
    os << x;
    char buf[96];
    std::snprintf(buf, sizeof buf, "%s%02lld:%02d:%02d", v < 0 ? "-" : "", static_cast<long long>(sec / 3600), static_cast<int>(sec / 60 % 60), static_cast<int>(sec % 60));
    std::string want = buf;
    if (Width) { std::string f = std::to_string(static_cast<I>(sub)); want += "." + std::string(Width - f.size(), '0') + f; }
    PBT_CHECK(c, os.str() == want, "text " << os.str() << " instead of " << want);
}
PBT_FACET(times_of_day, 300000, 3000000)
{
    using namespace std::chrono;
    switch (c.below(10))
    {
    case 0: time_of_day<seconds, 0>(c); break;
    case 1: time_of_day<milliseconds, 3>(c); break;
    case 2: time_of_day<microseconds, 6>(c); break;
    case 3: time_of_day<nanoseconds, 9>(c); break;
    case 4: time_of_day<minutes, 0>(c); break;
    case 5: time_of_day<hours, 0>(c); break;
    case 6: time_of_day<duration<I, std::ratio<1, 4>>, 2>(c); break;
    case 7: time_of_day<duration<I, std::ratio<1, 10>>, 1>(c); break;
    case 8: time_of_day<duration<I, std::ratio<3, 125>>, 3>(c); break;
    default: time_of_day<gd::days, 0>(c); break;
    }
}
PBT_FACET(half_days, 200, 2000)
{
    const int h = static_cast<int>(c.below(24));
    c.note("hour " + std::to_string(h));
    using std::chrono::hours;
    const hours x{ h };
    c.nontrivial();
    PBT_CHECK(c, gd::is_am(x) == (h < 12) && gd::is_pm(x) == (h >= 12), "is_am, is_pm of " << h);
    const int h12 = h % 12 == 0 ? 12 : h % 12;
    PBT_CHECK(c, gd::make12(x).count() == h12, "make12(" << h << ") gives " << gd::make12(x).count());
    PBT_CHECK(c, gd::make24(hours{ h12 }, h >= 12).count() == h, "make24(" << h12 << ") gives " << gd::make24(hours{ h12 }, h >= 12).count());
    const hours neg{ -1 - static_cast<int>(c.below(100)) }, big{ 24 + static_cast<int>(c.below(100)) };
    PBT_CHECK(c, !gd::is_am(neg) && !gd::is_pm(neg) && !gd::is_am(big) && !gd::is_pm(big), "is_am, is_pm outside of a day");
}
} // namespace
PBT_MAIN
