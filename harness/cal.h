// An independent proleptic Gregorian calendar (counting, no closed formulas for months).
#ifndef CAL_H_
#define CAL_H_
#include <cstdint>
namespace cal {
using I = std::int64_t;
inline I fdiv(I a, I b) { I q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
inline I fmod(I a, I b) { return a - fdiv(a, b) * b; }
inline bool leap(I y) { if (fmod(y, 400) == 0) return true; if (fmod(y, 100) == 0) return false; return fmod(y, 4) == 0; }
/// Days in month 1 to 12, 0 for other months.
inline int mdays(I y, I m)
{
    switch (m)
    {
    case 4: case 6: case 9: case 11: return 30;
    case 2: return leap(y) ? 29 : 28;
    case 1: case 3: case 5: case 7: case 8: case 10: case 12: return 31;
    default: return 0;
    }
}
/// Number of leap years before year y, counted from year 1 (negative for y < 1).
inline I leaps_before(I y) { return fdiv(y - 1, 4) - fdiv(y - 1, 100) + fdiv(y - 1, 400); }
inline I jan1(I y) { return (y - 1970) * 365 + leaps_before(y) - leaps_before(1970); }
struct Date { I y; int m; int d; };
inline bool operator==(const Date& a, const Date& b) { return a.y == b.y && a.m == b.m && a.d == b.d; }
inline bool operator<(const Date& a, const Date& b) { return a.y != b.y ? a.y < b.y : a.m != b.m ? a.m < b.m : a.d < b.d; }
/// Day number of a date with a month from 1 to 12 and any day.
inline I number(const Date& t) { I n = jan1(t.y); for (int m = 1; m < t.m; ++m) n += mdays(t.y, m); return n + t.d - 1; }
inline Date date(I n)
{
    I y = 1970 + fdiv(n, 366);
    while (jan1(y + 1) <= n) ++y;
    while (jan1(y) > n) --y;
    I r = n - jan1(y);
    int m = 1;
    while (r >= mdays(y, m)) { r -= mdays(y, m); ++m; }
    return { y, m, static_cast<int>(r) + 1 };
}
inline int wday(I n) { return static_cast<int>(fmod(n + 4, 7)); } ///< 0 = Sunday
inline int yday(const Date& t) { return static_cast<int>(number(t) - jan1(t.y)) + 1; } ///< 1 to 366
/// ISO 8601 week number and the year it belongs to: week 1 contains the first Thursday.
inline void iso_week(I n, I& year, int& week)
{
    const int wd = static_cast<int>(fmod(n + 3, 7));      // 0 = Monday
    const I thursday = n - wd + 3;
    year = date(thursday).y;
    week = static_cast<int>((thursday - jan1(year)) / 7) + 1;
}
constexpr I first_year = -32767, last_year = 32767;
} // namespace cal
#endif
