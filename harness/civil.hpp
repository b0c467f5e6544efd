// Independent proleptic Gregorian calendar (day numbers since 1970-01-01), used as the reference model for dates.
#pragma once
#include <string>
namespace civil {
    inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
    inline int dim(int y, int m) {
        static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        return m == 2 && leap(y) ? 29 : D[m - 1];
    }
    inline long toDays(int y, int m, int d) {
        y -= m <= 2;
        const long era = (y >= 0 ? y : y - 399) / 400;
        const long yoe = y - era * 400;
        const long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
        const long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        return era * 146097 + doe - 719468;
    }
    struct YMD {
        int y, m, d;
    };
    inline YMD fromDays(long z) {
        z += 719468;
        const long era = (z >= 0 ? z : z - 146096) / 146097;
        const long doe = z - era * 146097;
        const long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        const long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        const long mp = (5 * doy + 2) / 153;
        const int d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
        const int m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
        return {static_cast<int>(yoe + era * 400 + (m <= 2)), m, d};
    }
    // 0 = Sunday
    inline int dow(long z) { return static_cast<int>(((z % 7) + 7 + 4) % 7); }
    inline YMD addMonths(YMD a, int n, bool eom) {
        const bool last = a.d == dim(a.y, a.m);
        long t = a.y * 12L + (a.m - 1) + n;
        YMD r;
        r.y = static_cast<int>(t >= 0 ? t / 12 : (t - 11) / 12);
        r.m = static_cast<int>(t - r.y * 12L) + 1;
        const int dm = dim(r.y, r.m);
        r.d = ((eom && last) || a.d > dm) ? dm : a.d;
        return r;
    }
    inline long days(const YMD& a) { return toDays(a.y, a.m, a.d); }
    const long EXCEL0 = 25569; // serial of 1970-01-01
} // namespace civil
