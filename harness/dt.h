// Dates in mixed radix: year-1 = 400a+100b+4c+d. Every date of years 1..9999 falls in exactly one of five cases, in
// each of which the Gregorian leap rule is constant, so that the calendar arithmetic of the code becomes linear.
#pragma once
#include "vs.h"
static const int64_t TPD = 864000000000LL;
static const int mdays[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static int cumDays(int m, bool leap) { int s = 0; for (int i = 1; i < m; i++) s += mdays[i] + (leap && i == 2); return s; }
static int monthLen(int m, bool leap) { return mdays[m] + (leap && m == 2); }
struct Date { int32_t y, m, d; bool leap; int64_t dn; int cum, len; };
// kase 0: year%4 in 1..3; 1: leap (year%4==0, not a century); 2: century, not leap; 3: year divisible by 400, leap
// piece: the days of the month are cut where (day of year)/32 steps and before 31 December of a leap year, so that the
// month estimate and every quotient is one value in each piece (piece < 0: the whole month at once)
static int pieceLo(int m, bool leap, int piece) { int c = cumDays(m, leap), n = 0; for (int d = 1; d <= monthLen(m, leap); d++) { bool cut = d == 1 || ((c + d - 1) >> 5) != ((c + d - 2) >> 5) || (leap && m == 12 && d == 31); if (cut && n++ == piece) return d; } return 0; }
static Date s_date(int kase, int m, int piece = -1) {
  Date r; int64_t a = kase == 3 ? vs_range("y400", 0, 23) : vs_range("y400", 0, 24); int64_t b = kase == 3 ? 3 : vs_range("y100", 0, kase == 2 ? 2 : 3), c, d; // (year 10000 excluded)
  c = kase >= 2 ? 24 : (kase == 1 ? vs_range("y4", 0, 23) : vs_range("y4", 0, 24)); d = kase ? 3 : vs_range("y1", 0, 2);
  r.leap = kase == 1 || kase == 3; r.y = (int32_t)(400 * a + 100 * b + 4 * c + d + 1); r.m = m; r.cum = cumDays(m, r.leap); r.len = monthLen(m, r.leap);
  int lo = 1, hi = r.len; if (piece >= 0) { lo = pieceLo(m, r.leap, piece); if (!lo) vs_assume(false); hi = pieceLo(m, r.leap, piece + 1); hi = hi ? hi - 1 : r.len; }
  int64_t dd = lo == hi ? lo : vs_range("day", lo, hi); r.d = (int32_t)dd; r.dn = 146097 * a + 36524 * b + 1461 * c + 365 * d + r.cum + dd - 1; return r;
}
static Date any_date() { int k = p_range("case", 0, 47); return s_date(k & 3, k / 4 + 1); }
static Date any_piece() { int k = p_few("case", 0, 143); return s_date(k & 3, k / 4 % 12 + 1, k / 48); }
struct Tod { int32_t h, mi, s, ms; int64_t sub, ticks; };
static Tod any_time() { Tod t; int64_t h = vs_range("hour", 0, 23), mi = vs_range("minute", 0, 59), s = vs_range("second", 0, 59), ms = vs_range("ms", 0, 999); t.sub = vs_range("subms", 0, 9999);
  t.h = (int32_t)h; t.mi = (int32_t)mi; t.s = (int32_t)s; t.ms = (int32_t)ms; t.ticks = h * 36000000000LL + mi * 600000000LL + s * 10000000LL + ms * 10000LL + t.sub; return t; }
static const int64_t MAXT = 3652059LL * 864000000000LL - 1;
// proleptic Gregorian day number and leap rule from the definition
static bool isLeap(int64_t y) { return (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0)); }
static int64_t dayNumber(int64_t y, int m, int64_t d, bool leap) { int64_t p = y - 1; return p * 365 + p / 4 - p / 100 + p / 400 + cumDays(m, leap) + d - 1; }
// time spans
struct Span { int64_t t; int sg; int64_t d, h, mi, s, ms, sub; };
// every tick count by sign: all days but the last in full, and the last (2^63 = 10675199 days 02:48:05.4775808) field by field
static Span any_span() {
  Span r; r.sg = p_range("negative", 0, 1) ? -1 : 1; int c = p_range("case", 0, 6); if (c == 6) { vs_assume(r.sg < 0); r.d = 10675199; r.h = 2; r.mi = 48; r.s = 5; r.ms = 477; r.sub = 5808; r.t = INT64_MIN; return r; }
  r.d = c == 0 ? vs_range("days", 0, 10675198) : 10675199; r.h = c == 0 ? vs_range("hours", 0, 23) : c == 1 ? vs_range("hours", 0, 1) : 2; r.mi = c < 2 ? vs_range("minutes", 0, 59) : c == 2 ? vs_range("minutes", 0, 47) : 48;
  r.s = c < 3 ? vs_range("seconds", 0, 59) : c == 3 ? vs_range("seconds", 0, 4) : 5; r.ms = c < 4 ? vs_range("ms", 0, 999) : c == 4 ? vs_range("ms", 0, 476) : 477; r.sub = c < 5 ? vs_range("sub", 0, 9999) : vs_range("sub", 0, 5807);
  int64_t m = r.d * TPD + r.h * 36000000000LL + r.mi * 600000000LL + r.s * 10000000LL + r.ms * 10000 + r.sub; r.t = r.sg < 0 ? -m : m; return r;
}
