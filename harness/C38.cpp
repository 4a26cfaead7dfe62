// C38 local and universal time
#include "dt.h"
#include <time.h>
#include <sys/time.h>
//@wrap time gmtime localtime gmtime_r localtime_r tzset clock_gettime mktime timegm gettimeofday
//@bound the clock at every second of eleven days (ordinary, month ends, leap day and its neighbours, year ends, first and last centuries), local clock at every whole-second offset within a day either side; every tick count of the converted date; clock fractions of every nanosecond
//@assume the platform's clock functions agree with each other (stand-ins); leap seconds are not shown by the clocks
static const int DAYS[11][3] = {{2021, 6, 15}, {2020, 12, 31}, {2021, 1, 1}, {2020, 2, 29}, {2020, 2, 28}, {2021, 2, 28}, {2021, 3, 1}, {2020, 3, 1}, {1970, 1, 2}, {2019, 12, 31}, {2100, 3, 1}};
static struct { int64_t raw, nsec, off; struct tm utc, loc; bool asked; int dst; int y, mo, d, h, mi, s; bool given; } W; // dst: what the platform says of a given local date (mktime)
static struct tm shared; // both conversions return the same storage, as the platform's do
static int64_t ymd2days(int64_t y, int m, int64_t d) { bool leap = isLeap(y); return dayNumber(y, m, d, leap) - 719162; }
static void fields(struct tm &t, int y, int m, int d, int h, int mi, int s, long off) { memset(&t, 0, sizeof t); t.tm_year = y - 1900; t.tm_mon = m - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s; t.tm_yday = cumDays(m, isLeap(y)) + d - 1; t.tm_wday = (int)((ymd2days(y, m, d) + 4) % 7); t.tm_gmtoff = off; }
static void world(bool any = true) {
  int k = p_range("date", 0, 10), dd = p_range("localday", -1, 1); int64_t h = vs_range("utchour", 0, 23), m = vs_range("utcminute", 0, 59), s = vs_range("utcsecond", 0, 59), lh = vs_range("localhour", 0, 23), lm = vs_range("localminute", 0, 59), ls = vs_range("localsecond", 0, 59);
  int y = DAYS[k][0], mo = DAYS[k][1], d = DAYS[k][2], ly = y, lmo = mo, ld = d + dd; if (ld < 1) { if (--lmo < 1) { lmo = 12; ly--; } ld = monthLen(lmo, isLeap(ly)); } else if (ld > monthLen(mo, isLeap(y))) { ld = 1; if (++lmo > 12) { lmo = 1; ly++; } }
  W.off = dd * 86400 + (lh - h) * 3600 + (lm - m) * 60 + (ls - s); vs_assume((W.off >= -86400) & (W.off <= 86400)); W.raw = ymd2days(y, mo, d) * 86400 + h * 3600 + m * 60 + s; W.nsec = any ? vs_range("ms", 0, 999) * 1000000 : 0; W.asked = false; if (any) W.nsec += vs_range("ns", 0, 999999);
  fields(W.utc, y, mo, d, (int)h, (int)m, (int)s, 0); fields(W.loc, ly, lmo, ld, (int)lh, (int)lm, (int)ls, (long)W.off); W.given = false; W.dst = 0; memset(&shared, 0, sizeof shared); }
extern "C" {
time_t vsm_time(time_t *p) { W.asked = true; if (p) *p = (time_t)W.raw; return (time_t)W.raw; }
int vsm_clock_gettime(clockid_t, struct timespec *t) { W.asked = true; t->tv_sec = (time_t)W.raw; t->tv_nsec = (long)W.nsec; return 0; }
int vsm_gettimeofday(struct timeval *t, void *) { W.asked = true; t->tv_sec = (time_t)W.raw; t->tv_usec = (long)(W.nsec / 1000); return 0; }
void vsm_tzset(void) {}
static void now(const time_t *t) { vs_check(*t == (time_t)W.raw, "the present moment is converted"); }
struct tm *vsm_gmtime(const time_t *t) { now(t); shared = W.utc; return &shared; }
struct tm *vsm_localtime(const time_t *t) { now(t); shared = W.loc; return &shared; }
struct tm *vsm_gmtime_r(const time_t *t, struct tm *r) { now(t); *r = W.utc; return r; }
struct tm *vsm_localtime_r(const time_t *t, struct tm *r) { now(t); *r = W.loc; return r; }
time_t vsm_timegm(struct tm *t) { return (time_t)(ymd2days(t->tm_year + 1900, t->tm_mon + 1, t->tm_mday) * 86400 + (int64_t)t->tm_hour * 3600 + (int64_t)t->tm_min * 60 + t->tm_sec); }
time_t vsm_mktime(struct tm *t) { if (W.given) { vs_check(t->tm_isdst < 0, "the platform is asked to find out"); vs_check((t->tm_year + 1900 == W.y) & (t->tm_mon + 1 == W.mo) & (t->tm_mday == W.d) & (t->tm_hour == W.h) & (t->tm_min == W.mi) & (t->tm_sec == W.s), "about the date given"); t->tm_isdst = W.dst; W.asked = true; return (time_t)W.raw; } return vsm_timegm(t) - (time_t)W.off; }
}
static int64_t tk(DateTime d) { return (int64_t)d.value; }
ENTRY(convert) { //@ shards=3
  world(false); Date d = any_date(); Tod h = any_time(); int64_t t = d.dn * TPD + h.ticks, off = W.off * 10000000; vs_assume((t > TPD) & (t < MAXT - TPD)); DateTime b((UInt64)t); DateTimeValue v(b); int64_t l = 0, u = 0; bool f = p_range("flag", 0, 2) == 1; int x = outcome([&] { l = tk(f ? v.ToLocalTime(true) : v.ToLocalTime()); u = tk(v.ToUniversalTime()); });
  vs_check(x == X_NONE, "converting raises nothing"); vs_check(l == t + off, "local time is the offset later"); vs_check(u == t - off, "universal time is the offset earlier"); vs_check(tk(v.get_AsDateTime()) == t, "the date given is left alone"); DateTimeValue w((DateTime((UInt64)l))); vs_check(tk(w.ToUniversalTime()) == t, "there and back"); vs_cover("convert"); }
// near the ends of the calendar the result is a date within it, or an error
ENTRY(ends) { world(false); int64_t off = W.off * 10000000; bool hi = p_range("end", 0, 1); Tod h = any_time(); int64_t t = hi ? MAXT - h.ticks : h.ticks; DateTimeValue v((DateTime((UInt64)t))); bool loc = p_range("to", 0, 1); int64_t r = 0, e = loc ? t + off : t - off; int x = outcome([&] { r = tk(loc ? v.ToLocalTime(true) : v.ToUniversalTime()); });
  if (e < 0 || e > MAXT) { vs_check(x != X_NONE ? argerr(x) : r == (e < 0 ? 0 : MAXT), "outside the calendar"); vs_cover("outside"); } else { vs_check(x == X_NONE && r == e, "inside"); vs_cover("inside"); } }
ENTRY(now) { world(); int64_t u = 0, l = 0, td = 0; int x = outcome([&] { u = tk(DateTimeValue::get_UtcNow()); l = tk(DateTimeValue::get_Now()); td = tk(DateTimeValue::get_Today()); }); vs_check(x == X_NONE, "reading the clock raises nothing"); vs_check(W.asked, "the clock is read"); //@ twice=1
  int64_t base = (W.raw + 719162LL * 86400) * 10000000, got = u - base; vs_check((got >= 0) & (got <= W.nsec / 100) & (got >= W.nsec / 1000000 * 10000), "universal time is the clock's, to the millisecond"); vs_check(l - u == W.off * 10000000, "local time is the offset later"); int64_t tod = ((int64_t)W.loc.tm_hour * 3600 + (int64_t)W.loc.tm_min * 60 + W.loc.tm_sec) * 10000000; vs_check(td == base + W.off * 10000000 - tod, "today starts at local midnight"); vs_cover("now"); }
// whether daylight saving is in effect at a local date is the platform's answer for exactly that date
ENTRY(daylight) { //@ shards=4 cost=2 twice=1
  Date d = any_piece(); Tod h = any_time(); memset(&W, 0, sizeof W); W.given = true; W.y = d.y; W.mo = d.m; W.d = d.d; W.h = h.h; W.mi = h.mi; W.s = h.s; W.dst = p_range("dst", -1, 1); W.loc.tm_isdst = W.dst; DateTimeValue v((DateTime((UInt64)(d.dn * TPD + h.ticks)))); bool r = false; int x = outcome([&] { r = v.IsDaylightSavingTime(); }); vs_check(x == X_NONE && r == (W.dst > 0) && W.asked, "daylight saving is the platform's answer"); vs_cover("daylight"); }
