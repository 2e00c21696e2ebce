#include "oracle.hpp"
#include <memory>
#include <stdex/chrono.hpp>
using namespace orc; using D = stdex::chrono::aosn_date; using S = stdex::chrono::aosn_timestamp;
static bool leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int dim(int64_t y, int m) { static const int t[] = { 31,28,31,30,31,30,31,31,30,31,30,31 }; return m == 2 && leap(y) ? 29 : t[m - 1]; }
static int64_t J(int64_t y, int m, int d) { int64_t n = 365 * (y - 1) + (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 1721425; for (int k = 1; k < m; k++) n += dim(y, k); return n + d; }
static D::time_point tp(int32_t n) { return D::time_point(D::duration(n)); } static S::time_point ts(int64_t n) { return S::time_point(S::duration(n)); }
static const int64_t E0 = 210866803200ll;
static void date(int64_t y, int m, int d) {
	CASE(); int64_t j = J(y, m, d), g = D::from_dmy((uint8_t)d, (uint8_t)m, (int32_t)y).time_since_epoch().count(); if (g != j) { fail("from_dmy", "%d.%d.%lld: day %lld expected %lld", d, m, (long long)y, (long long)g, (long long)j); return; }
	uint8_t dd = 99, mm = 99; int32_t yy = -1; D::to_dmy(tp((int32_t)j), &dd, &mm, &yy); if (dd != d || mm != m || yy != y) fail("to_dmy", "day %lld: %d.%d.%d expected %d.%d.%lld", (long long)j, dd, mm, yy, d, m, (long long)y);
	dd = 99; mm = 99; yy = -1; D::to_dmy(tp((int32_t)j), nullptr, &mm, nullptr); D::to_dmy(tp((int32_t)j), &dd, nullptr, nullptr); D::to_dmy(tp((int32_t)j), nullptr, nullptr, &yy); if (dd != d || mm != m || yy != y) fail("to_dmy-partial", "day %lld", (long long)j);
	int w = D::day_of_week(tp((int32_t)j)), w2 = D::day_of_week((uint8_t)d, (uint8_t)m, (int32_t)y); if (w != j % 7 || w2 != w) fail("day_of_week", "%d.%d.%lld: %d %d expected %d", d, m, (long long)y, w, w2, (int)(j % 7)); }
static void stamp(int64_t y, int m, int d, int h, int mi, int se, int ms) {
	CASE(); int64_t n = J(y, m, d) * 86400000 + h * 3600000ll + mi * 60000 + se * 1000 + ms; auto t = S::from_dmy((uint8_t)d, (uint8_t)m, (int32_t)y, (uint8_t)h, (uint8_t)mi, (uint8_t)se, (uint16_t)ms); if (t.time_since_epoch().count() != n) { fail("stamp-from", "%d.%d.%lld %d:%d:%d.%d: %lld expected %lld", d, m, (long long)y, h, mi, se, ms, (long long)t.time_since_epoch().count(), (long long)n); return; }
	uint8_t a, b, e, f, g; uint16_t u; int32_t yy; S::to_dmy(t, &a, &b, &yy, &e, &f, &g, &u); if (a != d || b != m || yy != y || e != h || f != mi || g != se || u != ms) fail("stamp-to", "%lld: %d.%d.%d %d:%d:%d.%d", (long long)n, a, b, yy, e, f, g, u);
	struct tm x; memset(&x, 0x55, sizeof x); S::to_system(t, x); if (x.tm_sec != se || x.tm_min != mi || x.tm_hour != h || x.tm_mday != d || x.tm_mon != m - 1 || x.tm_year != y - 1900 || x.tm_wday != (J(y, m, d) + 1) % 7) fail("to_system", "%lld: %d %d %d %d %d %d wday %d", (long long)n, x.tm_sec, x.tm_min, x.tm_hour, x.tm_mday, x.tm_mon, x.tm_year, x.tm_wday);
	if (S::to_date(t).time_since_epoch().count() != n / 86400000 || S::from_date(S::to_date(t)).time_since_epoch().count() != n / 86400000 * 86400000) fail("to_date", "%lld", (long long)n);
	int64_t s = S::to_time_t(t); if (s != n / 1000 - E0) fail("to_time_t", "%lld: %lld", (long long)n, (long long)s); if (S::from_time_t(s).time_since_epoch().count() != n / 1000 * 1000) fail("from_time_t", "%lld", (long long)s);
	struct timespec q = { s, (long)ms * 1000000 + (long)rnd(1000000) }; if (S::from_system(q).time_since_epoch().count() != n) fail("from_timespec", "sec %lld nsec %ld: %lld expected %lld", (long long)s, q.tv_nsec, (long long)S::from_system(q).time_since_epoch().count(), (long long)n);
	if (D::from_time_t(s).time_since_epoch().count() != n / 86400000 || D::from_system(q).time_since_epoch().count() != n / 86400000 || D::to_time_t(D::from_time_t(s)) != n / 86400000 * 86400 - E0) fail("date-time_t", "%lld", (long long)s); }
int main() { init();
	for (int64_t y : { 1ll, 4ll, 99ll, 100ll, 101ll, 399ll, 400ll, 401ll, 1582ll, 1600ll, 1700ll, 1900ll, 1969ll, 1970ll, 1972ll, 1999ll, 2000ll, 2001ll, 2024ll, 2100ll, 2400ll, 9999ll, 10000ll, 40000ll, 100000ll, 1000000ll, 1468999ll, 1469000ll }) for (int m = 1; m <= 12; m++) for (int d = 1; d <= dim(y, m); d++) { date(y, m, d); stamp(y, m, d, 23, 59, 59, 999); stamp(y, m, d, 0, 0, 0, 0); }
	int64_t a = J(2024, 1, 1); if (a % 7) fail("monday", "reference");
	{ time_t t0 = time(0); int64_t n = S::to_time_t(S::now()), dn = D::to_time_t(D::now()); time_t t1 = time(0); if (n < t0 || n > t1 || dn > t1 || dn <= t0 - 86400) fail("now", "%lld", (long long)n); }
	for (int64_t y = 1; y < 2500 && more(0.4); y++) for (int m = 1; m <= 12; m++) { date(y, m, 1); date(y, m, dim(y, m)); }
	while (more()) { int64_t y = 1 + (chance(1, 2) ? rnd(4000) : rnd(1469000)); if (chance(1, 3)) y = y / 100 * 100 + rnd(3); if (y < 1) y = 1; int m = 1 + rnd(12), d = 1 + rnd(dim(y, m)); if (chance(1, 3)) d = chance(1, 2) ? 1 : dim(y, m); date(y, m, d); stamp(y, m, d, rnd(24), rnd(60), rnd(60), chance(1, 4) ? 999 : rnd(1000)); }
	return finish(); }
