#include "vt.hpp"
#include <time.h>
#include <memory>
#include <string>
#include <stdex/chrono.hpp>
using D = stdex::chrono::aosn_date; using S = stdex::chrono::aosn_timestamp;
static inline D::time_point d(int32_t n) { return D::time_point(D::duration(n)); }
static inline S::time_point s(int64_t n) { return S::time_point(S::duration(n)); }
extern "C" {
int32_t h_dfrom(uint8_t day, uint8_t month, int32_t year) { return D::from_dmy(day, month, year).time_since_epoch().count(); }
void h_dto(int32_t n, uint8_t *day, uint8_t *month, int32_t *year) { D::to_dmy(d(n), day, month, year); }
uint8_t h_dow(int32_t n) { return D::day_of_week(d(n)); }
uint8_t h_dow3(uint8_t day, uint8_t month, int32_t year) { return D::day_of_week(day, month, year); }
int64_t h_dtot(int32_t n) { return D::to_time_t(d(n)); }
int32_t h_dfromt(int64_t t) { return D::from_time_t(t).time_since_epoch().count(); }
int32_t h_dfromts(const struct timespec &t) { return D::from_system(t).time_since_epoch().count(); }
int64_t h_sfrom(uint8_t day, uint8_t month, int32_t year, uint8_t h, uint8_t m, uint8_t s, uint16_t ms) { return S::from_dmy(day, month, year, h, m, s, ms).time_since_epoch().count(); }
void h_sto(int64_t n, uint8_t *day, uint8_t *month, int32_t *year, uint8_t *h, uint8_t *m, uint8_t *se, uint16_t *ms) { S::to_dmy(s(n), day, month, year, h, m, se, ms); }
int64_t h_stot(int64_t n) { return S::to_time_t(s(n)); }
int64_t h_sfromt(int64_t t) { return S::from_time_t(t).time_since_epoch().count(); }
int64_t h_sfromts(const struct timespec &t) { return S::from_system(t).time_since_epoch().count(); }
void h_stosys(int64_t n, struct tm &t) { S::to_system(s(n), t); }
int32_t h_stodate(int64_t n) { return S::to_date(s(n)).time_since_epoch().count(); }
int64_t h_sfromdate(int32_t n) { return S::from_date(d(n)).time_since_epoch().count(); }
int64_t h_now() { return S::now().time_since_epoch().count(); }
int32_t h_dnow() { return D::now().time_since_epoch().count(); }
}
FIELD(sec, struct tm, tm_sec) FIELD(min, struct tm, tm_min) FIELD(hour, struct tm, tm_hour) FIELD(mday, struct tm, tm_mday) FIELD(mon, struct tm, tm_mon) FIELD(year, struct tm, tm_year) FIELD(wday, struct tm, tm_wday) FIELD(ts_sec, struct timespec, tv_sec) FIELD(ts_nsec, struct timespec, tv_nsec)
