/* Calendar arithmetic behind certificate validity, CRL dates, sessions and DTLS timers. */
/*@defaults
src: bsl/sal/src/sal_time.c bsl/sal/src/posix/posix_time.c
unwind: 14
level: proof
assume: gmtime_r (libc) is arbitrary
*/
#include "vp.h"
#include <time.h>
#include "bsl_sal.h"
#include "bsl_errno.h"
#include "sal_time.h"

static struct { int64_t gm; uint32_t n; struct tm tm; bool fail; } G;
struct tm *gmtime_r(const time_t *t, struct tm *out)
{
    G.gm = (int64_t)*t;
    G.n++;
    if (vp_bool()) { G.fail = true; return NULL; }
    struct { int y, mo, d, h, mi, s; } v;
    VP_DRAW(v);
    VP_ASSUME(v.mo >= 0 && v.mo < 12 && v.d >= 1 && v.d <= 31 && v.h >= 0 && v.h < 24 && v.mi >= 0 && v.mi < 60 && v.s >= 0 && v.s < 60);
    G.tm.tm_year = v.y; G.tm.tm_mon = v.mo; G.tm.tm_mday = v.d; G.tm.tm_hour = v.h; G.tm.tm_min = v.mi; G.tm.tm_sec = v.s;
    out->tm_year = v.y; out->tm_mon = v.mo; out->tm_mday = v.d; out->tm_hour = v.h; out->tm_min = v.mi; out->tm_sec = v.s;
    return out;
}

static bool leap(uint32_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static uint32_t mdays(uint32_t y, uint32_t m)
{
    return m == 2 ? (leap(y) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}
static bool valid(const BSL_TIME *t)
{
    return t->year >= 1970 && t->month >= 1 && t->month <= 12 && t->day >= 1 && t->day <= mdays(t->year, t->month) &&
        t->hour < 24 && t->minute < 60 && t->second < 60 && t->millSec < 1000 && t->microSec < 1000;
}
/* seconds since 1970-01-01 of the proleptic Gregorian date (closed form; leap days before year y: (y-1)/4-(y-1)/100+(y-1)/400) */
static int64_t utc(const BSL_TIME *t)
{
    static const uint16_t cum[12] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
    uint32_t p = (uint32_t)t->year - 1;
    int64_t d = 365 * ((int64_t)t->year - 1970) + (int64_t)(p / 4 - p / 100 + p / 400) - 477;
    d += cum[(t->month - 1) % 12] + (t->month > 2 && leap(t->year) ? 1 : 0) + t->day - 1;
    return d * 86400 + t->hour * 3600 + t->minute * 60 + t->second;
}
static void draw_time(BSL_TIME *t)
{
    VP_DRAW(t->year); VP_DRAW(t->month); VP_DRAW(t->day); VP_DRAW(t->hour); VP_DRAW(t->minute);
    VP_DRAW(t->second); VP_DRAW(t->millSec); VP_DRAW(t->microSec);
}

/*@unit
name: BSL_DateTimeCheck
entry: h_check
enforce: BSL_DateTimeCheck
*/
#define K_BSL_DateTimeCheck(REQ, ENS) \
    ENS("accepts exactly the existing calendar dates from 1970 on", VP_RET == valid(dateTime))
bool BSL_DateTimeCheck(const BSL_TIME *dateTime) VP_CONTRACT(K_BSL_DateTimeCheck);
void h_check(void)
{
    BSL_TIME t, *dateTime = &t;
    draw_time(dateTime);
    bool r;
    VP_CALL(K_BSL_DateTimeCheck, r, BSL_DateTimeCheck(dateTime));
    VP_REACH(r && t.month == 2 && t.day == 29, "leap day");
    VP_REACH(!r && t.month == 2 && t.day == 29 && t.year == 2100 , "2100 is no leap year");
}

/*@unit
name: to_utc_1970
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 1970, every month, day, time of day
unwindset: BslMkTime64Get.0:3
def: YEAR=1970
*/
/*@unit
name: to_utc_1972
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 1972, every month, day, time of day
unwindset: BslMkTime64Get.0:5
def: YEAR=1972
*/
/*@unit
name: to_utc_1999
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 1999, every month, day, time of day
unwindset: BslMkTime64Get.0:32
def: YEAR=1999
*/
/*@unit
name: to_utc_2000
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 2000, every month, day, time of day
unwindset: BslMkTime64Get.0:33
def: YEAR=2000
*/
/*@unit
name: to_utc_2024
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 2024, every month, day, time of day
unwindset: BslMkTime64Get.0:57
def: YEAR=2024
*/
/*@unit
name: to_utc_2025
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 2025, every month, day, time of day
unwindset: BslMkTime64Get.0:58
def: YEAR=2025
*/
/*@unit
name: to_utc_2049
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 2049, every month, day, time of day
unwindset: BslMkTime64Get.0:82
def: YEAR=2049
*/
/*@unit
name: to_utc_2099
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 2099, every month, day, time of day
unwindset: BslMkTime64Get.0:132
def: YEAR=2099
*/
/*@unit
name: to_utc_2100
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 2100, every month, day, time of day
unwindset: BslMkTime64Get.0:133
def: YEAR=2100
*/
/*@unit
name: to_utc_2400
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 2400, every month, day, time of day
unwindset: BslMkTime64Get.0:433
def: YEAR=2400
*/
/*@unit
name: to_utc_9999
entry: h_toutc
enforce: BSL_SAL_DateToUtcTimeConvert
level: bounded
bound: year 9999, every month, day, time of day
unwindset: BslMkTime64Get.0:8032
def: YEAR=9999
*/
#ifndef YEAR
#define YEAR 2024
#endif
#ifndef YEARB
#define YEARB YEAR
#endif
#define K_BSL_SAL_DateToUtcTimeConvert(REQ, ENS) \
    ENS("converts exactly the valid dates", (VP_RET == BSL_SUCCESS) == (dateTime != NULL && utcTime != NULL && valid(dateTime))) \
    ENS("the result is the number of seconds since 1970-01-01 00:00:00 UTC", VP_IMP(VP_RET == BSL_SUCCESS, *utcTime == utc(dateTime)))
int32_t BSL_SAL_DateToUtcTimeConvert(const BSL_TIME *dateTime, int64_t *utcTime) VP_CONTRACT(K_BSL_SAL_DateToUtcTimeConvert, *utcTime);
void h_toutc(void)
{
    BSL_TIME t, *dateTime = &t;
    draw_time(dateTime);
    t.year = YEAR;
    int64_t u = 0, *utcTime = &u;
    int32_t r;
    VP_CALL(K_BSL_SAL_DateToUtcTimeConvert, r, BSL_SAL_DateToUtcTimeConvert(dateTime, utcTime));
    VP_REACH(r == BSL_SUCCESS && t.month == 12, "december");
    VP_REACH(r != BSL_SUCCESS, "invalid date");
}

/*@unit
name: compare_2024_2024
entry: h_cmp
enforce: BSL_SAL_DateTimeCompareByUs
level: bounded
bound: years 2024 and 2024, every month, day, time of day
unwindset: BslMkTime64Get.0:57
def: YEAR=2024 YEARB=2024
*/
/*@unit
name: compare_1999_2000
entry: h_cmp
enforce: BSL_SAL_DateTimeCompareByUs
level: bounded
bound: years 1999 and 2000, every month, day, time of day
unwindset: BslMkTime64Get.0:33
def: YEAR=1999 YEARB=2000
*/
/*@unit
name: compare_2100_2025
entry: h_cmp
enforce: BSL_SAL_DateTimeCompareByUs
level: bounded
bound: years 2100 and 2025, every month, day, time of day
unwindset: BslMkTime64Get.0:133
def: YEAR=2100 YEARB=2025
*/
static int sgn_lex(const BSL_TIME *a, const BSL_TIME *b)
{
    if (a->year != b->year) return a->year < b->year ? -1 : 1;
    if (a->month != b->month) return a->month < b->month ? -1 : 1;
    if (a->day != b->day) return a->day < b->day ? -1 : 1;
    if (a->hour != b->hour) return a->hour < b->hour ? -1 : 1;
    if (a->minute != b->minute) return a->minute < b->minute ? -1 : 1;
    if (a->second != b->second) return a->second < b->second ? -1 : 1;
    if (a->millSec != b->millSec) return a->millSec < b->millSec ? -1 : 1;
    if (a->microSec != b->microSec) return a->microSec < b->microSec ? -1 : 1;
    return 0;
}
#define K_BSL_SAL_DateTimeCompareByUs(REQ, ENS) \
    ENS("invalid dates never compare", VP_IMP(!valid(dateA) || !valid(dateB), VP_RET == BSL_TIME_CMP_ERROR)) \
    ENS("before exactly when earlier", VP_IMP(valid(dateA) && valid(dateB), (VP_RET == BSL_TIME_DATE_BEFORE) == (sgn_lex(dateA, dateB) < 0))) \
    ENS("after exactly when later", VP_IMP(valid(dateA) && valid(dateB), (VP_RET == BSL_TIME_DATE_AFTER) == (sgn_lex(dateA, dateB) > 0))) \
    ENS("equal exactly when equal", VP_IMP(valid(dateA) && valid(dateB), (VP_RET == BSL_TIME_CMP_EQUAL) == (sgn_lex(dateA, dateB) == 0)))
int32_t BSL_SAL_DateTimeCompareByUs(const BSL_TIME *dateA, const BSL_TIME *dateB) VP_CONTRACT(K_BSL_SAL_DateTimeCompareByUs);
void h_cmp(void)
{
    BSL_TIME a, b, *dateA = &a, *dateB = &b;
    draw_time(dateA);
    draw_time(dateB);
    a.year = YEAR;
    b.year = YEARB;
    int32_t r;
    VP_CALL(K_BSL_SAL_DateTimeCompareByUs, r, BSL_SAL_DateTimeCompareByUs(dateA, dateB));
#if YEAR <= YEARB
    VP_REACH(r == BSL_TIME_DATE_BEFORE && a.day > b.day, "before");
#else
    VP_REACH(r == BSL_TIME_DATE_AFTER && a.microSec < b.microSec, "after");
#endif
}

/*@unit
name: BSL_SAL_UtcTimeToDateConvert
entry: h_todate
enforce: BSL_SAL_UtcTimeToDateConvert
*/
static bool date_is_tm(const BSL_TIME *t)
{
    return t->year == G.tm.tm_year + 1900 && t->month == G.tm.tm_mon + 1 && t->day == G.tm.tm_mday && t->hour == G.tm.tm_hour &&
        t->minute == G.tm.tm_min && t->second == G.tm.tm_sec;
}
#define TM_OK (!G.fail && G.tm.tm_year >= -1900 && G.tm.tm_year <= 65535 - 1900)
#define K_BSL_SAL_UtcTimeToDateConvert(REQ, ENS) \
    ENS("times past the year 65535 are refused", VP_IMP(utcTime > 2005949145599LL, VP_RET != BSL_SUCCESS)) \
    ENS("the date is the calendar's for exactly this second", VP_IMP(VP_RET == BSL_SUCCESS, G.n == 1 && G.gm == utcTime && date_is_tm(sysTime) && \
        sysTime->millSec == 0 && sysTime->microSec == 0)) \
    ENS("fails only when the calendar has no such date", VP_IMP(utcTime <= 2005949145599LL, (VP_RET == BSL_SUCCESS) == TM_OK))
int32_t BSL_SAL_UtcTimeToDateConvert(int64_t utcTime, BSL_TIME *sysTime)
    VP_CONTRACT(K_BSL_SAL_UtcTimeToDateConvert, *sysTime, G);
static void reset(void)
{
    memset(&G, 0, sizeof(G));
    for (int t = BSL_SAL_TIME_GET_UTC_TIME_CB_FUNC; t <= BSL_SAL_TIME_GET_TIME_IN_NS; t++) (void)SAL_TimeCallBack_Ctrl(t, NULL);
}
void h_todate(void)
{
    reset();
    int64_t utcTime = vp_i64();
    BSL_TIME t, *sysTime = &t;
    int32_t r;
    VP_CALL(K_BSL_SAL_UtcTimeToDateConvert, r, BSL_SAL_UtcTimeToDateConvert(utcTime, sysTime));
    VP_REACH(r == BSL_SUCCESS && t.year == 2026, "converted");
}

/*@unit
name: BSL_DateTimeAddUs
entry: h_addus
enforce: BSL_DateTimeAddUs
level: bounded
bound: 2024-02-28 23:59, every second and sub-second; additions around 0, 1 ms, 1 s, 60 s and 2^32 microseconds (64 each)
unwindset: BslMkTime64Get.0:60
*/
/* sub-second position of the date plus the added microseconds, in microseconds (at most 2^32 + 10^6) */
static BSL_TIME g_a;
static uint64_t sub(uint32_t us) { return (uint64_t)us + g_a.millSec * 1000u + g_a.microSec; }
#define K_BSL_DateTimeAddUs(REQ, ENS) \
    ENS("invalid dates are refused", VP_IMP(!valid(&g_a), VP_RET != BSL_SUCCESS)) \
    ENS("the result is exactly that many microseconds later", VP_IMP(VP_RET == BSL_SUCCESS, G.n == 1 && date_is_tm(dateR) && \
        dateR->millSec < 1000 && dateR->microSec < 1000 && \
        G.gm >= utc(&g_a) && G.gm - utc(&g_a) < 5000 && \
        (uint64_t)(G.gm - utc(&g_a)) * 1000000u + dateR->millSec * 1000u + dateR->microSec == sub(us)))
int32_t BSL_DateTimeAddUs(BSL_TIME *dateR, const BSL_TIME *dateA, uint32_t us) VP_CONTRACT(K_BSL_DateTimeAddUs, *dateR, G);
void h_addus(void)
{
    reset();
    BSL_TIME a, b, *dateA = &a, *dateR = vp_bool() ? &a : &b;
    draw_time(dateA);
    a.year = 2024; a.month = 2; a.day = 28; a.hour = 23; a.minute = 59;
    g_a = a;
    static const uint32_t base[5] = { 0, 960, 999960, 59999960, 0xFFFFFFC0u };
    uint32_t us = base[vp_range(0, 4)] + vp_range(0, 63);
    int32_t r;
    VP_CALL(K_BSL_DateTimeAddUs, r, BSL_DateTimeAddUs(dateR, dateA, us));
    VP_REACH(r == BSL_SUCCESS && us > 4000000, "added");
}

/*@unit
name: BSL_DateTimeAddDaySecond
entry: h_addday
enforce: BSL_DateTimeAddDaySecond
level: bounded
bound: year 2024, every date and time of day, every offset
unwindset: BslMkTime64Get.0:60
*/
#define K_BSL_DateTimeAddDaySecond(REQ, ENS) \
    ENS("invalid dates are refused", VP_IMP(!valid(&g_a), VP_RET != BSL_SUCCESS)) \
    ENS("the result is exactly that many days and seconds later", VP_IMP(VP_RET == BSL_SUCCESS, G.n == 1 && date_is_tm(dateR) && \
        dateR->millSec == g_a.millSec && dateR->microSec == g_a.microSec && \
        (__int128)G.gm == (__int128)utc(&g_a) + (__int128)offsetDay * 86400 + offsetSecond))
int32_t BSL_DateTimeAddDaySecond(BSL_TIME *dateR, const BSL_TIME *dateA, int32_t offsetDay, int64_t offsetSecond)
    VP_CONTRACT(K_BSL_DateTimeAddDaySecond, *dateR, G);
void h_addday(void)
{
    reset();
    BSL_TIME a, b, *dateA = &a, *dateR = vp_bool() ? &a : &b;
    draw_time(dateA);
    a.year = 2024;
    g_a = a;
    int32_t offsetDay = vp_i32();
    int64_t offsetSecond = vp_i64();
    int32_t r;
    VP_CALL(K_BSL_DateTimeAddDaySecond, r, BSL_DateTimeAddDaySecond(dateR, dateA, offsetDay, offsetSecond));
    VP_REACH(r == BSL_SUCCESS && offsetDay < 0, "earlier");
}
