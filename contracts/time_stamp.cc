// C09: time stamps.  Real TimeStamp against the contracts of the clock, localtime_r, strptime, mktime
// and snprintf.
#include "kv.h"
#include <errno.h>
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <ctime>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include "kanon/util/macro.h"
#include "kanon/util/time.h"
#include "kanon/util/operator_util.h"
#include "kv_printf.h"
static struct tm g_tm;
static time_t g_asked;
static struct timeval g_tv;
static bool g_parses;
static int g_parsed;
static char const *g_fmt, *g_rep;
static time_t g_mk;
static struct tm *kv_localtime_r(time_t const *t, struct tm *o) { g_asked = *t; *o = g_tm; return o; }
static struct tm *kv_localtime(time_t const *t) { g_asked = *t; return &g_tm; }
static int kv_gettimeofday(struct timeval *tv, void *) { *tv = g_tv; return 0; }
namespace kanon { static int kv_GetTimeOfDay(struct timeval *tv, void *) { *tv = g_tv; return 0; } }
static int kv_clock_gettime(clockid_t c, struct timespec *ts)
{
  kv_assert(c == CLOCK_REALTIME, "the time of day");
  ts->tv_sec = g_tv.tv_sec;
  uint32_t ns = kv_u32("ns");
  kv_assume(ns < 1000);
  ts->tv_nsec = g_tv.tv_usec * 1000 + ns;
  return 0;
}
static char *kv_strptime(char const *s, char const *f, struct tm *t)
{
  kv_assert(s[0] == g_rep[0] && s[1] == g_rep[1] && s[4] == 0 && f == g_fmt, "the text is parsed with the format");
  kv_assert(t->tm_year == 0 && t->tm_mon == 0 && t->tm_mday == 0 && t->tm_hour == 0 && t->tm_min == 0 && t->tm_sec == 0 && t->tm_isdst == 0, "fields that the text does not name are 0");
  if (!g_parses) { t->tm_hour = 7; return nullptr; }
  g_parsed++;
  *t = g_tm;
  return (char *)s + strlen(s);
}
static time_t kv_mktime(struct tm *t)
{
  kv_assert(g_parses, "only a parsed time is used");
  kv_assert(t->tm_year == g_tm.tm_year && t->tm_mon == g_tm.tm_mon && t->tm_mday == g_tm.tm_mday && t->tm_hour == g_tm.tm_hour && t->tm_min == g_tm.tm_min && t->tm_sec == g_tm.tm_sec, "the parsed time is used");
  return g_mk;
}
static time_t kv_time(time_t *t) { if (t) *t = g_tv.tv_sec; return g_tv.tv_sec; }
#define localtime_r(...) kv_localtime_r(__VA_ARGS__)
#define localtime(...) kv_localtime(__VA_ARGS__)
#define gettimeofday(...) kv_gettimeofday(__VA_ARGS__)
#define GetTimeOfDay(...) kv_GetTimeOfDay(__VA_ARGS__)
#define clock_gettime(...) kv_clock_gettime(__VA_ARGS__)
#define strptime(...) kv_strptime(__VA_ARGS__)
#define mktime(...) kv_mktime(__VA_ARGS__)
#define snprintf(...) kv_snprintf(__VA_ARGS__)
#include "kanon/util/time_stamp.h"
#include "kanon/util/time_stamp.cc"
using namespace kanon;
typedef TimeStamp TS;
static int64_t const LIM = 1ll << 61, M = 1000000;
static int64_t any(char const *n) { int64_t v = (int64_t)kv_u64(n); kv_assume((v >= -LIM) & (v <= LIM)); return v; }
static int64_t us(TS t) { return t.GetMicrosecondsSinceEpoch(); }

HARNESS(ts_get)
{
  int64_t v = any("v");
  TS t(v);
  kv_assert(t.GetMicrosecondsSinceEpoch() == v && t.GetMicroseconds() == v && t.microseconds() == v, "the microseconds are kept");
  kv_assert(t.GetMilliseconds() == v / 1000 && t.milliseconds() == v / 1000, "milliseconds");
  kv_assert(t.GetSeconds() == v / M && t.seconds() == v / M, "seconds");
  int64_t w = any("w");
  t.SetMicroseconds(w);
  kv_assert(us(t) == w, "the microseconds are set");
  TS s(t);
  kv_assert(us(s) == w, "a copy");
}
HARNESS(ts_compare)
{
  int64_t a = (int64_t)kv_u64("a"), b = (int64_t)kv_u64("b");
  TS x(a), y(b);
  kv_assert((x == y) == (a == b), "==");
  kv_assert((x != y) == (a != b), "!=");
  kv_assert((x < y) == (a < b), "<");
  kv_assert((x > y) == (a > b), ">");
  kv_assert((x <= y) == (a <= b), "<=");
  kv_assert((x >= y) == (a >= b), ">=");
}
HARNESS(ts_plain)
{
  int64_t a = any("a"), b = any("b");
  TS x(a), y(b), z(a);
  kv_assert(us(x + y) == a + b, "+");
  kv_assert(us(x - y) == a - b, "-");
  z += y;
  kv_assert(us(z) == a + b, "+=");
  z -= y;
  kv_assert(us(z) == a, "-=");
  kv_assert(us(-z) == -a, "unary -");
  kv_assert(us(x) == a && us(y) == b, "the operands stay");
  uint64_t u = kv_u64("u");
  kv_assume(u <= (uint64_t)LIM);
  kv_assert(us(AddTimeUs(x, u)) == a + (int64_t)u, "AddTimeUs");
  kv_assume(u <= (uint64_t)LIM / 1000);
  kv_assert(us(AddTimeMs(x, u)) == a + (int64_t)u * 1000, "AddTimeMs");
}
HARNESS(ts_units)
{
  int64_t a = any("a");
  int c = (int)kv_u32("c");
  TS x(a);
  int64_t k = c;
  kv_assert(us(x + TS::Microsecond(c)) == a + k && us(TS::Microsecond(c) + x) == a + k, "time + microseconds");
  kv_assert(us(x + TS::MilliSecond(c)) == a + k * 1000 && us(TS::MilliSecond(c) + x) == a + k * 1000, "time + milliseconds");
  kv_assert(us(x + TS::Second(c)) == a + k * M && us(TS::Second(c) + x) == a + k * M, "time + seconds");
  kv_assert(us(x - TS::Microsecond(c)) == a - k, "time - microseconds");
  kv_assert(us(x - TS::MilliSecond(c)) == a - k * 1000, "time - milliseconds");
  kv_assert(us(x - TS::Second(c)) == a - k * M, "time - seconds");
  kv_assert(us(TS::Microsecond(c) - x) == k - a, "microseconds - time");
  kv_assert(us(TS::MilliSecond(c) - x) == k * 1000 - a, "milliseconds - time");
  kv_assert(us(TS::Second(c) - x) == k * M - a, "seconds - time");
  kv_assert(us(x) == a, "the operand stays");
}
static double real(char const *n)
{
  uint64_t b = kv_u64(n);
  double d;
  memcpy(&d, &b, 8);
  kv_assume((d >= -1e12) & (d <= 1e12));
  return d;
}
// r is what is left when the part of d microseconds beyond the microsecond is dropped (or rounded)
static bool is(int64_t r, double d) { int64_t t = (int64_t)d; return (r == t) | ((r == t + 1) & ((double)(t + 1) - d <= 0.5)) | ((r == t - 1) & (d - (double)(t - 1) <= 0.5)); }
HARNESS(ts_double)
{
  int64_t a = any("a");
  double s = real("s");
  TS x(a);
  double d = s * 1e6;
  kv_assert(is(us(x + s) - a, d) && is(us(s + x) - a, d), "time + seconds");
  kv_assert(is(us(AddTime(x, s)) - a, d), "AddTime");
  kv_assert(is(a - us(x - s), d), "time - seconds");
  kv_assert(is(a + us(s - x), d), "seconds - time");
}
HARNESS(ts_difference)
{
  int64_t a = any("a"), b = any("b");
  kv_assert(TimeDifference(TS(a), TS(b)) == (double)(a - b) / 1e6, "the difference in seconds");
}
HARNESS(ts_make)
{
  int64_t s = (int64_t)kv_u64("s"), u = any("u");
  kv_assume((s >= -1000000000000ll) & (s <= 1000000000000ll));
  kv_assert(us(TS::FromUnixTime(s)) == s * M, "seconds since the epoch");
  kv_assert(us(TS::FromUnixTime(s, u)) == s * M + u, "seconds and microseconds since the epoch");
  g_tv.tv_sec = s;
  uint32_t f = kv_u32("f");
  kv_assume(f < 1000000);
  g_tv.tv_usec = f;
  kv_assert(us(TS::Now()) == s * M + f, "the time of day in microseconds");
}
HARNESS(ts_string)
{
  kv_unroll(64);
  int64_t v = (int64_t)kv_u64("v");
  kv_assume((v > -100000000000000000ll) & (v < 100000000000000000ll));
  std::string s = TS(v).ToString();
  uint64_t m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
  KvWant o(s.data(), s.size());
  if (v < 0) o.ch('-');
  o.number(m / M);
  o.ch('.');
  o.fixed(m % M, 6);
  o.end("seconds, a dot and six digits of microseconds");
  if (v < 0) kv_cover("negative"); else kv_cover("positive");
}
static int below(char const *n, uint32_t k) { uint32_t v = kv_u32(n); kv_assume(v < k); return (int)v; }
HARNESS(ts_formatted)
{
  kv_unroll(64);
  int64_t v = any("v");
  g_tm.tm_year = below("year", 8100);
  g_tm.tm_mon = below("mon", 12);
  g_tm.tm_mday = below("mday", 31) + 1;
  g_tm.tm_hour = below("hour", 24);
  g_tm.tm_min = below("min", 60);
  g_tm.tm_sec = below("sec", 61);
  bool shown = kv_bool("shown");
  std::string s = TS(v).ToFormattedString(shown);
  int64_t fl = v / M, r = v % M;
  if (r < 0) { r += M; fl--; }
  kv_assert(g_asked == fl, "the second that the time is in");
  KvWant o(s.data(), s.size());
  o.fixed(g_tm.tm_year + 1900, 4);
  o.fixed(g_tm.tm_mon + 1, 2);
  o.fixed(g_tm.tm_mday, 2);
  o.ch(' ');
  o.fixed(g_tm.tm_hour, 2);
  o.ch(':');
  o.fixed(g_tm.tm_min, 2);
  o.ch(':');
  o.fixed(g_tm.tm_sec, 2);
  if (shown) { o.ch('.'); o.fixed(r, 6); }
  o.end("date, time and six digits of microseconds");
  if (shown) kv_cover("micro"); else kv_cover("seconds");
}
HARNESS(ts_parse)
{
  kv_unroll(64);
  g_parses = kv_bool("parses");
  g_fmt = "%Y";
  g_rep = "2000";
  g_tm.tm_year = below("year", 8100);
  g_tm.tm_mon = below("mon", 12);
  g_tm.tm_mday = below("mday", 31) + 1;
  g_tm.tm_hour = below("hour", 24);
  g_tm.tm_min = below("min", 60);
  g_tm.tm_sec = below("sec", 61);
  g_mk = (time_t)kv_u64("mk");
  kv_assume((g_mk >= -1000000000000ll) & (g_mk <= 1000000000000ll));
  bool ok = kv_bool("before"), with = kv_bool("with");
  TS t = with ? TS::FromTimeStr(g_fmt, "2000", &ok) : TS::FromTimeStr(g_fmt, "2000");
  kv_assert(us(t) == (g_parses ? g_mk * M : 0), "the time of the text, or 0 if it is no time");
  if (with) kv_assert(ok == g_parses, "whether the text is a time");
  if (g_parses) kv_cover("parsed"); else kv_cover("failed");
}
