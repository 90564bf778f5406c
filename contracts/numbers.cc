// C08: texts to numbers and back.  Real StringViewToXX (string_view_util.cc/.h) and lexical_cast against the contract
// of the strtol family: a text starts with a number (sign, magnitude) of `used` characters, or it doesn't (used = 0).
#include "kv.h"
#include <errno.h>
#include <limits>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <stdexcept>
#include <string>
#include <utility>
static char const *g_text;
static uint64_t g_n, g_used, g_mag, g_calls;
static bool g_neg, g_big;      // g_big: the magnitude is beyond 64 bits
static int g_base;
static char const *g_buf;
static bool p_same(void *, uint64_t j) { return g_buf[j] == g_text[j]; }
static uint64_t parse(char const *b, char **end, int base)
{
  g_buf = b;
  g_calls++;
  kv_valid(b, g_n + 1);
  kv_check_forall(p_same, nullptr, 0, g_n, "the text itself is parsed");
  kv_assert(b[g_n] == 0, "the text to parse is terminated");
  kv_assert(base == g_base, "the base is used");
  if (end) *end = (char *)b + g_used;
  return g_mag;
}
static unsigned long long kv_strtoull(char const *b, char **end, int base)
{
  uint64_t m = parse(b, end, base);
  if (g_used == 0) { if (kv_bool("einval")) errno = EINVAL; return 0; }
  if (g_big) { errno = ERANGE; return ~0ull; }
  return g_neg ? -m : m;
}
static long long kv_strtoll(char const *b, char **end, int base)
{
  uint64_t m = parse(b, end, base);
  if (g_used == 0) { if (kv_bool("einval")) errno = EINVAL; return 0; }
  if (g_neg) {
    if (g_big || m > (1ull << 63)) { errno = ERANGE; return (long long)(1ull << 63); }
    return (long long)-m;
  }
  if (g_big || m > ~0ull >> 1) { errno = ERANGE; return (long long)(~0ull >> 1); }
  return (long long)m;
}
static unsigned long kv_strtoul(char const *b, char **e, int base) { return kv_strtoull(b, e, base); }
static long kv_strtol(char const *b, char **e, int base) { return kv_strtoll(b, e, base); }
static intmax_t kv_strtoimax(char const *b, char **e, int base) { return kv_strtoll(b, e, base); }
static uintmax_t kv_strtoumax(char const *b, char **e, int base) { return kv_strtoull(b, e, base); }
namespace std { using ::kv_strtoull; using ::kv_strtoll; using ::kv_strtoul; using ::kv_strtol; using ::kv_strtoimax; using ::kv_strtoumax; }
static char g_ftext[20];
static int g_fn;
static double g_d;
static bool same_bits(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static int kv_snprintf(char *b, size_t n, char const *, double d)
{
  kv_assert(same_bits(d, g_d), "the number is written");
  kv_assert(n > 19, "room for the longest number");
  kv_valid(b, n);
  for (int i = 0; i < g_fn; i++) b[i] = g_ftext[i];
  b[g_fn] = 0;
  return g_fn;
}
template <class T> int kv_snprintf(char *, size_t, char const *, T) { return 0; }
#define snprintf(...) kv_snprintf(__VA_ARGS__)
#define strtoull kv_strtoull
#define strtoll kv_strtoll
#define strtoul kv_strtoul
#define strtol kv_strtol
#define strtoimax kv_strtoimax
#define strtoumax kv_strtoumax
#include "kanon/string/fixed_buffer.cc"
#include "kanon/string/string_view_util.cc"
#include "kanon/string/lexical_cast.cc"
#undef strtol
using namespace kanon;

static void text(uint64_t most)
{
  g_n = kv_size("n");
  kv_assume(g_n <= most);
  g_text = (char *)kv_bytes("text", g_n);
  g_used = kv_fit(kv_u64("used"), g_n);
  kv_assume(g_used <= g_n);
  g_mag = kv_u64("mag");
  g_neg = kv_bool("neg");
  g_big = kv_bool("big");
  g_calls = 0;
  errno = (int)(kv_u32("errno") & 127);
}
// v: the result; whole: the text must be nothing but the number
template <class T> static void check(optional<T> const &v, bool whole)
{
  kv_assert(g_calls == 1, "the text is parsed");
  bool some = g_used > 0 && (!whole || g_used == g_n);
  T max = std::numeric_limits<T>::max(), min = std::numeric_limits<T>::min();
  if (!some) {
    kv_assert(!v.has_value(), "no value for a text that is not a number");
    kv_cover("none");
    return;
  }
  if (min == 0 && g_neg && g_mag != 0) {
    kv_assert(!v.has_value() || (!g_big && (uint64_t)v.value() == -g_mag), "a negative number is not a small unsigned one");
    return;
  }
  bool fits = !g_big && (g_neg ? g_mag <= -(uint64_t)(int64_t)min : g_mag <= (uint64_t)max);
  if (fits) {
    kv_assert(v.has_value(), "a value for every number that the type represents");
    kv_assert((uint64_t)(int64_t)v.value() == (g_neg ? -g_mag : g_mag), "the value is the number");
    kv_cover("value");
  } else {
    kv_assert(!v.has_value(), "no value for a number out of range");
    kv_cover("range");
  }
}
static void base()
{
  g_base = (int)kv_u32("base");
  kv_assume((g_base == 0) | ((g_base > 1) & (g_base <= 36)));
}
HARNESS(view_u64) { text(71); base(); check(StringViewToU64(StringView(g_text, g_n), g_base), false); }
HARNESS(view_64) { text(71); base(); check(StringViewTo64(StringView(g_text, g_n), g_base), false); }
HARNESS(view_u32) { text(71); base(); check(StringViewToU32(StringView(g_text, g_n), g_base), false); }
HARNESS(view_32) { text(71); base(); check(StringViewTo32(StringView(g_text, g_n), g_base), false); }
HARNESS(view_u16) { text(71); base(); check(StringViewToU16(StringView(g_text, g_n), g_base), false); }
HARNESS(view_16) { text(71); base(); check(StringViewTo16(StringView(g_text, g_n), g_base), false); }
HARNESS(view_u8) { text(71); base(); check(StringViewToU8(StringView(g_text, g_n), g_base), false); }
HARNESS(view_8) { text(71); base(); check(StringViewTo8(StringView(g_text, g_n), g_base), false); }
HARNESS(view_base10)
{
  text(71);
  g_base = 10;
  StringView v(g_text, g_n);
  uint32_t op = kv_u32("op");
  kv_assume(op < 8);
  switch (op) {
  case 0: check(StringViewToU64(v), false); break;
  case 1: check(StringViewTo64(v), false); break;
  case 2: check(StringViewToU32(v), false); break;
  case 3: check(StringViewTo32(v), false); break;
  case 4: check(StringViewToU16(v), false); break;
  case 5: check(StringViewTo16(v), false); break;
  case 6: check(StringViewToU8(v), false); break;
  default: check(StringViewTo8(v), false);
  }
}
// texts of any length: nothing is overrun; a longer text has a value only if it is the number
HARNESS(view_long)
{
  text(1ull << 40);
  base();
  StringView v(g_text, g_n);
  uint32_t op = kv_u32("op");
  kv_assume(op < 4);
  kv_assume(g_n > 71);
  if (op == 0) { auto r = StringViewToU64(v, g_base); if (r.has_value()) check(r, false); }
  else if (op == 1) { auto r = StringViewTo64(v, g_base); if (r.has_value()) check(r, false); }
  else if (op == 2) { auto r = StringViewToU32(v, g_base); if (r.has_value()) check(r, false); }
  else { auto r = StringViewTo32(v, g_base); if (r.has_value()) check(r, false); }
}
template <class T> static void cast()
{
  text(63);
  g_base = 10;
  if (kv_bool("string")) { std::string s(g_text, g_n); check(lexical_cast<T>(s), true); kv_cover("string"); }
  else check(lexical_cast<T>(StringView(g_text, g_n)), true);
}
HARNESS(cast_i8) { cast<i8>(); }
HARNESS(cast_u8) { cast<u8>(); }
HARNESS(cast_i16) { cast<i16>(); }
HARNESS(cast_u16) { cast<u16>(); }
HARNESS(cast_int) { cast<int>(); }
HARNESS(cast_unsigned) { cast<unsigned>(); }
HARNESS(cast_long) { cast<long>(); }
HARNESS(cast_ulong) { cast<unsigned long>(); }
HARNESS(cast_llong) { cast<long long>(); }
HARNESS(cast_ullong) { cast<unsigned long long>(); }
HARNESS(cast_long_text)
{
  text(1ull << 40);
  g_base = 10;
  StringView v(g_text, g_n);
  kv_assume(g_n > 63);
  uint32_t op = kv_u32("op");
  kv_assume(op < 3);
  if (op == 0) { auto r = lexical_cast<int>(v); if (r.has_value()) check(r, true); }
  else if (op == 1) { auto r = lexical_cast<unsigned long>(v); if (r.has_value()) check(r, true); }
  else { auto r = lexical_cast<long long>(v); if (r.has_value()) check(r, true); }
}
// ---- and back
template <class T> static void check_digits(char const *b, uint64_t n, T v)
{
  bool neg = v < 0, r = true;
  uint64_t at = n;
  kv_assert(n > 0 && n < 22, "the text is the decimal number");
  T q = v;
  do {
    kv_assert(at > 0, "the text is the decimal number");
    T d = q % 10;
    kv_assert(b[--at] == (char)('0' + (d < 0 ? -d : d)), "the text is the decimal number");
    q /= 10;
  } while (q != 0);
  if (neg) { kv_assert(at > 0, "the text is the decimal number"); r &= b[--at] == '-'; }
  kv_assert(r & (at == 0), "the text is the decimal number");
}
static void before()
{
  // whatever was converted before
  static_assert(sizeof _cast_stream == sizeof(kanon::detail::FixedBuffer<64>) || sizeof _cast_stream > 68, "only a buffer");
  unsigned sz = _cast_stream.maxsize(), len = kv_u32("before");
  kv_assume(len < sz);
  memcpy((void *)&_cast_stream, kv_bytes("old", sz), sz);
  memcpy((char *)&_cast_stream + sz, &len, 4);
}
template <class T> static void back(int op)
{
  kv_unroll(32);
  before();
  T v = (T)kv_u64("v");
  if (op == 0) { std::string s = lexical_cast<std::string>(v); check_digits(s.data(), s.size(), v); }
  else if (op == 1) { StringView s = lexical_cast<StringView>(v); check_digits(s.data(), s.size(), v); }
  else { char const *s = lexical_cast<char const *>(v); check_digits(s, strlen(s), v); }
}
HARNESS(back_int_0) { back<int>(0); }
HARNESS(back_int_1) { back<int>(1); }
HARNESS(back_int_2) { back<int>(2); }
HARNESS(back_uint_0) { back<unsigned>(0); }
HARNESS(back_short_0) { back<short>(0); }
HARNESS(back_other)
{
  kv_unroll(32);
  before();
  std::string s = lexical_cast<std::string>(true);
  kv_assert(s == "True", "a bool");
  char c = (char)kv_u8("c");
  std::string t = lexical_cast<std::string>(c);
  kv_assert(t.size() == 1 && t[0] == c, "a character");
  g_fn = (int)kv_u32("fn");
  kv_assume((g_fn > 0) & (g_fn < 20));
  for (int i = 0; i < 20; i++) g_ftext[i] = (char)kv_u8("digit");
  uint64_t bits = kv_u64("d");
  memcpy(&g_d, &bits, 8);
  std::string u = lexical_cast<std::string>(g_d);
  kv_assert(u.size() == (uint64_t)g_fn, "a floating-point number");
  for (int i = 0; i < g_fn; i++) kv_assert(u[i] == g_ftext[i], "a floating-point number");
}
