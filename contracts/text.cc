// C07: bounded text buffers and formatting.  Real FixedBuffer, LexicalStream, FmtStream, int2Str,
// ptrToHexStr against the contract of snprintf (for floating-point numbers).
#include "kv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <stdexcept>
#include <string>
#include <utility>
static char g_ftext[20];
static int g_fn;
static double g_d;
static bool same_bits(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static int kv_snprintf(char *b, size_t n, char const *f, double d)
{
  kv_assert(f[0] == '%' && f[1] == '.' && f[2] == '1' && f[3] == '2' && f[4] == 'g' && f[5] == 0, "a floating-point number is written with 12 digits");
  kv_assert(same_bits(d, g_d), "the number is written");
  kv_assert(n > 19, "room for the longest number");
  kv_valid(b, n);
  for (int i = 0; i < g_fn; i++) b[i] = g_ftext[i];
  b[g_fn] = 0;
  return g_fn;
}
template <class T> int kv_snprintf(char *, size_t, char const *, T) { return 0; }
#define snprintf(...) kv_snprintf(__VA_ARGS__)
#include "kanon/string/lexical_stream.h"
#include "kanon/string/fixed_buffer.cc"
using namespace kanon;

// ---- the decimal digits of a number
template <class T> static unsigned check_digits(char const *b, unsigned n, T v, char const *msg)
{
  bool neg = v < 0, r = true;
  unsigned at = n;
  kv_assert(n > 0 && n < 22, "a number has 1 to 21 characters");
  T q = v;
  do {
    kv_assert(at > 0, msg);
    T d = q % 10;
    kv_assert(b[--at] == (char)('0' + (d < 0 ? -d : d)), msg);
    q /= 10;
  } while (q != 0);
  if (neg) { kv_assert(at > 0, msg); r &= b[--at] == '-'; }
  kv_assert(r & (at == 0), msg);
  return n;
}
template <class T> static T number()
{
  T v = (T)kv_u64("v");
  return v;
}
template <class T> static void int2str(int sign = 0)
{
  kv_unroll(32);
  T v = number<T>();
  if (sign) kv_assume(sign < 0 ? v < 0 : v >= 0);
  char b[24];
  unsigned n = kanon::detail::int2Str(b, v);
  kv_assert(n < sizeof b && b[n] == 0, "the text is terminated");
  check_digits(b, n, v, "the decimal digits of the number, with a sign if it is negative");
  kv_cover("done");
}
HARNESS(i2s_short) { int2str<short>(); }
HARNESS(i2s_ushort) { int2str<unsigned short>(); }
HARNESS(i2s_uchar) { int2str<unsigned char>(); }
HARNESS(i2s_int) { int2str<int>(); }
HARNESS(i2s_uint) { int2str<unsigned>(); }
HARNESS(i2s_long) { int2str<long>(1); }
HARNESS(i2s_long_neg) { int2str<long>(-1); }
HARNESS(i2s_ulong) { int2str<unsigned long>(); }
HARNESS(i2s_schar) { int2str<signed char>(); }
HARNESS(ptr2hex)
{
  kv_unroll(32);
  uint64_t v = kv_u64("v");
  char b[24];
  unsigned n = kanon::detail::ptrToHexStr(b, v);
  kv_assert(n == 16 && b[16] == 0, "16 digits");
  bool r = true;
  for (int i = 0; i < 16; i++) { uint64_t d = v >> (60 - 4 * i) & 15; r &= b[i] == (char)(d < 10 ? '0' + d : 'A' + d - 10); }
  kv_assert(r, "the hexadecimal digits of the address");
}

// ---- buffers: any length and contents, one operation
template <unsigned SZ> struct State {
  kanon::detail::FixedBuffer<SZ> *f;
  char *old;
  unsigned len;
};
static void *g_f;
static char *g_old;
static unsigned g_len, g_sz;
static char *data() { return (char *)g_f; }
static unsigned length() { return *(unsigned *)((char *)g_f + g_sz); }
static bool p_old(void *, uint64_t j) { return data()[j] == g_old[j]; }
static char const *g_text;
static uint64_t g_tn;
static bool p_text(void *, uint64_t j) { return data()[g_len + j] == g_text[j]; }
template <class B> static B *buffer(unsigned sz)
{
  B *f = (B *)new KvRaw<B>;
  g_f = f;
  g_sz = sz;
  g_len = kv_u32("len");
  kv_assume(g_len < sz);
  g_old = (char *)kv_bytes("old", sz);
  memcpy(f, g_old, sz);
  *(unsigned *)((char *)f + sz) = g_len;
  return f;
}
static void kept() { kv_check_forall(p_old, nullptr, 0, g_len, "what was there is kept"); }
// the text g_text[0,g_tn) was appended if it and its terminator fit
static void text(char const *t, uint64_t n)
{
  g_text = t;
  g_tn = n;
  kept();
  if (n < g_sz - g_len) {
    kv_assert(length() == g_len + n, "the text is appended");
    kv_check_forall(p_text, nullptr, 0, n, "the text is appended whole");
    kv_assert(data()[g_len + n] == 0, "the text is terminated");
    kv_cover("fits");
  } else {
    kv_assert(length() == g_len, "a text that does not fit is not appended");
    kv_cover("too long");
  }
}
template <unsigned SZ> static void fixed_buffer()
{
  typedef kanon::detail::FixedBuffer<SZ> B;
  B *f = buffer<B>(SZ);
  kv_assert(f->data() == data() && f->len() == g_len && f->avali() == SZ - g_len && f->empty() == (g_len == 0) && f->end() == data() + SZ && f->cur() == data() + g_len, "the observers");
  StringView v = f->ToStringView();
  kv_assert(v.data() == data() && v.size() == g_len, "the text as a view");
  uint32_t op = kv_u32("op");
  kv_assume(op < 6);
  if (op == 0 || op == 1) {
    uint64_t n = kv_size("n");
    kv_assume(n < (1ull << 32));
    char *t = (char *)kv_bytes("text", n);
    if (op == 0) f->Append(t, (unsigned)n); else f->Append(StringView(t, n));
    text(t, n);
  } else if (op == 2) {
    char c = (char)kv_u8("c");
    f->appendChar(c);
    text(&c, 1);
  } else if (op == 3) {
    bool b = kv_bool("b");
    f->appendBool(b);
    if (b) text("True", 4); else text("False", 5);
  } else if (op == 4) {
    f->reset();
    kv_assert(f->len() == 0 && f->empty() && f->avali() == SZ, "an empty buffer");
  } else {
    unsigned k = kv_u32("k");
    kv_assume(k < SZ - g_len);
    f->AdvanceRead(k);
    kept();
    kv_assert(length() == g_len + k, "the given number of characters was written by the caller");
  }
}
HARNESS(buffer_64) { fixed_buffer<64>(); }
HARNESS(buffer_4096) { fixed_buffer<4096>(); }
HARNESS(buffer_4m) { fixed_buffer<4096 << 10>(); }
// numbers: appended if there is room for the longest (with slack), never beyond the end
template <unsigned SZ> static void buffer_number(int op)
{
  typedef kanon::detail::FixedBuffer<SZ> B;
  kv_unroll(32);
  B *f = buffer<B>(SZ);
  if (op == 0) {
    int v = (int)kv_u32("v");
    f->appendInt(v);
    kept();
    unsigned n = length() - g_len;
    if (n == 0) { kv_assert(SZ - g_len <= 32, "a number that fits is appended"); kv_cover("no room"); return; }
    check_digits(data() + g_len, n, v, "the decimal digits of the number");
    kv_assert(length() < SZ && data()[length()] == 0, "the text is terminated");
  } else if (op == 1) {
    g_fn = (int)kv_u32("fn");
    kv_assume((g_fn > 0) & (g_fn < 20));
    bool nz = true;
    for (int i = 0; i < 20; i++) { g_ftext[i] = (char)kv_u8("digit"); nz &= g_ftext[i] != 0; }
    kv_assume(nz);
    uint64_t bits = kv_u64("d");
    memcpy(&g_d, &bits, 8);
    f->appendFloat(g_d);
    kept();
    unsigned n = length() - g_len;
    if (n == 0) { kv_assert(SZ - g_len <= 32, "a number that fits is appended"); kv_cover("no room"); return; }
    kv_assert(n == (unsigned)g_fn, "the whole number is appended");
    kv_cover("float");
    bool r = true;
    for (int i = 0; i < g_fn; i++) r &= data()[g_len + i] == g_ftext[i];
    kv_assert(r, "the number is appended");
    kv_assert(length() < SZ && data()[length()] == 0, "the text is terminated");
  } else {
    uint64_t v = kv_u64("p");
    f->appendPtr((void const *)v);
    kept();
    unsigned n = length() - g_len;
    if (v == 0) { text("(null)", 6); return; }
    if (n == 0) { kv_assert(SZ - g_len <= 18, "an address that fits is appended"); kv_cover("no room"); return; }
    kv_assert(n == 18, "an address has 18 characters");
    bool r = data()[g_len] == '0' && data()[g_len + 1] == 'x';
    for (int i = 0; i < 16; i++) { uint64_t d = v >> (60 - 4 * i) & 15; r &= data()[g_len + 2 + i] == (char)(d < 10 ? '0' + d : 'A' + d - 10); }
    kv_assert(r, "the hexadecimal digits of the address");
    kv_assert(length() < SZ && data()[length()] == 0, "the text is terminated");
    kv_cover("pointer");
  }
}
HARNESS(number_64) { buffer_number<64>(0); }
HARNESS(float_64) { buffer_number<64>(1); }
HARNESS(pointer_64) { buffer_number<64>(2); }
HARNESS(float_4096) { buffer_number<4096>(1); }
HARNESS(pointer_4096) { buffer_number<4096>(2); }
HARNESS(buffer_swap)
{
  typedef kanon::detail::FixedBuffer<64> B;
  kv_unroll(128);
  B *f = buffer<B>(64);
  char *a = g_old;
  unsigned la = g_len;
  void *x = f;
  B *h = buffer<B>(64);
  char *b = g_old;
  unsigned lb = g_len;
  f->swap(*h);
  kv_assert(f->len() == lb && h->len() == la, "the lengths are exchanged");
  g_f = x;
  g_old = b;
  g_len = lb;
  kept();
  g_f = h;
  g_old = a;
  g_len = la;
  kept();
}
// ---- streams: every kind of value goes to the buffer as its text
template <unsigned SZ> static LexicalStream<SZ> *stream()
{
  auto s = (LexicalStream<SZ> *)new KvRaw<LexicalStream<SZ>>;
  buffer<kanon::detail::FixedBuffer<SZ>>(SZ);
  static_assert(sizeof(LexicalStream<SZ>) == sizeof(kanon::detail::FixedBuffer<SZ>), "only a buffer");
  memcpy(s, g_f, sizeof *s);
  g_f = s;
  return s;
}
static unsigned grown() { kept(); kv_assert(length() >= g_len && length() < g_sz, "the buffer is not overrun"); kv_assert(length() == g_len || data()[length()] == 0, "the text is terminated"); return length() - g_len; }
HARNESS(stream_text)
{
  auto s = stream<4096>();
  kv_assert(s->data() == data() && s->size() == g_len && s->maxsize() == 4096, "the observers");
  uint32_t op = kv_u32("op");
  kv_assume(op < 7);
  uint64_t n = kv_size("n");
  kv_assume(n < (1ull << 32));
  if (op < 4) {
    char *t = (char *)kv_bytes("text", n + 1);
    LexicalStream<4096> *r = s;
    if (op == 0) s->Append(t, (unsigned)n);
    else if (op == 1) r = &(*s << StringView(t, n));
    else if (op == 2) {
      t[n] = 0;
      r = &(*s << (char const *)t);
      uint64_t k = strlen(t);
      kv_assert(r == s, "the stream itself");
      text(t, k);
      return;
    } else {
      // a string of any length
      std::string z;
      r = &(*s << z);
      kv_assert(r == s && length() == g_len, "an empty text adds nothing");
      std::string y("abc");
      r = &(*s << y);
      text("abc", 3);
      return;
    }
    kv_assert(r == s, "the stream itself");
    text(t, n);
  } else if (op == 4) {
    char c = (char)kv_u8("c");
    kv_assert(&(*s << c) == s, "the stream itself");
    text(&c, 1);
  } else if (op == 5) {
    bool b = kv_bool("b");
    kv_assert(&(*s << b) == s, "the stream itself");
    if (b) text("True", 4); else text("False", 5);
  } else {
    s->reset();
    kv_assert(s->size() == 0, "an empty stream");
  }
}
template <class T> static void put()
{
  kv_unroll(32);
  auto s = stream<4096>();
  kv_assume(g_len < 4000);
  T v = number<T>();
  *s << v;
  check_digits(data() + g_len, grown(), v, "the decimal digits of the number");
}
HARNESS(stream_uchar) { put<unsigned char>(); }
HARNESS(stream_short) { put<short>(); }
HARNESS(stream_ushort) { put<unsigned short>(); }
HARNESS(stream_int) { put<int>(); }
HARNESS(stream_uint) { put<unsigned>(); }
template <class T> static void put_wide()
{
  // numbers of up to 5 digits: all digits are covered by i2s_*
  kv_unroll(32);
  auto s = stream<4096>();
  kv_assume(g_len < 4000);
  T v = number<T>();
  kv_assume((v > (T)0 ? v < (T)100000 : v == 0));
  *s << v;
  check_digits(data() + g_len, grown(), v, "the decimal digits of the number");
}
HARNESS(stream_wide) { uint32_t k = kv_u32("kind"); kv_assume(k < 4); if (k == 0) put_wide<long>(); else if (k == 1) put_wide<unsigned long>(); else if (k == 2) put_wide<long long>(); else put_wide<unsigned long long>(); }
HARNESS(stream_real)
{
  kv_unroll(32);
  auto s = stream<4096>();
  kv_assume(g_len < 3500);
  g_fn = (int)kv_u32("fn");
  kv_assume((g_fn > 0) & (g_fn < 20));
  bool nz = true;
  for (int i = 0; i < 20; i++) { g_ftext[i] = (char)kv_u8("digit"); nz &= g_ftext[i] != 0; }
  kv_assume(nz);
  if (kv_bool("float")) {
    uint32_t bits = kv_u32("f");
    float f;
    memcpy(&f, &bits, 4);
    kv_assume(f == f);
    g_d = f;
    *s << f;
  } else {
    uint64_t bits = kv_u64("d");
    memcpy(&g_d, &bits, 8);
    *s << g_d;
  }
  kv_assert(grown() == (unsigned)g_fn, "the whole number is appended");
  bool r = true;
  for (int i = 0; i < g_fn; i++) r &= data()[g_len + i] == g_ftext[i];
  kv_assert(r, "the number is appended");
}
HARNESS(stream_pointer)
{
  kv_unroll(32);
  auto s = stream<4096>();
  kv_assume(g_len < 4000);
  uint64_t v = kv_u64("p");
  *s << (void const *)v;
  if (v == 0) { text("(null)", 6); return; }
  kv_assert(grown() == 18, "an address has 18 characters");
  bool r = data()[g_len] == '0' && data()[g_len + 1] == 'x';
  for (int i = 0; i < 16; i++) { uint64_t d = v >> (60 - 4 * i) & 15; r &= data()[g_len + 2 + i] == (char)(d < 10 ? '0' + d : 'A' + d - 10); }
  kv_assert(r, "the hexadecimal digits of the address");
}
HARNESS(stream_move)
{
  kv_unroll(128);
  auto s = stream<64>();
  LexicalStream<64> m(std::move(*s));
  g_f = &m;
  kept();
  kv_assert(length() == g_len, "the text is moved");
  LexicalStream<64> k;
  k = std::move(m);
  g_f = &k;
  kept();
  kv_assert(length() == g_len, "the text is moved");
}
// ---- formats: <a>%<b> and escaped %
static char const *g_fmt;
static uint64_t g_at;                    // where the % is
static bool f_plain(void *, uint64_t j) { return g_fmt[j] != '%'; }
static bool f_before(void *, uint64_t j) { return data()[j] == g_fmt[j]; }
static bool f_after(void *, uint64_t j) { return data()[g_at + g_tn + j] == g_fmt[g_len + j]; }
static bool f_arg(void *, uint64_t j) { return data()[g_at + j] == g_text[j]; }
typedef FmtStream<4096> F;
static void out(F &f) { g_f = (void *)f.GetData(); g_sz = 4096; }
static uint64_t format(uint64_t n)
{
  kv_assume(n < 2000);
  g_fmt = (char const *)kv_bytes("fmt", n);
  g_at = kv_u64("k_at");
  if (kv_mode() == 1 && n) {
    // native runs: mostly one placeholder or escape
    if (kv_fix(4)) { for (uint64_t i = 0; i < n; i++) if (g_fmt[i] == '%') ((char *)g_fmt)[i] = 'x'; }
    uint64_t w = kv_fix(8);
    if (w) { g_at = kv_fit(g_at, n - 1); if (w > 1) ((char *)g_fmt)[g_at] = '%'; if (w > 4 && g_at + 1 < n) ((char *)g_fmt)[g_at + 1] = '%'; }
  }
  return n;
}
HARNESS(fmt_none)
{
  uint64_t n = format(kv_size("n"));
  kv_forall(f_plain, nullptr, 0, n);
  F f{StringView(g_fmt, n)};
  out(f);
  kv_assert(length() == n, "a format without % is copied");
  kv_check_forall(f_before, nullptr, 0, n, "a format without % is copied");
}
HARNESS(fmt_one)
{
  uint64_t n = format(kv_size("n"));
  kv_assume(g_at < n);
  kv_forall(f_plain, nullptr, 0, g_at);
  kv_assume(g_fmt[g_at] == '%');
  kv_forall(f_plain, nullptr, g_at + 1, n);
  g_tn = kv_size("tn");
  kv_assume(g_tn < 2000);
  g_text = (char const *)kv_bytes("text", g_tn);
  F f(StringView(g_fmt, n), StringView(g_text, g_tn));
  out(f);
  g_len = g_at + 1;
  kv_assert(length() == n - 1 + g_tn, "the argument replaces the placeholder");
  kv_check_forall(f_before, nullptr, 0, g_at, "the text before the placeholder is copied");
  kv_check_forall(f_arg, nullptr, 0, g_tn, "the argument is copied");
  kv_check_forall(f_after, nullptr, 0, n - g_at - 1, "the text after the placeholder is copied");
}
HARNESS(fmt_escape)
{
  uint64_t n = format(kv_size("n"));
  kv_assume((g_at < n) & (g_at + 1 < n));
  kv_forall(f_plain, nullptr, 0, g_at);
  kv_assume((g_fmt[g_at] == '%') & (g_fmt[g_at + 1] == '%'));
  kv_forall(f_plain, nullptr, g_at + 2, n);
  kv_unroll_in("ParseAndSerialize", 3);
  F f{StringView(g_fmt, n)};
  out(f);
  g_tn = 1;
  g_len = g_at + 2;
  kv_assert(length() == n - 1, "%% is %");
  kv_check_forall(f_before, nullptr, 0, g_at + 1, "%% is %");
  kv_check_forall(f_after, nullptr, 0, n - g_at - 2, "the text after %% is copied");
}
static void is(F &f, char const *t, char const *msg)
{
  out(f);
  uint64_t n = 0;
  bool r = true;
  for (; t[n]; n++) r &= data()[n] == t[n];
  kv_assert(r & (length() == n), msg);
}
HARNESS(fmt_many)
{
  kv_unroll(64);
  F a("% + % = %, %%", 1, 2L, 3u);
  is(a, "1 + 2 = 3, %", "the arguments replace the placeholders in order");
  F b("%%%x%%", 'c');
  is(b, "%cx%", "escapes around a placeholder");
  F c("%", true);
  is(c, "True", "a placeholder at the end");
  F d("%%%", std::string("s"));
  is(d, "%s", "an escape before a placeholder at the end");
  d.Reset();
  d.Serialize("[%]", "lit");
  is(d, "[lit]", "a stream is used again");
  F e("%", (void const *)nullptr);
  is(e, "(null)", "no object");
  g_fn = 3; g_ftext[0] = '1'; g_ftext[1] = '.'; g_ftext[2] = '5'; g_d = 1.5;
  F g("a%b", 1.5);
  is(g, "a1.5b", "a floating-point number");
  F h("%", 1.5f);
  is(h, "1.5", "a floating-point number");
  LexicalStream<4096> s;
  s << a;
  kv_assert(s.size() == 12 && s.data()[0] == '1' && s.data()[11] == '%', "a formatted text goes to a stream");
}
// every arrangement of % and other characters in a format of six
static void mixed(unsigned from, unsigned to)
{
  kv_unroll(64);
  for (unsigned m = from; m < to; m++) {
    char f[7], want[12], arg = 'A';
    unsigned k = 0, n = 0;
    for (unsigned i = 0; i < 6; i++) f[i] = m >> i & 1 ? '%' : (char)('p' + i);
    f[6] = 0;
    for (unsigned i = 0; i < 6; i++) {
      if (f[i] != '%') want[n++] = f[i];
      else if (f[i + 1] == '%') { want[n++] = '%'; i++; }
      else { want[n++] = arg++; k++; }
    }
    want[n] = 0;
    StringView v(f, 6);
    if (k == 0) { F g(v); is(g, want, "every %% is %"); }
    else if (k == 1) { F g(v, 'A'); is(g, want, "every %% is %, every other % an argument"); }
    else if (k == 2) { F g(v, 'A', 'B'); is(g, want, "every %% is %, every other % an argument"); }
    else { F g(v, 'A', 'B', 'C'); is(g, want, "every %% is %, every other % an argument"); }
  }
}
HARNESS(fmt_mixed1) { mixed(0, 32); }
HARNESS(fmt_mixed2) { mixed(32, 64); }
// ---- StrCat, StrAppend: the pieces one after another
#include "kanon/string/string_util.h"
struct Piece { char const *t; uint64_t n, at; };
static std::string *g_s;
static bool p_piece(void *c, uint64_t j) { auto p = (Piece *)c; return (*g_s)[p->at + j] == p->t[j]; }
static Piece piece(char const *name)
{
  uint64_t n = kv_size(name);
  kv_assume(n < (1ull << 24));
  char *t = (char *)kv_bytes("text", n + 1);
  return Piece{t, n, 0};
}
static bool p_nonzero(void *c, uint64_t j) { return ((Piece *)c)->t[j] != 0; }
static Piece cpiece(char const *name)
{
  Piece p = piece(name);
  kv_forall(p_nonzero, &p, 0, p.n);
  kv_assume(p.t[p.n] == 0);
  return p;
}
static void check_piece(Piece p, uint64_t &at)
{
  p.at = at;
  kv_check_forall(p_piece, &p, 0, p.n, "the pieces one after another");
  at += p.n;
}
HARNESS(strcat_views)
{
  Piece a = piece("a"), b = piece("b");
  char c = (char)kv_u8("c");
  std::string s = StrCat(StringView(a.t, a.n), c, StringView(b.t, b.n));
  g_s = &s;
  kv_assert(s.size() == a.n + 1 + b.n, "the length of all pieces");
  uint64_t at = 0;
  check_piece(a, at);
  kv_assert(s[at] == c, "a character");
  at++;
  check_piece(b, at);
}
HARNESS(strcat_texts)
{
  Piece a = cpiece("a"), b = cpiece("b");
  std::string s = StrCat(a.t, StringView(b.t, b.n), a.t);
  g_s = &s;
  kv_assert(s.size() == a.n + b.n + a.n, "the length of all pieces");
  uint64_t at = 0;
  check_piece(a, at);
  check_piece(b, at);
  check_piece(a, at);
}
HARNESS(strcat_strings)
{
  Piece a = piece("a"), b = piece("b"), d = piece("d");
  std::string s(a.t, a.n), t(b.t, b.n), u(d.t, d.n);
  StrAppend(s, t, StringView("-"), u);
  g_s = &s;
  kv_assert(s.size() == a.n + b.n + 1 + d.n, "the length of all pieces");
  uint64_t at = 0;
  check_piece(a, at);
  check_piece(b, at);
  kv_assert(s[at] == '-', "a character");
  at++;
  check_piece(d, at);
  StrAppend(s, 'x');
  kv_assert(s.size() == at + 1, "a character");
  kv_assert(s[at] == 'x', "a character");
}
