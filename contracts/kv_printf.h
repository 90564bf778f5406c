// contract of snprintf for %d %i %u %ld %li %lu %lld %llu %zu %s %c %x %%, with a width and the flag 0
#ifndef KV_PRINTF_H
#define KV_PRINTF_H
#include <type_traits>
// The digits of a number are not computed in the proof: they are arbitrary digits, remembered with
// the number, of which the harness checks that it is the right one (KvWant).
struct KvTok { size_t at; int k; uint64_t v; char d[20]; };
static KvTok kv_tok[16];
static int kv_toks;
struct KvOut {
  char *b; size_t n, at;
  void ch(char c) { if (at + 1 < n) b[at] = c; at++; }
  void text(char const *s) { for (; *s; s++) ch(*s); }
  // exactly k digits, the last ones of v
  void fixed(uint64_t v, int k)
  {
    uint64_t p = 1;
    for (int i = 1; i < k; i++) p *= 10;
    KvTok &t = kv_tok[kv_toks++];
    t.at = at; t.k = k; t.v = v;
    bool digits = true;
    for (int i = 0; i < k; i++, p /= 10) {
      char c;
      if (kv_mode()) c = '0' + (char)(v / p % 10);
      else { c = (char)kv_u8("digit"); digits &= (c >= '0') & (c <= '9'); }
      t.d[i] = c;
      ch(c);
    }
    kv_assume(digits);
  }
  void fixed_(bool neg, uint64_t v, int k) { if (neg) ch('-'); fixed(v, k); }
  void number(bool neg, uint64_t v, int width, bool zero, unsigned base)
  {
    if (base == 16) { int k = 1; while (k < 16 && (v >> (4 * k))) k++; pad(neg, width, k, zero); for (; k > 0; k--) ch("0123456789abcdef"[v >> (4 * (k - 1)) & 15]); return; }
    int k = 1;
    if (zero && width > neg) {
      uint64_t p = 1;
      for (int i = neg; i < width; i++) p *= 10;
      if (v < p) { fixed_(neg, v, width - neg); return; }
    }
    for (uint64_t p = 10; k < 20 && v >= p; k++) p *= 10;
    pad(neg, width, k, zero);
    fixed(v, k);
  }
  void pad(bool neg, int width, int k, bool zero)
  {
    if (!zero) for (int i = k + neg; i < width; i++) ch(' ');
    if (neg) ch('-');
    if (zero) for (int i = k + neg; i < width; i++) ch('0');
  }
  void end() { if (n) b[at < n ? at : n - 1] = 0; }
};
struct KvSpec { int width; bool zero; int longs, shorts; char conv; };
static inline char const *kv_spec(char const *f, KvSpec &s)
{
  s.width = 0; s.zero = false; s.longs = s.shorts = 0;
  if (*f == '0') { s.zero = true; f++; }
  while (*f >= '0' && *f <= '9') s.width = s.width * 10 + *f++ - '0';
  while (*f == 'h') { s.shorts++; f++; }   // the argument was promoted
  while (*f == 'l' || *f == 'z' || *f == 'j') { s.longs++; f++; }
  s.conv = *f++;
  return f;
}
template <class T> typename std::enable_if<std::is_integral<T>::value>::type kv_put(KvOut &o, KvSpec const &s, T v)
{
  if (s.conv == 'c') { o.ch((char)v); return; }
  kv_assert(s.conv == 'd' || s.conv == 'i' || s.conv == 'u' || s.conv == 'x', "printf: the conversion fits the argument");
  kv_assert((sizeof(T) == 8) == (s.longs > 0), "printf: the conversion fits the argument");
  if (s.shorts) {                        // ... and is taken for a short or a char
    bool sign = s.conv == 'd' || s.conv == 'i';
    int64_t w = s.shorts == 1 ? (sign ? (int64_t)(int16_t)v : (int64_t)(uint16_t)v) : (sign ? (int64_t)(int8_t)v : (int64_t)(uint8_t)v);
    o.number(w < 0, w < 0 ? 0 - (uint64_t)w : (uint64_t)w, s.width, s.zero, s.conv == 'x' ? 16 : 10);
    return;
  }
  if (s.conv == 'd' || s.conv == 'i') { int64_t w = sizeof(T) == 8 ? (int64_t)v : (int64_t)(int32_t)v; o.number(w < 0, w < 0 ? 0 - (uint64_t)w : (uint64_t)w, s.width, s.zero, 10); }
  else o.number(false, sizeof(T) == 8 ? (uint64_t)v : (uint64_t)(uint32_t)v, s.width, s.zero, s.conv == 'x' ? 16 : 10);
}
static inline void kv_put(KvOut &o, KvSpec const &s, char const *t) { kv_assert(s.conv == 's', "printf: the conversion fits the argument"); o.text(t); }
static inline void kv_print(KvOut &o, char const *f)
{
  for (; *f; f++) {
    if (*f == '%') { f++; kv_assert(*f == '%', "printf: an argument for every conversion"); }
    o.ch(*f);
  }
  o.end();
}
template <class T, class... A> void kv_print(KvOut &o, char const *f, T v, A... a)
{
  for (; *f; f++) {
    if (*f != '%') { o.ch(*f); continue; }
    if (f[1] == '%') { o.ch('%'); f++; continue; }
    KvSpec s;
    f = kv_spec(f + 1, s);
    kv_put(o, s, v);
    kv_print(o, f, a...);
    return;
  }
  o.end();
}
template <class... A> int kv_snprintf(char *b, size_t n, char const *f, A... a)
{
  if (n) kv_valid(b, n);
  KvOut o{b, n, 0};
  kv_print(o, f, a...);
  return (int)o.at;
}
// the text that is wanted
struct KvWant {
  char const *s; size_t n, at; int tok; bool ok;
  KvWant(char const *p, size_t k) : s(p), n(k), at(0), tok(0), ok(true) {}
  void ch(char c) { kv_assert(at < n, "the text is as long as it should be"); ok &= s[at] == c; at++; }
  void text(char const *t) { for (; *t; t++) ch(*t); }
  void fixed(uint64_t v, int k)
  {
    kv_assert(at + k <= n, "the text is as long as it should be");
    if (kv_mode()) {
      uint64_t p = 1;
      for (int i = 1; i < k; i++) p *= 10;
      for (int i = 0; i < k; i++, p /= 10) ch('0' + (char)(v / p % 10));
      return;
    }
    kv_assert(tok < kv_toks, "a number is written");
    KvTok &t = kv_tok[tok++];
    kv_assert(t.at == at && t.k == k, "a number with its digits is where it should be");
    ok &= t.v == v;
    for (int i = 0; i < k; i++) ch(t.d[i]);
  }
  void number(uint64_t v)
  {
    int k = 1;
    for (uint64_t p = 10; k < 20 && v >= p; k++) p *= 10;
    fixed(v, k);
  }
  void end(char const *msg) { kv_assert(ok & (at == n), msg); }
};
#endif
