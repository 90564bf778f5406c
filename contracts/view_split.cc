// C03: splitting a text (kanon/string/string_view.cc) and changing its case
// (the inline versions of <ctype.h> make way for the contract of toupper and tolower below)
#define __NO_CTYPE 1
#include "kv.h"
#include <ctype.h>
#include <string>
#include <utility>
#include <vector>
// library contract: the list of pieces is a sequence; each piece is compared with the text when it is added
static void kv_piece(char const *p, size_t n);
template <> class std::vector<std::string> {
 public:
  size_t n = 0;
  vector() {}
  vector(vector &&o) : n(o.n) { o.n = 0; }
  void emplace_back(std::string &&s) { n++; kv_piece(s.data(), s.size()); }
  void emplace_back(std::string const &s) { n++; kv_piece(s.data(), s.size()); }
  void emplace_back(char const *p, size_t k) { n++; kv_piece(p, k); }
  void push_back(std::string &&s) { n++; kv_piece(s.data(), s.size()); }
  void push_back(std::string const &s) { n++; kv_piece(s.data(), s.size()); }
  void reserve(size_t) {}
  bool empty() const { return n == 0; }
  size_t size() const { return n; }
};
#include "kanon/string/string_view.cc"
using namespace kanon;
enum { kText = 5, kSplit = 2 };
static char g_t[kText + 1], g_s[kSplit + 1];
static size_t g_n, g_m, g_cur;
static unsigned g_pieces;
static bool g_over;                        // the whole text was given
static bool here(size_t i)                 // the splitter is at i
{
  if (!g_m || i + g_m > g_n) return false;
  for (size_t j = 0; j < g_m; j++) if (g_t[i + j] != g_s[j]) return false;
  return true;
}
static void kv_piece(char const *p, size_t n)
{
  kv_assert(!g_over, "no piece follows the end of the text");
  g_pieces++;
  size_t e = g_cur;
  while (e < g_n && !here(e)) e++;
  kv_assert(n == e - g_cur, "a piece ends at the first splitter");
  for (size_t j = 0; j < n; j++) kv_assert(p[j] == g_t[g_cur + j], "a piece is a part of the text");
  if (e == g_n) g_over = true;
  g_cur = e + g_m;
}
static size_t pick(char const *name, size_t max)
{
  size_t k = kv_fit(kv_u64(name), max);
  for (size_t i = 0; i < max; i++) if (k == i) return i;
  kv_assume(k == max);
  return max;
}
static void splits(size_t m)
{
  kv_unroll(16);
  g_m = m;
  g_n = pick("n", kText);
  for (size_t i = 0; i < g_n; i++) g_t[i] = kv_mode() == 1 ? "ab"[kv_fix(2)] : (char)kv_u8("text");
  for (size_t i = 0; i < g_m; i++) g_s[i] = kv_mode() == 1 ? "ab"[kv_fix(2)] : (char)kv_u8("split");
  auto v = StringView(g_t, g_n).split(StringView(g_s, g_m));
  kv_assert(g_over && v.size() == g_pieces, "the pieces cover the whole text");
  kv_cover("split");
}
HARNESS(sv_split0) { splits(0); }
HARNESS(sv_split1) { splits(1); }
HARNESS(sv_split2) { splits(2); }
extern "C" int toupper(int c) KANON_NOEXCEPT { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int tolower(int c) KANON_NOEXCEPT { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
HARNESS(sv_case)
{
  kv_unroll(16);
  g_n = pick("n", kText);
  for (size_t i = 0; i < g_n; i++) g_t[i] = (char)kv_u8("text");
  std::string u = StringView(g_t, g_n).ToUpperString(), l = StringView(g_t, g_n).ToLowerString(), s = StringView(g_t, g_n).ToString();
  kv_assert(u.size() == g_n && l.size() == g_n && s.size() == g_n, "changing the case keeps the length");
  for (size_t i = 0; i < g_n; i++) {
    kv_assert(u[i] == (char)toupper(g_t[i]) && l[i] == (char)tolower(g_t[i]) && s[i] == g_t[i], "every letter is changed, nothing else");
  }
  kv_cover("case");
}
HARNESS(sv_set)
{
  StringView v("abc");
  size_t n = kv_u64("n");
  v.set(g_t, n);
  kv_assert(v.data() == g_t && v.size() == n && v.begin() == g_t && v.empty() == (n == 0), "set: the bytes that are given");
  v.reset();
  kv_assert(v.empty() && v.size() == 0, "reset: an empty text");
}
