// Contracts of kanon::StringView (kanon/string/string_view.{h,cc}).
#include "kv.h"
#include "kanon/string/string_view.cc"
using namespace kanon;
static const size_t MAX = 1ul << 40;
static const size_t NPOS = StringView::npos;
struct Ctx { char const *d; size_t n; char c; char const *s; size_t m; size_t k, at; };
static StringView mk(Ctx &x) {
  x.n = kv_size("len"); kv_assume(x.n <= MAX);
  x.d = (char const *)kv_bytes("text", x.n);
  return StringView(x.d, x.n);
}
static StringView mk2(Ctx &x) {
  x.m = kv_size("mlen"); kv_assume(x.m <= MAX);
  x.s = (char const *)kv_bytes("pat", x.m);
  return StringView(x.s, x.m);
}
static size_t mn(size_t a, size_t b) { return a < b ? a : b; }
static bool ne_c(void *c, uint64_t j) { Ctx *x = (Ctx *)c; return x->d[j] != x->c; }
static bool eq_c(void *c, uint64_t j) { Ctx *x = (Ctx *)c; return x->d[j] == x->c; }

// ---- single character searches
HARNESS(find_char) {
  Ctx x; StringView v = mk(x); x.c = kv_u8("c"); size_t pos = kv_u64("pos");
  kv_template(ne_c, &x); kv_total(true);
  size_t r = v.find(x.c, pos);
  if (r == NPOS) { kv_cover("absent"); kv_check_forall(ne_c, &x, pos, x.n, "find(char): npos only if the character does not occur"); }
  else {
    kv_cover("present");
    kv_assert(r >= pos && r < x.n && x.d[r] == x.c, "find(char): the result is an occurrence at or after pos");
    kv_check_forall(ne_c, &x, pos, r, "find(char): the result is the first occurrence");
  }
  kv_assert(v.contains(x.c) || pos != 0 || r == NPOS, "contains(char) agrees with find");
}
HARNESS(rfind_char) {
  Ctx x; StringView v = mk(x); x.c = kv_u8("c"); size_t pos = kv_u64("pos");
  kv_template(ne_c, &x); kv_total(true);
  size_t r = v.rfind(x.c, pos);
  if (x.n == 0) { kv_assert(r == NPOS, "rfind(char): npos on an empty view"); return; }
  size_t last = mn(pos, x.n - 1);
  if (r == NPOS) { kv_cover("absent"); kv_check_forall(ne_c, &x, 0, last + 1, "rfind(char): npos only if the character does not occur"); }
  else {
    kv_cover("present");
    kv_assert(r <= last && x.d[r] == x.c, "rfind(char): the result is an occurrence at or before pos");
    kv_check_forall(ne_c, &x, r + 1, last + 1, "rfind(char): the result is the last occurrence");
  }
}
HARNESS(find_first_of_char) {
  Ctx x; StringView v = mk(x); x.c = kv_u8("c"); size_t pos = kv_u64("pos");
  kv_template(ne_c, &x); kv_total(true);
  size_t r = v.find_first_of(x.c, pos);
  if (r == NPOS) { kv_cover("absent"); kv_check_forall(ne_c, &x, pos, x.n, "find_first_of(char): npos only if absent"); }
  else {
    kv_cover("present");
    kv_assert(r >= pos && r < x.n && x.d[r] == x.c, "find_first_of(char): an occurrence");
    kv_check_forall(ne_c, &x, pos, r, "find_first_of(char): the first one");
  }
}
HARNESS(find_last_of_char) {
  Ctx x; StringView v = mk(x); x.c = kv_u8("c"); size_t pos = kv_u64("pos");
  kv_template(ne_c, &x); kv_total(true);
  size_t r = v.find_last_of(x.c, pos);
  if (x.n == 0) { kv_assert(r == NPOS, "find_last_of(char): npos on an empty view"); return; }
  size_t last = mn(pos, x.n - 1);
  if (r == NPOS) { kv_cover("absent"); kv_check_forall(ne_c, &x, 0, last + 1, "find_last_of(char): npos only if absent"); }
  else {
    kv_cover("present");
    kv_assert(r <= last && x.d[r] == x.c, "find_last_of(char): an occurrence");
    kv_check_forall(ne_c, &x, r + 1, last + 1, "find_last_of(char): the last one");
  }
}
HARNESS(find_first_not_of_char) {
  Ctx x; StringView v = mk(x); x.c = kv_u8("c"); size_t pos = kv_u64("pos");
  kv_template(eq_c, &x); kv_total(true);
  size_t r = v.find_first_not_of(x.c, pos);
  if (r == NPOS) { kv_cover("absent"); kv_check_forall(eq_c, &x, pos, x.n, "find_first_not_of(char): npos only if all match"); }
  else {
    kv_cover("present");
    kv_assert(r >= pos && r < x.n && x.d[r] != x.c, "find_first_not_of(char): a different character");
    kv_check_forall(eq_c, &x, pos, r, "find_first_not_of(char): the first one");
  }
}
HARNESS(find_last_not_of_char) {
  Ctx x; StringView v = mk(x); x.c = kv_u8("c"); size_t pos = kv_u64("pos");
  kv_template(eq_c, &x); kv_total(true);
  size_t r = v.find_last_not_of(x.c, pos);
  if (x.n == 0) { kv_assert(r == NPOS, "find_last_not_of(char): npos on an empty view"); return; }
  size_t last = mn(pos, x.n - 1);
  if (r == NPOS) { kv_cover("absent"); kv_check_forall(eq_c, &x, 0, last + 1, "find_last_not_of(char): npos only if all match"); }
  else {
    kv_cover("present");
    kv_assert(r <= last && x.d[r] != x.c, "find_last_not_of(char): a different character");
    kv_check_forall(eq_c, &x, r + 1, last + 1, "find_last_not_of(char): the last one");
  }
}

// ---- substring searches.  `k` is an arbitrary offset into the pattern, `at` an arbitrary position of the text.
static bool pat_ne(void *c, uint64_t t) { Ctx *x = (Ctx *)c; return x->d[x->at + t] == x->s[t]; }
HARNESS(find_view_found) {
  Ctx x; StringView v = mk(x), p = mk2(x); size_t pos = kv_u64("pos"); kv_assume(pos <= x.n);
  x.k = kv_u64("k"); kv_assume(x.k < x.m);
  kv_total(true);
  size_t r = v.find(p, pos);
  if (r == NPOS) return;
  kv_cover("present");
  kv_assert(r >= pos && r <= x.n && x.m <= x.n - r, "find(view): the result is a place at or after pos where the pattern fits");
  kv_assert(x.d[r + x.k] == x.s[x.k], "find(view): the text at the result equals the pattern byte for byte");
}
HARNESS(find_view_first) {
  // no earlier occurrence: if the pattern occurs at an arbitrary place `at` >= pos, the result is not behind it
  Ctx x; StringView v = mk(x), p = mk2(x); size_t pos = kv_u64("pos"); kv_assume(pos <= x.n);
  x.at = kv_u64("kat"); kv_assume(x.m <= x.n && x.at >= pos && x.at <= x.n - x.m);
  kv_forall(pat_ne, &x, 0, x.m);
  kv_total(true);
  size_t r = v.find(p, pos);
  kv_cover("occurs");
  kv_assert(r <= x.at, "find(view): finds the first occurrence");
}
HARNESS(find_view_empty) {
  Ctx x; StringView v = mk(x); size_t pos = kv_u64("pos"); kv_assume(pos <= x.n);
  kv_assert(v.find(StringView(), pos) == pos, "find(view): the empty pattern occurs everywhere");
}
HARNESS(rfind_view_found) {
  Ctx x; StringView v = mk(x), p = mk2(x); size_t pos = kv_u64("pos");
  x.k = kv_u64("k"); kv_assume(x.k < x.m);
  kv_total(true);
  size_t r = v.rfind(p, pos);
  if (r == NPOS) return;
  kv_cover("present");
  kv_assert(r <= pos && r < x.n && x.m <= x.n - r, "rfind(view): the result is a place at or before pos where the pattern fits");
  kv_assert(x.d[r + x.k] == x.s[x.k], "rfind(view): the text at the result equals the pattern byte for byte");
}
HARNESS(rfind_view_last) {
  Ctx x; StringView v = mk(x), p = mk2(x); size_t pos = kv_u64("pos");
  x.at = kv_u64("kat"); kv_assume(x.m >= 1 && x.m <= x.n && x.at <= pos && x.at <= x.n - x.m);
  kv_forall(pat_ne, &x, 0, x.m);
  kv_total(true);
  size_t r = v.rfind(p, pos);
  kv_cover("occurs");
  kv_assert(r != NPOS && r >= x.at, "rfind(view): finds the last occurrence");
}

// ---- character set searches.  `k` is an arbitrary member of the set.
static bool ne_set(void *c, uint64_t j) { Ctx *x = (Ctx *)c; return x->d[j] != x->s[x->k]; }       // text[j] differs from the k-th set member
static bool not_in(void *c, uint64_t t) { Ctx *x = (Ctx *)c; return x->d[x->at] != x->s[t]; }      // text[at] differs from the t-th set member
#define SETSEARCH(FN, FWD)                                                                          \
  extern "C" void H_##FN##_none() {                                                                 \
    Ctx x; StringView v = mk(x), p = mk2(x); size_t pos = kv_u64("pos");                            \
    x.k = kv_u64("k"); kv_assume(x.k < x.m); x.at = kv_u64("kat");                                  \
    kv_template(ne_set, &x); kv_total(true);                                                        \
    size_t r = v.FN(p, pos);                                                                        \
    if (FWD) { size_t hi = r == NPOS ? x.n : r;                                                     \
      kv_assert(r == NPOS || (r >= pos && r < x.n), #FN ": the result is in range");                \
      kv_check_forall(ne_set, &x, pos, hi, #FN ": no earlier character is in the set"); }           \
    else if (x.n) { size_t last = mn(pos, x.n - 1), lo = r == NPOS ? 0 : r + 1;                     \
      kv_assert(r == NPOS || r <= last, #FN ": the result is in range");                            \
      kv_check_forall(ne_set, &x, lo, last + 1, #FN ": no later character is in the set"); }        \
    else kv_assert(r == NPOS, #FN ": npos on an empty view");                                       \
    kv_cover("reached");                                                                            \
  }                                                                                                 \
  extern "C" void H_##FN##_found() {                                                                \
    Ctx x; StringView v = mk(x), p = mk2(x); size_t pos = kv_u64("pos");                            \
    kv_total(true);                                                                                 \
    size_t r = v.FN(p, pos);                                                                        \
    if (r == NPOS) return;                                                                          \
    kv_cover("found");                                                                              \
    x.at = r;                                                                                       \
    kv_forall(not_in, &x, 0, x.m);                                                                  \
    kv_assert(false, #FN ": the character at the result is in the set");                            \
  }
SETSEARCH(find_first_of, true)
SETSEARCH(find_last_of, false)
// complement: every skipped character is in the set, the result is not
#define SETSEARCH_NOT(FN, FWD)                                                                      \
  extern "C" void H_##FN##_res() {                                                                  \
    Ctx x; StringView v = mk(x), p = mk2(x); size_t pos = kv_u64("pos");                            \
    x.k = kv_u64("k"); kv_assume(x.k < x.m);                                                        \
    kv_total(true);                                                                                 \
    size_t r = v.FN(p, pos);                                                                        \
    if (r == NPOS) return;                                                                          \
    kv_cover("found");                                                                              \
    kv_assert(r < x.n && (FWD ? r >= pos : r <= pos), #FN ": the result is in range");              \
    kv_assert(x.d[r] != x.s[x.k], #FN ": the character at the result is not in the set");           \
  }                                                                                                 \
  extern "C" void H_##FN##_skip() {                                                                 \
    /* if text[at] is not in the set and at is in range, the result is at or before (after) it */   \
    Ctx x; StringView v = mk(x), p = mk2(x); size_t pos = kv_u64("pos");                            \
    x.at = kv_u64("kat"); kv_assume(x.at < x.n && (FWD ? x.at >= pos : x.at <= pos));               \
    kv_forall(not_in, &x, 0, x.m);                                                                  \
    kv_total(true);                                                                                 \
    size_t r = v.FN(p, pos);                                                                        \
    kv_cover("occurs");                                                                             \
    kv_assert(r != NPOS && (FWD ? r <= x.at : r >= x.at), #FN ": finds the nearest character outside the set"); \
  }
SETSEARCH_NOT(find_first_not_of, true)
SETSEARCH_NOT(find_last_not_of, false)
// harness: find_first_of_none find_first_of_found find_last_of_none find_last_of_found
// harness: find_first_not_of_res find_first_not_of_skip find_last_not_of_res find_last_not_of_skip

// ---- comparison
HARNESS(equal) {
  Ctx x; StringView v = mk(x), p = mk2(x);
  x.k = kv_u64("k"); kv_assume(x.k < x.n && x.k < x.m);
  bool e = v == p;
  if (e) { kv_cover("equal"); kv_assert(x.n == x.m && x.d[x.k] == x.s[x.k], "operator==: equal views have equal length and bytes"); }
  kv_assert((v != p) == !e, "operator!= is the negation of operator==");
}
static bool same(void *c, uint64_t t) { Ctx *x = (Ctx *)c; return x->d[t] == x->s[t]; }
HARNESS(equal_complete) {
  Ctx x; StringView v = mk(x), p = mk2(x);
  kv_assume(x.n == x.m);
  kv_forall(same, &x, 0, x.n);
  kv_assert(v == p, "operator==: views with equal length and bytes are equal");
  kv_assert(v.compare(p) == 0 && v <= p && v >= p && !(v < p) && !(v > p), "compare: views with equal length and bytes compare equal");
}
HARNESS(compare_order) {
  // the first difference decides; bytes are unsigned
  Ctx x; StringView v = mk(x), p = mk2(x);
  x.k = kv_u64("k"); kv_assume(x.k <= x.n && x.k <= x.m && (x.k < x.n || x.k < x.m));
  kv_forall(same, &x, 0, x.k);
  bool vs = x.k == x.n, ps = x.k == x.m;
  if (!vs && !ps) kv_assume(x.d[x.k] != x.s[x.k]);
  bool less = vs || (!ps && (unsigned char)x.d[x.k] < (unsigned char)x.s[x.k]);
  int r = v.compare(p);
  kv_assert(less ? r < 0 : r > 0, "compare: lexicographic order of unsigned bytes, a proper prefix is smaller");
  kv_assert((v < p) == less && (v > p) == !less && (v <= p) == less && (v >= p) == !less, "the ordering operators agree with compare");
  kv_assert(!(v == p), "views that differ are not equal");
  kv_cover("differ");
}
HARNESS(compare_char) {
  Ctx x; StringView v = mk(x); x.c = kv_u8("c");
  int r = v.compare(x.c);
  if (x.n == 0) kv_assert(r < 0, "compare(char): the empty view is smaller");
  else if (x.d[0] != x.c) kv_assert(((unsigned char)x.d[0] < (unsigned char)x.c) ? r < 0 : r > 0, "compare(char): the first byte decides");
  else kv_assert(x.n == 1 ? r == 0 : r > 0, "compare(char): equal only to the one-character view");
}
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool sameci(void *c, uint64_t t) { Ctx *x = (Ctx *)c; return low(x->d[t]) == low(x->s[t]) && x->d[t] != 0; }
HARNESS(case_compare_eq) {
  Ctx x; StringView v = mk(x), p = mk2(x);
  kv_forall(sameci, &x, 0, mn(x.n, x.m));
  int r = v.caseCompare(p);
  kv_assert(x.n == x.m ? r == 0 : x.n < x.m ? r < 0 : r > 0, "caseCompare: equal up to ASCII case iff same length, a proper prefix is smaller");
}
static bool nonul(void *c, uint64_t t) { Ctx *x = (Ctx *)c; return x->d[t] != 0; }
HARNESS(case_compare_ne) {
  Ctx x; StringView v = mk(x), p = mk2(x);
  x.k = kv_u64("k"); kv_assume(x.k < x.n && x.k < x.m);
  kv_forall(nonul, &x, 0, x.n);
  kv_assume(low(x.d[x.k]) != low(x.s[x.k]));
  kv_assert(v.caseCompare(p) != 0, "caseCompare: views that differ beyond ASCII case are not equal");
}
HARNESS(case_compare_char) {
  Ctx x; StringView v = mk(x); x.c = kv_u8("c");
  kv_assume((unsigned char)x.c < 128);
  int r = v.caseCompare(x.c);
  if (x.n == 0) { kv_assert(r < 0, "caseCompare(char): the empty view is smaller"); return; }
  kv_assume((unsigned char)x.d[0] < 128);
  kv_assert((r == 0) == (x.n == 1 && low(x.d[0]) == low(x.c)), "caseCompare(char): equal iff one character, the same up to case");
}
HARNESS(starts_with) {
  Ctx x; StringView v = mk(x), p = mk2(x);
  x.k = kv_u64("k"); kv_assume(x.k < x.m);
  if (v.starts_with(p)) { kv_cover("yes"); kv_assert(x.m <= x.n && x.d[x.k] == x.s[x.k], "starts_with: the pattern is a prefix"); }
}
HARNESS(starts_with_complete) {
  Ctx x; StringView v = mk(x), p = mk2(x); kv_assume(x.m <= x.n);
  x.at = 0;
  kv_forall(pat_ne, &x, 0, x.m);
  kv_assert(v.starts_with(p), "starts_with: true for every prefix");
}
HARNESS(ends_with) {
  Ctx x; StringView v = mk(x), p = mk2(x);
  x.k = kv_u64("k"); kv_assume(x.k < x.m);
  if (v.ends_with(p)) { kv_cover("yes"); kv_assert(x.m <= x.n && x.d[x.n - x.m + x.k] == x.s[x.k], "ends_with: the pattern is a suffix"); }
}
HARNESS(ends_with_complete) {
  Ctx x; StringView v = mk(x), p = mk2(x); kv_assume(x.m <= x.n);
  x.at = x.n - x.m;
  kv_forall(pat_ne, &x, 0, x.m);
  kv_assert(v.ends_with(p), "ends_with: true for every suffix");
}
HARNESS(with_char) {
  Ctx x; StringView v = mk(x); x.c = kv_u8("c");
  kv_assert(v.starts_with(x.c) == (x.n > 0 && x.d[0] == x.c), "starts_with(char): the first character");
  kv_assert(v.ends_with(x.c) == (x.n > 0 && x.d[x.n - 1] == x.c), "ends_with(char): the last character");
}
// ---- slicing and copying out
HARNESS(slice) {
  Ctx x; StringView v = mk(x);
  size_t pos = kv_size("pos"), cnt = kv_u64("cnt"); kv_assume(pos <= x.n);
  StringView s = v.substr(pos, cnt);
  kv_assert(s.data() == x.d + pos && s.size() == mn(cnt, x.n - pos), "substr: the slice starts at pos and stays inside the view");
  size_t e = kv_size("e"); kv_assume(e >= pos);
  StringView t = v.substr_range(pos, e);
  kv_assert(t.data() == x.d + pos && t.size() == mn(e, x.n) - pos, "substr_range: the slice [pos,e) inside the view");
  StringView a = v; a.remove_prefix(pos);
  kv_assert(a.data() == x.d + pos && a.size() == x.n - pos, "remove_prefix drops the first n characters");
  StringView b = v; b.remove_suffix(pos);
  kv_assert(b.data() == x.d && b.size() == x.n - pos, "remove_suffix drops the last n characters");
}
HARNESS(copy_out) {
  Ctx x; StringView v = mk(x);
  size_t pos = kv_size("pos"), cnt = kv_size("cnt"); kv_assume(pos < x.n && cnt <= MAX);
  char *dst = (char *)kv_bytes("dst", cnt);
  size_t k = kv_u64("k"); kv_assume(k < cnt);
  char old = dst[k];
  size_t r = v.copy(dst, cnt, pos);
  kv_assert(r == mn(cnt, x.n - pos), "copy: copies what is there, at most count");
  kv_assert(dst[k] == (k < r ? x.d[pos + k] : old), "copy: exactly those bytes are written");
}
HARNESS(copy_throws) {
  Ctx x; StringView v = mk(x);
  size_t pos = kv_u64("pos"); kv_assume(pos >= x.n);
  char d[1]; bool thrown = false;
  try { v.copy(d, 1, pos); } catch (std::out_of_range const &) { thrown = true; }
  kv_assert(thrown, "copy: a position past the end is reported");
  thrown = false;
  try { v.at(pos); } catch (std::length_error const &) { thrown = true; }
  kv_assert(thrown, "at: an index past the end is reported");
}
HARNESS(at) {
  Ctx x; StringView v = mk(x);
  size_t k = kv_u64("k"); kv_assume(k < x.n);
  kv_assert(v.at(k) == x.d[k] && v[k] == x.d[k], "at and [] show the k-th character");
  kv_assert(v.front() == x.d[0] && v.back() == x.d[x.n - 1], "front and back");
}
HARNESS(to_string) {
  Ctx x; StringView v = mk(x);
  size_t k = kv_u64("k"); kv_assume(k < x.n);
  std::string s = v.ToString();
  kv_assert(s.size() == x.n && s[k] == x.d[k], "ToString copies the view");
}
struct UC { std::string *s; char const *d; };
static bool uped(void *c, uint64_t j) { UC *x = (UC *)c; char o = x->d[j]; return (*x->s).data()[j] == (o >= 'a' && o <= 'z' ? o - 32 : o); }
// ---- Buffer line search is built on find
#include "kanon/buffer/buffer.h"
#define LINE(FN, L, STR)                                                                            \
  extern "C" void H_##FN##_found() {                                                                \
    Ctx x; StringView v = mk(x); (void)v;                                                           \
    KvRaw<Buffer> o; Buffer &b = o.r();                                                             \
    b.read_index_ = 0; b.write_index_ = x.n; b.data_.data_ = (char *)x.d; b.data_.end_ = (char *)x.d + x.n; \
    StringView line;                                                                                \
    bool f = b.FN(line);                                                                            \
    kv_assert(b.GetReadableSize() == x.n, #FN ": nothing is consumed");                             \
    if (!f) return;                                                                                 \
    kv_cover("found");                                                                              \
    kv_assert(line.data() == x.d && line.size() + L <= x.n, #FN ": the line is a prefix of the buffer"); \
    for (int i = 0; i < L; ++i) kv_assert(x.d[line.size() + i] == STR[i], #FN ": the line is followed by the terminator"); \
  }                                                                                                 \
  extern "C" void H_##FN##_first() {                                                                \
    Ctx x; StringView v = mk(x); (void)v;                                                           \
    KvRaw<Buffer> o; Buffer &b = o.r();                                                             \
    b.read_index_ = 0; b.write_index_ = x.n; b.data_.data_ = (char *)x.d; b.data_.end_ = (char *)x.d + x.n; \
    size_t at = kv_u64("kat"); kv_assume(x.n >= L && at <= x.n - L);                                \
    for (int i = 0; i < L; ++i) kv_assume(x.d[at + i] == STR[i]);                                   \
    StringView line;                                                                                \
    bool f = b.FN(line);                                                                            \
    kv_assert(f && line.size() <= at, #FN ": the first terminator ends the line");                  \
  }
LINE(FindCrLf, 2, "\r\n")
LINE(FindLf, 1, "\n")
// harness: FindCrLf_found FindCrLf_first FindLf_found FindLf_first
