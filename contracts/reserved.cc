// C05: ReservedArray and FixedVector (kanon/algo) on arrays of up to three elements with arbitrary values (bounded;
// every loop is unrolled to its end), of numbers, of objects that move and of objects that are only copied.
#include "kv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <memory>
#include <new>
#include <stdexcept>
#include <utility>
#include "kanon/algo/reserved_array.h"
#include "kanon/algo/fixed_vector.h"
enum { kMax = 3 };
static int g_values;           // values in existence
static uint64_t g_heap;
struct V {                     // moves
  uint32_t v;
  V() : v(0) { g_values++; }
  explicit V(uint32_t x) : v(x) { g_values++; }
  V(V const &o) : v(o.v) { g_values++; }
  V(V &&o) noexcept : v(o.v) { o.v = ~o.v; g_values++; }
  V &operator=(V const &o) noexcept { v = o.v; return *this; }
  ~V() { g_values--; }
};
struct C {                     // is only copied, and its assignment may throw
  uint32_t v;
  C() : v(0) { g_values++; }
  explicit C(uint32_t x) : v(x) { g_values++; }
  C(C const &o) : v(o.v) { g_values++; }
  C &operator=(C const &o) { v = o.v; return *this; }
  ~C() { g_values--; }
};
struct R {                     // may be moved by realloc
  uint32_t v;
  static constexpr bool can_reallocate = true;
  R() noexcept : v(0) { g_values++; }
  explicit R(uint32_t x) : v(x) { g_values++; }
  R(R const &o) noexcept : v(o.v) { g_values++; }
  R &operator=(R const &o) noexcept { v = o.v; return *this; }
  ~R() { g_values--; }
};
constexpr bool R::can_reallocate;
static uint32_t &get(uint32_t &x) { return x; }
template <class T> static uint32_t &get(T &x) { return x.v; }
static unsigned pick(char const *name, unsigned max)
{
  unsigned k = kv_fit(kv_u32(name), max);
  for (unsigned i = 0; i < max; i++) if (k == i) return i;
  kv_assume(k == max);
  return max;
}
struct A { uint32_t v[kMax + 2]; unsigned n; };
template <class T> static void same(kanon::algo::ReservedArray<T> &r, A const &a)
{
  kv_assert(r.size() == a.n && r.GetSize() == a.n && r.empty() == (a.n == 0) && r.end() - r.begin() == (ptrdiff_t)a.n && r.data() == r.begin(), "the size");
  for (unsigned i = 0; i < a.n; i++) kv_assert(get(r[i]) == a.v[i], "the elements");
}
template <class T> static void fill(kanon::algo::ReservedArray<T> &r, A &a)
{
  for (unsigned i = 0; i < r.size(); i++) get(r[i]) = a.v[i] = kv_u32("v");
  a.n = r.size();
}
template <class T> static void owned(int n) { if (!std::is_trivial<T>::value) kv_assert(g_values == n, "every element exists once"); }
template <class T> static void arrays()
{
  typedef kanon::algo::ReservedArray<T> Array;
  kv_unroll(8);
  g_heap = kv_live_heap();
  {
    A a, b, e;
    e.n = 0;
    unsigned n = pick("n", kMax), m = pick("m", kMax);
    Array r(n), d;
    same(d, e);
    kv_assert(r.size() == n, "the size that was asked for");
    owned<T>(n);
    fill(r, a);
    switch (pick("op", 5)) {
      case 0: {                          // copies
        Array c(r);
        same(c, a);
        if (n) { get(c[0]) = ~a.v[0]; same(r, a); }
        owned<T>(2 * n);
        Array o(m);
        fill(o, b);
        o = r;
        same(o, a);
        same(r, a);
        owned<T>(3 * n);
        Array &self = r;
        r = self;
        break;
      }
      case 1: {                          // moves
        Array o(m);
        fill(o, b);
        Array c(std::move(r));
        same(c, a);
        same(r, e);
        o.swap(c);
        same(o, a);
        same(c, b);
        owned<T>(n + m);
        r = std::move(o);
        break;
      }
      case 2:                            // larger
        r.Grow(n + m);
        kv_assert(r.size() == n + m, "the size that was asked for");
        for (unsigned i = 0; i < n; i++) kv_assert(get(r[i]) == a.v[i], "the elements");
        if (!std::is_trivial<T>::value) for (unsigned i = n; i < n + m; i++) kv_assert(get(r[i]) == 0, "new elements are default ones");
        owned<T>(n + m);
        if (n) r.Grow(n - 1);
        kv_assert(r.size() == n + m, "an array does not shrink when it grows");
        r.Shrink(n);
        break;
      case 3:                            // smaller
        r.Shrink(n + m);
        same(r, a);
        if (m < n) { r.Shrink(m); a.n = m; }
        owned<T>(a.n);
        break;
      case 4:
        d = r;
        same(d, a);
        owned<T>(2 * n);
        d = Array();
        break;
      default:
        r.swap(d);
        same(d, a);
        same(r, e);
        r = d;
    }
    same(r, a);
  }
  owned<T>(0);
  kv_assert(kv_live_heap() == g_heap, "no memory is lost");
  kv_cover("array");
}
HARNESS(ra_number) { arrays<uint32_t>(); }
HARNESS(ra_move) { arrays<V>(); }
HARNESS(ra_copy) { arrays<C>(); }
HARNESS(ra_realloc) { arrays<R>(); }
HARNESS(fv_vector)
{
  kv_unroll(8);
  g_heap = kv_live_heap();
  {
    unsigned n = pick("n", kMax);
    uint32_t a[kMax];
    kanon::FixedVector<V> f(n);
    kv_assert(f.size() == n && f.end() - f.begin() == (ptrdiff_t)n && f.data() == f.begin() && f.cbegin() == f.begin() && f.cend() == f.end(), "the size");
    for (unsigned i = 0; i < n; i++) f.Construct(i, a[i] = kv_u32("v"));
    kv_assert(g_values == (int)n, "every element exists once");
    for (unsigned i = 0; i < n; i++) kv_assert(f[i].v == a[i] && f.begin()[i].v == a[i], "the elements");
  }
  kv_assert(g_values == 0 && kv_live_heap() == g_heap, "every element is destroyed once");
  kv_cover("vector");
}
