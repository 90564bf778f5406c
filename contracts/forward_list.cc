// C06: the forward list (kanon/algo/forward_list.h).  Real ForwardList on lists of up to three elements with arbitrary
// values (bounded; every loop is unrolled to its end); each operation is compared with the same on a plain array.
#include "kv.h"
#include <new>
#include <initializer_list>
#include <utility>
#include "kanon/algo/forward_list.h"
#include "kanon/algo/forward_list/algorithm.cc"
enum { kMax = 3, kAll = 12 };
static int g_values;           // values in existence
struct V {
  int32_t v;
  V() : v(0) { g_values++; }
  V(int32_t x) : v(x) { g_values++; }
  V(V const &o) : v(o.v) { g_values++; }
  V &operator=(V const &o) { v = o.v; return *this; }
  ~V() { g_values--; }
};
static bool operator==(V const &a, V const &b) { return a.v == b.v; }
static bool operator<(V const &a, V const &b) { return a.v < b.v; }
typedef zstl::ForwardList<V> List;
struct A {                     // the contents a list should have
  int32_t v[kAll];
  unsigned n;
  void push(int32_t x) { v[n++] = x; }
  void insert(unsigned at, int32_t x) { for (unsigned i = n; i > at; i--) v[i] = v[i - 1]; v[at] = x; n++; }
  void erase(unsigned at) { for (unsigned i = at; i + 1 < n; i++) v[i] = v[i + 1]; n--; }
};
static uint64_t g_heap;
static int g_base;
static unsigned pick(char const *name, unsigned max)
{
  unsigned k = kv_fit(kv_u32(name), max);
  for (unsigned i = 0; i < max; i++) if (k == i) return i;
  kv_assume(k == max);
  return max;
}
static void world()
{
  kv_unroll(80);
  g_heap = kv_live_heap();
  g_base = g_values;
}
static int32_t value(char const *name) { return kv_mode() == 1 ? (int32_t)kv_fix(4) : (int32_t)kv_u32(name); }
static void fill(List &l, A &a, unsigned most, bool sorted = false)
{
  a.n = 0;
  unsigned n = pick("n", most);
  for (unsigned i = 0; i < n; i++) {
    int32_t x = value("v");
    if (sorted && i) { if (kv_mode() == 1 && x < a.v[i - 1]) x = a.v[i - 1]; kv_assume(a.v[i - 1] <= x); }
    l.push_back(V(x));
    a.push(x);
  }
}
// the contents, the ends and the size of the list
static void same(List &l, A const &a)
{
  kv_assert(l.size() == a.n && l.empty() == (a.n == 0), "the size");
  List::Iterator it = l.before_begin();
  for (unsigned i = 0; i < a.n; i++) {
    it = it.next();
    kv_assert(it != l.end(), "no element is missing");
    kv_assert((*it).v == a.v[i], "the elements");
  }
  kv_assert(it.next() == l.end(), "the list ends behind the last element");
  kv_assert(l.before_end() == it, "the last element is known");
  kv_assert((a.n ? l.begin() : l.end()) == l.before_begin().next(), "the first element is known");
  if (a.n) kv_assert(l.front().v == a.v[0] && l.back().v == a.v[a.n - 1], "front and back");
}
static void owned(unsigned n)
{
  kv_assert(g_values == g_base + (int)n, "every element exists once");
  kv_assert(kv_live_heap() == g_heap + n, "no node is lost");
}
// the iterator that has i elements up to it
static List::Iterator at(List &l, unsigned i)
{
  List::Iterator it = l.before_begin();
  while (i--) ++it;
  return it;
}
HARNESS(fl_make)
{
  world();
  {
    A a, e;
    a.n = e.n = 0;
    unsigned n = pick("n", kMax);
    int32_t x = value("x");
    List l(n, V(x));
    for (unsigned i = 0; i < n; i++) a.push(x);
    same(l, a);
    owned(n);
    List c(l);
    same(c, a);
    same(l, a);
    owned(2 * n);
    List m(std::move(c));
    same(m, a);
    same(c, e);
    owned(2 * n);
    V arr[3] = {V(value("a")), V(value("b")), V(x)};
    A b;
    b.n = 0;
    unsigned k = pick("k", 3);
    for (unsigned i = 0; i < k; i++) b.push(arr[i].v);
    List r((V const *)arr, (V const *)arr + k);
    same(r, b);
    r = l;
    same(r, a);
    same(l, a);
    kv_assert(g_values == g_base + 3 + 3 * (int)n, "every element exists once");
    List t((V const *)arr, (V const *)arr + k);
    t.swap(r);
    same(t, a);
    same(r, b);
    List z;
    z = std::move(r);
    same(z, b);
    List &self = z;
    z = self;
    same(z, b);
    z.clear();
    same(z, e);
    z.push_back(V(x));
    e.push(x);
    same(z, e);
  }
  owned(0);
  kv_cover("make");
}
HARNESS(fl_init)
{
  world();
  {
    int32_t x = value("x"), y = value("y");
    List l{V(x), V(y), V(x)};
    A a;
    a.n = 0;
    a.push(x); a.push(y); a.push(x);
    same(l, a);
    owned(3);
    List d;
    a.n = 0;
    same(d, a);
  }
  owned(0);
  kv_cover("init");
}
HARNESS(fl_push)
{
  world();
  {
    List l;
    A a;
    fill(l, a, kMax);
    for (unsigned i = 0; i < 2; i++) {
      int32_t x = value("x");
      switch (pick("op", 4)) {
        case 0: l.push_front(V(x)); a.insert(0, x); break;
        case 1: l.push_back(V(x)); a.push(x); break;
        case 2: l.emplace_front(x); a.insert(0, x); break;
        case 3: l.emplace_back(x); a.push(x); break;
        default: {
          unsigned p = pick("p", kMax + 1);
          kv_assume(p <= a.n);
          l.insert_after(List::ConstIterator(at(l, p)), V(x));
          a.insert(p, x);
        }
      }
      same(l, a);
      owned(a.n);
    }
  }
  owned(0);
  kv_cover("push");
}
HARNESS(fl_insert)
{
  world();
  {
    List l;
    A a;
    fill(l, a, kMax);
    unsigned p = pick("p", kMax), k = pick("k", 2);
    kv_assume(p <= a.n);
    int32_t x = value("x");
    l.insert_after(List::ConstIterator(at(l, p)), (size_t)k, V(x));
    for (unsigned i = 0; i < k; i++) a.insert(p, x);
    same(l, a);
    V arr[2] = {V(value("a")), V(value("b"))};
    l.insert_after(List::ConstIterator(at(l, p)), (V const *)arr, (V const *)arr + 2);
    a.insert(p, arr[1].v);
    a.insert(p, arr[0].v);
    same(l, a);
    l.emplace_after(List::ConstIterator(at(l, p)), x);
    a.insert(p, x);
    same(l, a);
  }
  owned(0);
  kv_cover("insert");
}
HARNESS(fl_erase)
{
  world();
  {
    List l;
    A a;
    fill(l, a, kMax);
    kv_assume(a.n > 0);
    unsigned p = pick("p", kMax - 1);
    kv_assume(p < a.n);
    switch (pick("op", 4)) {
      case 0: l.pop_front(); a.erase(0); break;
      case 1: {
        auto r = l.erase_after(List::ConstIterator(at(l, p)));
        a.erase(p);
        kv_assert(r == at(l, p).next(), "what follows the erased element");
        break;
      }
      case 2: {
        unsigned q = p + pick("q", kMax - 1);
        kv_assume(q <= a.n);
        List::Iterator last = at(l, q).next();
        auto r = l.erase_after(List::ConstIterator(at(l, p)), List::ConstIterator(last));
        for (unsigned i = p; i < q; i++) a.erase(p);
        kv_assert(r == last, "what follows the erased elements");
        break;
      }
      case 3: {
        auto it = l.extract_after(List::ConstIterator(at(l, p)));
        kv_assert((*it).v == a.v[p], "the node of the element is given");
        int32_t x = a.v[p];
        a.erase(p);
        same(l, a);
        if (kv_bool("front")) { l.push_front(it); a.insert(0, x); }
        else { l.push_back(it); a.push(x); }
        break;
      }
      default: {
        auto it = l.extract_front();
        int32_t x = a.v[0];
        a.erase(0);
        same(l, a);
        unsigned k = pick("k", kMax - 1);
        kv_assume(k <= a.n);
        l.insert_after(List::ConstIterator(at(l, k)), it);
        a.insert(k, x);
      }
    }
    same(l, a);
    owned(a.n);
    l.push_back(V(7));
    a.push(7);
    same(l, a);
    l.clear();
    a.n = 0;
    same(l, a);
    owned(0);
  }
  owned(0);
  kv_cover("erase");
}
HARNESS(fl_assign)
{
  world();
  {
    List l;
    A a;
    fill(l, a, kMax);
    unsigned k = pick("k", kMax + 1);
    int32_t x = value("x");
    switch (pick("op", 3)) {
      case 0: l.assign((size_t)k, V(x)); a.n = 0; for (unsigned i = 0; i < k; i++) a.push(x); break;
      case 1: l.resize(k, V(x)); while (a.n > k) a.n--; while (a.n < k) a.push(x); break;
      case 2: l.resize(k); while (a.n > k) a.n--; while (a.n < k) a.push(0); break;
      default: {
        List o;
        A b;
        fill(o, b, kMax);
        l.assign(o.begin(), o.end());
        a = b;
        same(o, b);
      }
    }
    same(l, a);
    owned(a.n);
    l.push_back(V(x));
    a.push(x);
    same(l, a);
  }
  owned(0);
  kv_cover("assign");
}
HARNESS(fl_splice)
{
  world();
  {
    List l, o;
    A a, b;
    fill(l, a, 2);
    fill(o, b, kMax);
    unsigned p = pick("p", 2), q = pick("q", kMax);
    kv_assume(p <= a.n && q <= b.n);
    List::ConstIterator pos = at(l, p);
    switch (pick("op", 2)) {
      case 0:
        l.splice_after(pos, o);
        for (unsigned i = b.n; i-- > 0;) a.insert(p, b.v[i]);
        b.n = 0;
        break;
      case 1:
        kv_assume(q < b.n);
        l.splice_after(pos, o, List::ConstIterator(at(o, q)));
        a.insert(p, b.v[q]);
        b.erase(q);
        break;
      default: {
        unsigned e = q + pick("e", kMax);
        kv_assume(e <= b.n);
        l.splice_after(pos, o, List::ConstIterator(at(o, q)), List::ConstIterator(at(o, e).next()));
        for (unsigned i = e; i-- > q;) { a.insert(p, b.v[i]); b.erase(i); }
      }
    }
    same(l, a);
    same(o, b);
    owned(a.n + b.n);
    o.push_back(V(1));
    b.push(1);
    same(o, b);
  }
  owned(0);
  kv_cover("splice");
}
static void permuted(A const &s, List &l)  // l is sorted and has the elements of s
{
  kv_assert(l.size() == s.n, "the size");
  A r;
  r.n = 0;
  for (auto it = l.begin(); it != l.end(); ++it) { if (r.n < kAll) r.push((*it).v); }
  for (unsigned i = 0; i + 1 < r.n; i++) kv_assert(r.v[i] <= r.v[i + 1], "the elements are sorted");
  for (unsigned i = 0; i < s.n; i++) {
    unsigned x = 0, y = 0;
    for (unsigned j = 0; j < s.n; j++) { x += s.v[j] == s.v[i]; y += r.v[j] == s.v[i]; }
    kv_assert(x == y, "the elements are the same");
  }
  same(l, r);
}
HARNESS(fl_merge)
{
  world();
  {
    List l, o;
    A a, b;
    fill(l, a, 2, true);
    fill(o, b, 2, true);
    l.merge(o);
    for (unsigned i = 0; i < b.n; i++) a.push(b.v[i]);
    b.n = 0;
    same(o, b);
    permuted(a, l);
    owned(a.n);
  }
  owned(0);
  kv_cover("merge");
}
HARNESS(fl_sort)
{
  world();
  {
    List l;
    A a;
    fill(l, a, kMax);
    l.sort();
    permuted(a, l);
    owned(a.n);
  }
  owned(0);
  kv_cover("sort");
}
HARNESS(fl_sort2)
{
  world();
  {
    List l;
    A a;
    fill(l, a, kMax);
    l.sort2();
    permuted(a, l);
    owned(a.n);
  }
  owned(0);
  kv_cover("sort");
}
HARNESS(fl_remove)
{
  world();
  {
    List l;
    A a, b;
    fill(l, a, kMax);
    int32_t x = value("x");
    b.n = 0;
    for (unsigned i = 0; i < a.n; i++) if (a.v[i] != x) b.push(a.v[i]);
    kv_assert(l.remove(V(x)) == a.n - b.n, "the number of elements that were removed");
    same(l, b);
    owned(b.n);
    a.n = 0;
    for (unsigned i = 0; i < b.n; i++) if (!a.n || a.v[a.n - 1] != b.v[i]) a.push(b.v[i]);
    kv_assert(l.unique() == b.n - a.n, "the number of repeated elements");
    same(l, a);
    owned(a.n);
  }
  owned(0);
  kv_cover("remove");
}
HARNESS(fl_reverse)
{
  world();
  {
    List l;
    A a, b;
    fill(l, a, kMax);
    l.reverse();
    b.n = 0;
    for (unsigned i = a.n; i-- > 0;) b.push(a.v[i]);
    same(l, b);
    owned(b.n);
    l.push_back(V(5));
    b.push(5);
    l.reverse();
    for (unsigned i = 0, j = b.n - 1; i < j; i++, j--) { int32_t t = b.v[i]; b.v[i] = b.v[j]; b.v[j] = t; }
    same(l, b);
  }
  owned(0);
  kv_cover("reverse");
}
HARNESS(fl_search)
{
  world();
  {
    List l;
    A a;
    fill(l, a, kMax);
    int32_t x = value("x");
    unsigned p = pick("p", kMax), i = p;
    kv_assume(p <= a.n);
    while (i < a.n && a.v[i] != x) i++;
    auto it = l.search_before(V(x), List::ConstIterator(at(l, p)));
    kv_assert(i == a.n ? it == l.end() : it == at(l, i), "the place before the first such element");
    for (i = 0; i < a.n && a.v[i] != x; i++) {}
    it = l.search_before(V(x));
    kv_assert(i == a.n ? it == l.end() : it == at(l, i), "the place before the first such element");
    same(l, a);
  }
  owned(0);
  kv_cover("search");
}
HARNESS(fl_compare)
{
  world();
  {
    List l, o;
    A a, b;
    fill(l, a, 2);
    fill(o, b, 2);
    unsigned i = 0;
    while (i < a.n && i < b.n && a.v[i] == b.v[i]) i++;
    bool eq = i == a.n && i == b.n, lt = i == a.n ? i < b.n : i < b.n && a.v[i] < b.v[i];
    kv_assert((l == o) == eq && (l != o) == !eq, "equality");
    kv_assert((l < o) == lt && (l >= o) == !lt, "the order");
    kv_assert((l > o) == (!lt && !eq) && (l <= o) == (lt || eq), "the order");
    swap(l, o);
    same(l, b);
    same(o, a);
  }
  owned(0);
  kv_cover("compare");
}
