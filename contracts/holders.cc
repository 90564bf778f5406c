// C11: Any, UniqueAny, RawAny, optional and the pointer helpers of kanon/util hold exactly what they were given.
#include "kv.h"
#include <memory>
#include <new>
#include <utility>
#include "kanon/util/any.h"
#include "kanon/util/unique_any.h"
#include "kanon/util/raw_any.h"
#include "kanon/util/optional.h"
#define NDEBUG                 // down_pointer_cast checks with dynamic_cast otherwise
#include "kanon/util/ptr.h"
using namespace kanon;
static int g_values;           // values in existence
static uint64_t g_heap;
struct V {
  uint64_t v;
  V() : v(0) { g_values++; }
  explicit V(uint64_t x) : v(x) { g_values++; }
  V(V const &o) : v(o.v) { g_values++; }
  V(V &&o) : v(o.v) { o.v = ~o.v; g_values++; }
  V &operator=(V const &o) { v = o.v; return *this; }
  V &operator=(V &&o) { uint64_t x = o.v; o.v = ~o.v; v = x; return *this; }
  ~V() { g_values--; }
};
struct N { int n; };
struct W { uint64_t v; };
struct M {                     // can only be moved
  V x;
  explicit M(uint64_t v) : x(v) {}
  M(M &&o) : x(std::move(o.x)) {}
  M &operator=(M &&o) { x = std::move(o.x); return *this; }
  M(M const &) = delete;
};
struct First { uint64_t f; virtual ~First() {} };
struct Second { uint64_t s; virtual ~Second() { g_values--; } Second() : s(0) { g_values++; } };
struct Both : First, Second { uint64_t b; };
static void world() { kv_unroll(8); g_heap = kv_live_heap(); }
static void gone(int n, unsigned h) { kv_assert(g_values == n, "every value exists once"); kv_assert(kv_live_heap() == g_heap + h, "nothing is lost"); }
static void has(Any const &a, uint64_t x)
{
  V *p = AnyCast<V>(a);
  kv_assert(!a.empty() && p != nullptr && p->v == x, "the value that was put in");
  kv_assert(SafeAnyCast<V>(a) == p && UnsafeAnyCast<V>(a) == p && a.type() == typeid(V), "its type");
  kv_assert(SafeAnyCast<N>(a) == nullptr, "a cast to another type gives nothing");
}
static void none(Any const &a)
{
  kv_assert(a.empty(), "nothing is held");
  kv_assert(SafeAnyCast<V>(a) == nullptr && SafeAnyCast<N>(a) == nullptr, "a cast of an empty Any gives nothing");
}
HARNESS(an_any)
{
  world();
  {
    uint64_t x = kv_u64("x"), y = kv_u64("y");
    V v(x);
    Any e, a(v), b(V{y});
    none(e);
    has(a, x);
    has(b, y);
    kv_assert(v.v == x, "the argument is kept");
    gone(3, 2);
    Any c(a), d(e);
    has(c, x);
    has(a, x);
    none(d);
    AnyCast<V>(c)->v = y;
    has(a, x);
    has(c, y);
    gone(4, 3);
    Any m(std::move(c));
    has(m, y);
    none(c);
    gone(4, 3);
    c = a;
    has(c, x);
    has(a, x);
    Any &self = c;
    c = self;
    has(c, x);
    a = e;
    none(a);
    gone(4, 3);
    a = std::move(m);
    has(a, y);
    a.swap(c);
    has(a, x);
    has(c, y);
    a = N{5};
    kv_assert(AnyCast<N>(a)->n == 5 && SafeAnyCast<V>(a) == nullptr, "the value that was put in");
    c = V{x};
    has(c, x);
    Any h;
    a = std::move(h);
    none(a);
    h = std::move(c);
    has(h, x);
    c = std::move(a);
    none(c);
    Any const k(W{y});
    kv_assert(AnyCast<W>(k)->v == y && SafeAnyCast<V>(k) == nullptr, "the value that was put in");
    h = k;
    kv_assert(AnyCast<W>(h)->v == y && AnyCast<W>(k)->v == y, "the value that was put in");
    h.swap(c);
    none(h);
    c.clear();
    none(c);
    c.clear();
    none(c);
    Any l(std::move(c));
    none(l);
    none(c);
  }
  gone(0, 0);
  kv_cover("any");
}
static void uhas(UniqueAny const &a, uint64_t x)
{
  M *p = UniqueAnyCast<M>(a);
  kv_assert(!a.empty() && p != nullptr && p->x.v == x, "the value that was put in");
  kv_assert(SafeUniqueAnyCast<M>(a) == p && UnsafeUniqueAnyCast<M>(a) == p && AnyCast<M>(a) == p && a.type() == typeid(M), "its type");
  kv_assert(SafeUniqueAnyCast<N>(a) == nullptr && SafeAnyCast<V>(a) == nullptr, "a cast to another type gives nothing");
}
static void unone(UniqueAny const &a)
{
  kv_assert(a.empty(), "nothing is held");
  kv_assert(SafeUniqueAnyCast<M>(a) == nullptr && SafeAnyCast<N>(a) == nullptr, "a cast of an empty Any gives nothing");
}
HARNESS(an_unique)
{
  world();
  {
    uint64_t x = kv_u64("x"), y = kv_u64("y");
    UniqueAny e, a(M{x}), b(M{y});
    unone(e);
    uhas(a, x);
    uhas(b, y);
    gone(2, 2);
    UniqueAny m(std::move(a));
    uhas(m, x);
    unone(a);
    a = std::move(b);
    uhas(a, y);
    a.swap(m);
    uhas(a, x);
    uhas(m, y);
    gone(2, 2);
    a = M{y};
    uhas(a, y);
    gone(2, 2);
    m.clear();
    unone(m);
    m.clear();
    gone(1, 1);
    UniqueAny h, l(std::move(h));
    unone(l);
    h = std::move(a);
    uhas(h, y);
    h = std::move(l);
    unone(h);
  }
  gone(0, 0);
  kv_cover("unique");
}
HARNESS(an_raw)
{
  world();
  V v(kv_u64("x")), w(kv_u64("y"));
  {
    RawAny e, a(v), b((void *)&w);
    kv_assert(e.empty() && !a.empty() && AnyCast<V>(e) == nullptr, "nothing is held");
    kv_assert(AnyCast<V>(a) == &v && AnyCast2<V *>(a) == &v && SafeAnyCast<V>(b) == &w && UnsafeAnyCast2<V *>(b) == &w, "the object");
    RawAny c(a);
    c.swap(b);
    kv_assert(AnyCast<V>(c) == &w && AnyCast<V>(b) == &v && AnyCast<V>(a) == &v, "the objects are swapped");
    c = v;
    kv_assert(AnyCast<V>(c) == &v, "the object");
    c.clear();
    kv_assert(c.empty(), "nothing is held");
    RawAny d(std::move(a));
    kv_assert(AnyCast<V>(d) == &v, "the object");
    c = d;
    kv_assert(AnyCast<V>(c) == &v && AnyCast<V>(d) == &v, "the object");
  }
  kv_assert(g_values == 2, "the objects are not deleted");
  kv_cover("raw");
}
static void ohas(optional<V> const &o, uint64_t x)
{
  kv_assert(o.has_value() && (bool)o && o.value().v == x && (*o).v == x && o->v == x, "the value that was put in");
}
HARNESS(an_optional)
{
  world();
  {
    uint64_t x = kv_u64("x"), y = kv_u64("y");
    V v(x);
    optional<V> e, a(v), b(V{y}), n(make_null_optional<V>()), k(make_optional(V{x}));
    kv_assert(!e.has_value() && !e && !n && v.v == x, "nothing is held");
    ohas(a, x);
    ohas(b, y);
    ohas(k, x);
    optional<V> c(a), d(e);
    ohas(c, x);
    kv_assert(!d, "nothing is held");
    c->v = y;
    (*k).v = y;
    ohas(c, y);
    ohas(a, x);
    ohas(k, y);
    optional<V> m(std::move(c));
    ohas(m, y);
    c = a;
    ohas(c, x);
    ohas(a, x);
    c = e;
    kv_assert(!c && !e, "nothing is held");
    c = std::move(m);
    ohas(c, y);
    c = v;
    ohas(c, x);
    V moved(*std::move(c));
    kv_assert(moved.v == x, "the value is moved out");
    a.SetInvalid();
    kv_assert(!a.has_value(), "nothing is held");
    uint32_t s = kv_u32("s");
    optional<uint32_t> q(s), z;
    optional<uint64_t> r(q), t(z);
    kv_assert(r.has_value() && *r == s && !t.has_value(), "a narrower value is converted");
    t = q;
    r = z;
    kv_assert(t.has_value() && *t == s && !r.has_value(), "a narrower value is converted");
    r = std::move(q);
    kv_assert(r && *r == s, "a narrower value is converted");
    r = std::move(z);
    kv_assert(!r, "nothing is held");
    optional<uint64_t> i(std::move(z)), j(optional<uint32_t>{s});
    kv_assert(!i && j && *j == s, "a narrower value is converted");
    r = x;
    i = y;
    kv_assert(r && *r == x && i && *i == y, "the value that was put in");
    i = std::move(r);
    kv_assert(i && *i == x, "the value that was put in");
    i.SetInvalid();
    r = i;
    kv_assert(!r && !i, "nothing is held");
    r = s;
    kv_assert(r && *r == s, "a narrower value is converted");
    optional<V> f, g(std::move(f));
    b = std::move(g);
    kv_assert(!f && !g && !b, "nothing is held");
  }
  gone(0, 0);
  kv_cover("optional");
}
HARNESS(an_pointers)
{
  world();
  V v(1);
  {
    KeyUniquePtr<V> k = MakeUniquePtrAsKey(&v);
    kv_assert(k.get() == &v && GetPointer(k) == &v && GetPointer(&v) == &v, "the pointer");
  }
  kv_assert(g_values == 1, "a key does not delete");
  {
    KeyUniquePtr<V> k(new V(2));
    gone(2, 1);
  }
  gone(1, 0);
  {
    V *p = new V(3);
    KANON_DEFER_DELETE(V, p);
    gone(2, 1);
  }
  gone(1, 0);
  {
    std::unique_ptr<Both> o(new Both);
    o->b = v.v;
    Second *s = o.get();
    First *f = o.get();
    kv_assert(down_pointer_cast<Both>(s) == o.get() && down_pointer_cast<Both>(f) == o.get(), "a down cast gives the derived object");
  }
  gone(1, 0);
  kv_cover("pointers");
}
