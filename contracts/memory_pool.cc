// C10: the pool of fixed chunks (kanon/mem).  Real FixedChunkMemoryPool on pools that were used arbitrarily: up to four
// chunks taken, given back in any order (bounded; every loop is unrolled to its end), the contents are arbitrary.
#include "kv.h"
#include <new>
#include <type_traits>
#include <utility>
#define private public
#include "kanon/mem/fixed_chunk_memory_pool.h"
#include "kanon/mem/object_memory_pool.h"
#include "kanon/mem/object_pool_allocator.h"
#undef private
#include "kanon/mem/fixed_chunk_memory_pool.cc"
using namespace kanon;
enum { kMax = 7, kBytes = 24 };
static char *g_p[kMax];        // the chunks that were handed out
static bool g_live[kMax];
static unsigned g_block[kMax]; // the block of the chunk
static char g_byte[kMax][kBytes];
static unsigned g_k;           // chunks that were handed out
static size_t g_n, g_sz;       // chunks of a block, size of a chunk
static uint64_t g_heap;
static unsigned pick(char const *name, unsigned max)
{
  unsigned k = kv_fit(kv_u32(name), max);
  for (unsigned i = 0; i < max; i++) if (k == i) return i;
  kv_assume(k == max);
  return max;
}
static size_t size_of(unsigned i) { return i == 0 ? 1 : i == 1 ? 8 : i == 2 ? 12 : kBytes; }
static void kept()
{
  for (unsigned i = 0; i < g_k; i++)
    if (g_live[i])
      for (size_t j = 0; j < g_sz; j++) kv_assert(g_p[i][j] == g_byte[i][j], "a chunk in use keeps its bytes");
}
static void taken(void *q)
{
  kv_assert(q != nullptr, "a chunk is handed out");
  kv_assert(((uintptr_t)q & 7) == 0, "a chunk is aligned");
  for (unsigned i = 0; i < g_k; i++) if (g_live[i]) kv_assert(g_p[i] != (char *)q, "a chunk is handed out once");
  g_p[g_k] = (char *)q;
  g_live[g_k] = true;
  for (size_t j = 0; j < g_sz; j++) g_p[g_k][j] = g_byte[g_k][j] = (char)kv_u8("byte");
  g_k++;
}
static unsigned live()
{
  unsigned r = 0;
  for (unsigned i = 0; i < g_k; i++) if (g_live[i]) r++;
  return r;
}
static void counts(FixedChunkMemoryPool &p, size_t blocks)
{
  kv_assert(p.GetBlockNum() == blocks, "the number of blocks");
  kv_assert(kv_live_heap() == g_heap + blocks, "the blocks in memory are those of the pool");
  kv_assert(p.GetFreeChunkNum(g_sz) == blocks * g_n - live(), "the chunks that are not in use are free");
  kv_assert(p.GetUsage(g_sz) >= blocks * g_n * g_sz, "the usage covers the chunks");
  kv_assert(blocks == 0 || p.GetUsage(g_sz) / blocks * blocks == p.GetUsage(g_sz), "the usage is that of the blocks");
}
// an arbitrary history: k chunks are taken, some given back in any order
static size_t history(FixedChunkMemoryPool &p, unsigned most)
{
  unsigned k = pick("k", most);
  for (unsigned i = 0; i < k; i++) {
    taken(p.Malloc(g_sz));
    g_block[i] = i / g_n;
  }
  size_t blocks = (k + g_n - 1) / g_n;
  for (unsigned f = pick("frees", k); f > 0; f--) {
    unsigned i = pick("which", most - 1);
    kv_assume(i < k && g_live[i]);
    g_live[i] = false;
    p.Free(g_p[i]);
  }
  kept();
  return blocks;
}
static void world(unsigned per)
{
  kv_unroll(64);
  g_k = 0;
  g_n = 1 + pick("per block", per - 1);
  g_sz = size_of(pick("size", 3));
  g_heap = kv_live_heap();
}
HARNESS(mp_malloc)
{
  world(3);
  {
    FixedChunkMemoryPool p(g_n);
    kv_assert(p.GetChunkPerBlock() == g_n && p.GetBlockNum() == 0 && p.GetUsage(g_sz) == 0, "a new pool is empty");
    size_t b = history(p, 3);
    counts(p, b);
    kv_assert(p.Malloc(0) == nullptr, "nothing is handed out for no size");
    p.Free(nullptr);
    for (unsigned i = 0; i < 2; i++) {
      size_t room = b * g_n - live();
      taken(p.Malloc(g_sz));
      if (room == 0) b++;
      kept();
      counts(p, b);
    }
  }
  kv_assert(kv_live_heap() == g_heap, "the pool frees its blocks");
  kv_cover("pool");
}
HARNESS(mp_shrink)
{
  world(2);
  {
    FixedChunkMemoryPool p(g_n);
    size_t had = history(p, 3), b = 0;
    for (size_t j = 0; j < had; j++) {
      bool used = false;
      for (unsigned i = 0; i < g_k; i++) if (g_live[i] && g_block[i] == j) used = true;
      if (used) b++;
    }
    p.Shrink(g_sz);
    kept();
    counts(p, b);
    for (unsigned i = 0; i < 2; i++) {
      size_t room = b * g_n - live();
      taken(p.Malloc(g_sz));
      if (room == 0) b++;
      kept();
      counts(p, b);
    }
  }
  kv_assert(kv_live_heap() == g_heap, "the pool frees its blocks");
  kv_cover("shrink");
}
struct Obj {
  static unsigned made, gone;
  uint32_t a, b, c;
  Obj(uint32_t x) : a(x), b(x), c(x) { made++; }
  ~Obj() { gone++; }
};
unsigned Obj::made, Obj::gone;
HARNESS(mp_object)
{
  kv_unroll(64);
  g_heap = kv_live_heap();
  size_t n = 1 + pick("per block", 1);
  {
    ObjectMemoryPool<Obj> p(n);
    kv_assert(p.GetUsage() == 0, "a new pool is empty");
    void *a = p.Malloc(), *b = p.Malloc();
    kv_assert(a && b && a != b, "distinct chunks");
    kv_valid(a, sizeof(Obj));
    kv_valid(b, sizeof(Obj));
    kv_assert(kv_live_heap() == g_heap + (n == 1 ? 2 : 1), "a block holds n chunks");
    p.Free(a);
    void *c = p.Malloc();
    kv_assert(c == a, "a freed chunk is used again");
    p.Free(b);
    p.Free(c);
    p.Shrink();
    kv_assert(p.GetUsage() == 0 && kv_live_heap() == g_heap, "an unused pool shrinks to nothing");
  }
  Obj::made = Obj::gone = 0;
  {
    FixedChunkMemoryPool base(n);
    ObjectPoolAllocator<int> other(base);
    ObjectPoolAllocator<Obj> al(other);
    kv_assert(al.pool_ == &base, "a rebound allocator uses the same pool");
    Obj *o = al.allocate(1);
    uint32_t x = kv_u32("x");
    al.construct(o, x);
    kv_assert(o->a == x && o->b == x && o->c == x && Obj::made == 1, "the object is made from the arguments");
    al.destroy(o);
    kv_assert(Obj::gone == 1, "the object is destroyed once");
    al.deallocate(o, 1);
    kv_assert(base.GetFreeChunkNum(sizeof(Obj)) == n, "the chunk goes back to the pool");
    bool threw = false;
    try { al.allocate(2); } catch (...) { threw = true; }
    kv_assert(threw, "arrays are refused");
  }
  kv_cover("object");
}
