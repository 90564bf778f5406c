// C04: chunk lists are byte streams.  Real ChunkList, Chunk, ForwardList and its algorithms for lists of any number
// of chunks in any state.  The nodes of one list are elements of an arena: [0,n) are the buffers in order,
// [n,n+f) the free chunks, the next ones are allocated.
#include "kv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <memory>
#include <new>
#include <string>
#include <utility>
#include "kanon/algo/forward_list/node_def.h"
// the allocation of nodes is a contract
static void *kv_alloc(size_t n, size_t size);
static void kv_free(void *p, size_t n, size_t size);
template <class T> struct std::allocator_traits<std::allocator<zstl::forward_list_detail::LinkedNode<T>>> {
  typedef zstl::forward_list_detail::LinkedNode<T> value_type;
  typedef std::allocator<value_type> allocator_type;
  typedef value_type *pointer;
  typedef value_type const *const_pointer;
  typedef size_t size_type;
  typedef ptrdiff_t difference_type;
  template <class U> using rebind_alloc = std::allocator<U>;
  static pointer allocate(allocator_type const &, size_t n) { return (pointer)kv_alloc(n, sizeof(value_type)); }
  static void deallocate(allocator_type const &, pointer p, size_t n) { kv_free(p, n, sizeof(value_type)); }
  template <class U, class... A> static void construct(allocator_type const &, U *p, A &&... a) { ::new ((void *)p) U(std::forward<A>(a)...); }
  template <class U> static void destroy(allocator_type const &, U *p) { p->~U(); }
};
#include "kanon/buffer/chunk_list.cc"
#include "kanon/algo/forward_list/algorithm.cc"
using namespace kanon;
typedef zstl::forward_list_detail::BaseLinkedNode BaseLinkedNode;
typedef zstl::forward_list_detail::LinkedNode<Chunk> Node;
enum { kStride = 4120, kData = 20, kMax = CHUNK_SIZE, kHead = 8 };
static_assert(sizeof(Node) + CHUNK_SIZE == kStride && sizeof(BaseLinkedNode *) == 8, "the layout of a node");

struct Slot { char b[kStride]; };
struct Old { uint32_t r, w; uint64_t s; };     // indices of a chunk before, bytes in the chunks before it
struct Arena {
  char *e;
  Old *old;
  uint64_t n, f, cap, made;    // buffers, free chunks, allocated since
  ChunkList *l;
};
static Arena g_a;
static uint64_t g_freed;       // nodes that were freed
static char *elem(Arena *a, uint64_t i) { return (char *)((Slot *)a->e + i); }
static void *&next(Arena *a, uint64_t i) { return *(void **)elem(a, i); }
static uint32_t &rd(Arena *a, uint64_t i) { return *(uint32_t *)(elem(a, i) + 8); }
static uint32_t &wr(Arena *a, uint64_t i) { return *(uint32_t *)(elem(a, i) + 12); }
static uint32_t &mx(Arena *a, uint64_t i) { return *(uint32_t *)(elem(a, i) + 16); }
static char &byte(Arena *a, uint64_t i, uint64_t j) { return elem(a, i)[kData + j]; }
static void *kv_alloc(size_t n, size_t size)
{
  Arena *a = &g_a;
  kv_assert(n >= 1 && n < (1ull << 40) && n * size >= kStride, "room for the chunk and its data");
  kv_assume(a->n + a->f + a->made < a->cap);
  return elem(a, a->n + a->f + a->made++);
}
static void kv_free(void *p, size_t n, size_t size)
{
  kv_assert(p != nullptr && kv_is_elem(p, g_a.e), "a chunk is freed");
  kv_assert(n * size >= kStride, "the size that was allocated");
  uint32_t &m = mx(&g_a, kv_index(p));
  kv_assert(m == kMax, "a chunk is freed once");
  m = 0;
  g_freed++;
}
static void *f_next(void *c, uint64_t i)
{
  Arena *a = (Arena *)c;
  return kv_select((i + 1 == a->n) | (i + 1 >= a->n + a->f), nullptr, elem(a, i + 1));
}
static uint64_t f_r(void *c, uint64_t i) { return ((Arena *)c)->old[i].r; }
static uint64_t f_w(void *c, uint64_t i) { return ((Arena *)c)->old[i].w; }
static uint64_t f_max(void *, uint64_t) { return kMax; }
static bool p_buf(void *c, uint64_t i) { Arena *a = (Arena *)c; return (a->old[i].r <= a->old[i].w) & (a->old[i].w <= kMax); }
static bool p_free(void *c, uint64_t i) { Arena *a = (Arena *)c; return (a->old[i].r == 0) & (a->old[i].w == 0); }
static bool p_sum(void *c, uint64_t i) { Arena *a = (Arena *)c; return (a->old[i + 1].s == a->old[i].s + (a->old[i].w - a->old[i].r)) & (a->old[i].s <= i * kMax); }
static zstl::forward_list_detail::Header &head(Arena *a) { return a->l->buffers_.header_; }
static zstl::forward_list_detail::Header &fhead(Arena *a) { return a->l->free_buffers_.header_; }
static void arena(Arena *a, uint64_t cap)
{
  a->cap = cap;
  a->made = 0;
  a->e = (char *)kv_family("nodes", kStride, cap, kData);
  a->old = (Old *)kv_family("old", sizeof(Old), cap + 1, ~0ul);
  kv_field_int(a->old, offsetof(Old, r), 4);
  kv_field_int(a->old, offsetof(Old, w), 4);
  kv_field_int(a->old, offsetof(Old, s), 8);
}
// an arbitrary list
static ChunkList *list(bool sums = true)
{
  Arena *a = &g_a;
  uint64_t cap = kv_size("cap");
  kv_assume(cap < (1ull << 28));
  a->n = kv_size("buffers");
  a->f = kv_size("free");
  kv_assume((a->n <= cap) & (a->f <= cap) & (a->n + a->f <= cap));
  arena(a, cap);
  kv_forall(p_buf, a, 0, a->n);
  kv_forall(p_free, a, a->n, a->n + a->f);
  if (sums) {
    a->old[0].s = 0;
    kv_forall(p_sum, a, 0, a->n);
  }
  kv_field_fn(a->e, 0, 8, 1, (void *)f_next, a);
  kv_field_fn(a->e, 8, 4, 0, (void *)f_r, a);
  kv_field_fn(a->e, 12, 4, 0, (void *)f_w, a);
  kv_field_fn(a->e, 16, 4, 0, (void *)f_max, a);
  ChunkList *l = new ChunkList;
  a->l = l;
  l->buffers_.header_.count = a->n;
  l->free_buffers_.header_.count = a->f;
  if (a->n) { l->buffers_.header_.next = (BaseLinkedNode *)elem(a, 0); l->buffers_.header_.prev = (BaseLinkedNode *)elem(a, a->n - 1); }
  if (a->f) { l->free_buffers_.header_.next = (BaseLinkedNode *)elem(a, a->n); l->free_buffers_.header_.prev = (BaseLinkedNode *)elem(a, a->n + a->f - 1); }
  return l;
}
// ---- Append.  Only the last chunk of a list is visible (frame: an access to one of the `g_base` chunks before it
// is a failed obligation), it is element 0.
static char const *g_d;       // the data
static uint64_t g_len, g_k, g_j, g_base, g_r, g_w, g_took;
static char g_b;              // byte g_j of chunk g_k before
static void *g_first;
static uint64_t cur(Arena *a) { return head(a).count - g_base; }
static uint64_t fcur(Arena *a) { return fhead(a).count; }
static bool t_head(void *c)
{
  Arena *a = (Arena *)c;
  uint64_t k = cur(a);
  return (k >= a->n) & (k <= a->cap) & (head(a).next == kv_select(g_base != 0, g_first, kv_select(k == 0, nullptr, elem(a, 0)))) &
         (head(a).prev == kv_select(k == 0, &head(a), elem(a, k - 1)));
}
static bool t_free(void *c)
{
  Arena *a = (Arena *)c;
  uint64_t k = cur(a) - a->n;
  return (fcur(a) == (k < a->f ? a->f - k : 0)) & (a->made == (k < a->f ? 0 : k - a->f)) &
         (fhead(a).next == kv_select(k < a->f, elem(a, a->n + k), nullptr)) & (fhead(a).prev == kv_select(k < a->f, elem(a, a->n + a->f - 1), &fhead(a)));
}
static bool t_rest(void *c, uint64_t i)
{
  Arena *a = (Arena *)c;
  return (i < cur(a)) | (i >= a->n + a->f) | ((next(a, i) == kv_select(i + 1 == a->n + a->f, nullptr, elem(a, i + 1))) & (rd(a, i) == 0) & (wr(a, i) == 0) & (mx(a, i) == kMax));
}
// the last chunk is full while data is left
static bool t_last(void *c) { Arena *a = (Arena *)c; uint64_t k = cur(a); return (k == 0) | ((wr(a, k - 1) == kMax) & (mx(a, k - 1) == kMax)); }
static uint64_t added(Arena *a) { return a->f - fcur(a) + a->made; }
static uint64_t used(Arena *a) { uint64_t k = added(a); return g_took + k * kMax - ((a->n == 0) & (k > 0) ? kHead : 0); }
static bool t_len(void *c, uint64_t j) { Arena *a = (Arena *)c; return (used(a) <= g_len) & (j == g_len - used(a)); }
static bool t_k(void *c)
{
  Arena *a = (Arena *)c;
  uint64_t k = g_k, m = cur(a);
  return (k >= m) | ((mx(a, k) == kMax) & (next(a, k) == kv_select(k + 1 == m, nullptr, elem(a, k + 1))) &
    (rd(a, k) == (k > 0 ? 0 : a->n ? g_r : kHead)) & (wr(a, k) == kMax));
}
// where byte j of chunk k is in the data
static uint64_t pos(Arena *a, uint64_t k, uint64_t j) { return k * kMax + j - (a->n ? g_w : kHead); }
static bool isnew(Arena *a, uint64_t k, uint64_t j) { return (k > 0) | (j >= (a->n ? g_w : kHead)); }
static bool t_byte(void *c)
{
  Arena *a = (Arena *)c;
  if (g_k >= cur(a)) return true;
  if (!isnew(a, g_k, g_j)) return (a->n == 0) | (byte(a, g_k, g_j) == g_b);
  uint64_t p = pos(a, g_k, g_j);
  if (p >= g_len) return true;
  return byte(a, g_k, g_j) == g_d[p];
}
static bool p_chunk(void *c, uint64_t i) { Arena *a = (Arena *)c; return i < a->n ? (a->old[i].r <= a->old[i].w) & (a->old[i].w <= kMax) : (a->old[i].r == 0) & (a->old[i].w == 0); }
static void append(uint64_t visible, bool bytes)
{
  Arena *a = &g_a;
  uint64_t cap = kv_size("cap");
  kv_assume(cap < (1ull << 28));
  a->n = visible;
  a->f = kv_size("free");
  g_base = kv_size("before");
  kv_assume((a->f <= cap) & (a->n + a->f <= cap) & (g_base < (1ull << 32)));
  if (!visible) g_base = 0;
  arena(a, cap);
  kv_forall(p_chunk, a, 0, a->n + a->f);
  kv_field_fn(a->e, 0, 8, 1, (void *)f_next, a);
  kv_field_fn(a->e, 8, 4, 0, (void *)f_r, a);
  kv_field_fn(a->e, 12, 4, 0, (void *)f_w, a);
  kv_field_fn(a->e, 16, 4, 0, (void *)f_max, a);
  g_first = kv_bytes("first", 0);
  ChunkList *l = new ChunkList;
  a->l = l;
  g_r = visible ? a->old[0].r : 0;
  g_w = visible ? a->old[0].w : 0;
  g_took = visible ? kMax - g_w : 0;
  l->buffers_.header_.count = g_base + a->n;
  l->free_buffers_.header_.count = a->f;
  if (a->n) { l->buffers_.header_.next = (BaseLinkedNode *)kv_select(g_base != 0, g_first, elem(a, 0)); l->buffers_.header_.prev = (BaseLinkedNode *)elem(a, 0); }
  if (a->f) { l->free_buffers_.header_.next = (BaseLinkedNode *)elem(a, a->n); l->free_buffers_.header_.prev = (BaseLinkedNode *)elem(a, a->n + a->f - 1); }
  g_k = kv_u64("k");
  g_j = kv_u64("j");
  kv_assume((g_k < a->cap) & (g_j < kMax));
  g_b = byte(a, g_k, g_j);
  uint64_t n = g_len = kv_size("len");
  kv_assume(n < (1ull << 40));
  g_d = (char *)kv_bytes("data", n);
  kv_template_only(true);
  kv_template0(t_head, a);
  kv_template0(t_free, a);
  kv_template0(t_last, a);
  kv_template_at(t_len, a);
  kv_template_all(t_rest, a);
  if (bytes) kv_template0(t_byte, a);
  else kv_template0(t_k, a);
  l->Append(g_d, n);
  uint64_t m = cur(a);
  if (bytes) {
    if (g_k < a->n && g_j < g_w) kv_assert(byte(a, g_k, g_j) == g_b, "what was there is kept");
    if (g_k < m && isnew(a, g_k, g_j) && pos(a, g_k, g_j) < n) { kv_assert(byte(a, g_k, g_j) == g_d[pos(a, g_k, g_j)], "the data follows in order"); kv_cover("new byte"); }
    return;
  }
  if (n <= g_took || n == 0) kv_assert(m == a->n && fcur(a) == a->f, "no chunk is added if the last has room");
  else {
    uint64_t rest = n - g_took + (a->n == 0 ? kHead : 0);
    kv_assert(m == a->n + (rest + kMax - 1) / kMax, "the number of chunks that the data needs");
    kv_cover("chunks are added");
  }
  kv_assert(t_head(a), "first and last chunk of the list");
  kv_assert(t_free(a), "free chunks are used first");
  if (g_k < m) {
    kv_assert(mx(a, g_k) == kMax, "a whole chunk");
    kv_assert(next(a, g_k) == kv_select(g_k + 1 == m, nullptr, elem(a, g_k + 1)), "the order of the chunks");
    kv_assert(rd(a, g_k) == (g_k > 0 ? 0 : a->n ? g_r : kHead), "what can be read starts where it did");
    uint64_t base = g_k > 0 ? 0 : a->n ? g_w : kHead;
    uint64_t left = n - (g_k == 0 ? 0 : pos(a, g_k, 0));
    kv_assert(wr(a, g_k) == (left > kMax - base ? kMax : base + left), "all data is readable");
  }
}
HARNESS(append_first) { append(0, false); }
HARNESS(append_first_bytes) { append(0, true); }
HARNESS(append_more) { append(1, false); }
HARNESS(append_more_bytes) { append(1, true); }
