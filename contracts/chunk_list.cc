// C04, C25: chunk lists are byte streams; writing them to a descriptor.  Real ChunkList, Chunk, ForwardList and
// ChunkListWriteFd over lists of up to 3 chunks and 2 free chunks (bounded; every loop is unrolled to its end), the
// bytes, the indices of every chunk and all sizes are arbitrary.
#include "kv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <memory>
#include <new>
#include <string>
#include <utility>
#include "kanon/algo/forward_list/node_def.h"
// the allocation of nodes is a contract
#include <errno.h>
#include <sys/uio.h>
#include <unistd.h>
static void *kv_alloc(size_t n, size_t size);
static void kv_free(void *p, size_t n, size_t size);
template <class T> struct std::allocator_traits<std::allocator<zstl::forward_list_detail::LinkedNode<T>>> {
  typedef zstl::forward_list_detail::LinkedNode<T> value_type;
  typedef std::allocator<value_type> allocator_type;
  typedef value_type *pointer;
  typedef value_type const *const_pointer;
  typedef size_t size_type;
  typedef ptrdiff_t difference_type;
  template <class U> using rebind_alloc = std::allocator<U>;
  static pointer allocate(allocator_type const &, size_t n) { return (pointer)kv_alloc(n, sizeof(value_type)); }
  static void deallocate(allocator_type const &, pointer p, size_t n) { kv_free(p, n, sizeof(value_type)); }
  template <class U, class... A> static void construct(allocator_type const &, U *p, A &&... a) { ::new ((void *)p) U(std::forward<A>(a)...); }
  template <class U> static void destroy(allocator_type const &, U *p) { p->~U(); }
};
static ssize_t kv_write(int fd, void const *p, size_t n);
static ssize_t kv_writev(int fd, struct iovec const *v, int n);
#define write kv_write
#define writev kv_writev
#include "kanon/net/sock_api.h"
#include "kanon/buffer/chunk_list.cc"
#include "kanon/algo/forward_list/algorithm.cc"
#include "kanon/linux/net/chunk_list.cc"
using namespace kanon;
typedef zstl::forward_list_detail::BaseLinkedNode BaseLinkedNode;
typedef zstl::forward_list_detail::LinkedNode<Chunk> Node;
enum { kStride = 4120, kData = 20, kMax = CHUNK_SIZE, kHead = 8, kCap = 16 };
static_assert(sizeof(Node) + CHUNK_SIZE == kStride && sizeof(BaseLinkedNode *) == 8, "the layout of a node");
struct Slot { char b[kStride]; };
static char *g_e;
static unsigned g_made;        // chunks in existence
static unsigned g_freed;       // chunks that were freed
static char *elem(unsigned i) { return (char *)((Slot *)g_e + i); }
static uint32_t &rd(void *p) { return *(uint32_t *)((char *)p + 8); }
static uint32_t &wr(void *p) { return *(uint32_t *)((char *)p + 12); }
static uint32_t &mx(void *p) { return *(uint32_t *)((char *)p + 16); }
static char *payload(void *p) { return (char *)p + kData; }
static void *kv_alloc(size_t n, size_t size)
{
  kv_assert(n >= 1 && n < (1ull << 40) && n * size >= kStride, "room for the chunk and its data");
  kv_assert(g_made < kCap, "no more chunks than needed are allocated");
  return elem(g_made++);
}
static void kv_free(void *p, size_t n, size_t size)
{
  kv_assert(p != nullptr && kv_is_elem(p, g_e), "a chunk is freed");
  kv_assert(n * size >= kStride, "the size that was allocated");
  kv_assert(mx(p) == kMax, "a chunk is freed once");
  mx(p) = 0;
  g_freed++;
}
static void world()
{
  if (g_e) return;
  g_e = (char *)kv_family("nodes", kStride, kCap, kData);
  kv_unroll(24);
}
// an arbitrary list of n chunks and f free chunks
static void fill(ChunkList *l, unsigned n, unsigned f)
{
  world();
  void **link = (void **)&l->buffers_.header_.next;
  for (unsigned i = 0; i < n; i++) {
    void *p = elem(g_made++);
    uint32_t w = kv_fit(kv_u32("w"), kMax), r = kv_fit(kv_u32("r"), w);
    kv_assume((r <= w) & (w <= kMax));
    rd(p) = r; wr(p) = w; mx(p) = kMax;
    *link = p;
    link = (void **)p;
    l->buffers_.header_.prev = (BaseLinkedNode *)p;
  }
  *link = nullptr;
  l->buffers_.header_.count = n;
  link = (void **)&l->free_buffers_.header_.next;
  for (unsigned i = 0; i < f; i++) {
    void *p = elem(g_made++);
    rd(p) = 0; wr(p) = 0; mx(p) = kMax;
    *link = p;
    link = (void **)p;
    l->free_buffers_.header_.prev = (BaseLinkedNode *)p;
  }
  *link = nullptr;
  l->free_buffers_.header_.count = f;
}
static unsigned pick(char const *name, unsigned max)
{
  uint32_t k = kv_fit(kv_u32(name), max);
  for (unsigned i = 0; i < max; i++) if (k == i) return i;
  kv_assume(k == max);
  return max;
}
// the abstraction: the bytes of a list in order
static uint64_t total(ChunkList *l)
{
  uint64_t s = 0;
  void *p = l->buffers_.header_.next;
  for (unsigned i = 0; i < kCap && p; i++, p = *(void **)p) s += wr(p) - rd(p);
  return s;
}
static char at(ChunkList *l, uint64_t k)
{
  void *p = l->buffers_.header_.next;
  for (unsigned i = 0; i < kCap && p; i++, p = *(void **)p) {
    uint64_t n = wr(p) - rd(p);
    if (k < n) return payload(p)[rd(p) + k];
    k -= n;
  }
  kv_assert(false, "a byte of the list");
  return 0;
}
static void valid_list(zstl::forward_list_detail::Header &h, bool free)
{
  unsigned n = 0;
  void *last = &h, *p = h.next;
  for (; n < kCap && p; n++, p = *(void **)p) {
    kv_assert(mx(p) == kMax, "a chunk in use is not freed");
    kv_assert(rd(p) <= wr(p) && wr(p) <= kMax, "the indices of a chunk are in order");
    if (free) kv_assert(rd(p) == 0 && wr(p) == 0, "a free chunk is empty");
    last = p;
  }
  kv_assert(p == nullptr && h.count == n, "the number of chunks");
  kv_assert(h.prev == last, "the last chunk");
}
static void valid(ChunkList *l)
{
  valid_list(l->buffers_.header_, false);
  valid_list(l->free_buffers_.header_, true);
  kv_assert(l->GetChunkSize() == l->buffers_.header_.count && l->GetFreeChunkSize() == l->free_buffers_.header_.count, "the sizes of the lists");
  kv_assert(l->IsEmpty() == (l->buffers_.header_.count == 0) && l->HasReadable() == !l->IsEmpty(), "empty if there is no chunk");
  kv_assert(l->GetReadableSize() == total(l), "GetReadableSize counts the bytes of all chunks");
}
static void no_leak(ChunkList *l) { kv_assert(l->GetChunkSize() + l->GetFreeChunkSize() == g_made - g_freed, "no chunk is lost"); }
struct Byte { uint64_t k, n; char c; bool any; };   // byte k of the n bytes of a list
static Byte pick_byte(ChunkList *l)
{
  // byte j of one of its chunks
  Byte b{0, total(l), 0, false};
  uint64_t j = kv_u64("j");
  unsigned c = kv_fit(kv_u32("chunk"), 3), i = 0;
  for (void *p = l->buffers_.header_.next; i < kCap && p; i++, p = *(void **)p) {
    if (c == i) {
      if (j < wr(p) - rd(p)) {
        b.any = true;
        b.k += j;
        b.c = payload(p)[rd(p) + j];
      }
      break;
    }
    b.k += wr(p) - rd(p);
  }
  return b;
}
// ---- append
template <class F> static void appends(unsigned chunks, unsigned free, unsigned n_max, F f)
{
  ChunkList *l = new ChunkList;
  fill(l, chunks, free);
  Byte b = pick_byte(l);
  unsigned made = g_made;
  uint64_t room = chunks ? kMax - wr(l->buffers_.header_.prev) : 0, had = l->GetFreeChunkSize();
  uint64_t n = kv_fit(kv_size("len"), n_max);
  kv_assume(n <= n_max);
  char *d = (char *)kv_bytes("data", n);
  uint64_t q = kv_u64("q");
  char c = q < n ? d[q] : 0;
  f(l, d, n);
  valid(l);
  kv_assert(total(l) == b.n + n, "append: the list grows by the bytes that were given");
  if (b.any) { kv_assert(at(l, b.k) == b.c, "append: the bytes before keep their place"); }
  if (q < n) { kv_assert(at(l, b.n + q) == c, "append: the bytes follow in order"); kv_cover("appended"); }
  uint64_t need = n <= room ? 0 : (n - room + (chunks ? 0 : kHead) + kMax - 1) / kMax;
  kv_assert(l->GetChunkSize() == chunks + need, "append: as many chunks as the bytes need");
  kv_assert(g_made - made == (need > had ? need - had : 0), "append: free chunks are used first");
  if (!chunks && n) kv_assert(rd(l->buffers_.header_.next) == kHead, "the first chunk of a list keeps room for a header");
  no_leak(l);
}
static void append_data(unsigned chunks, unsigned free, unsigned n) { appends(chunks, free, n, [](ChunkList *l, char *d, uint64_t n) { l->Append(d, n); }); }
HARNESS(append0) { append_data(0, pick("free", 2), 2 * kMax + 5); }
HARNESS(append0_free) { append_data(0, 3 + pick("free", 1), 16); }
HARNESS(append1_free) { append_data(1, 3 + pick("free", 1), 16); }
HARNESS(append1) { append_data(1, 0, 2 * kMax + 5); }
HARNESS(append1_free1) { append_data(1, 1, 2 * kMax + 5); }
HARNESS(append1_free2) { append_data(1, 2, 2 * kMax + 5); }
HARNESS(append2) { append_data(2, 0, kMax + 5); }
HARNESS(append2_free) { append_data(2, 1, kMax + 5); }
HARNESS(append_view) { appends(1, 0, kMax + 5, [](ChunkList *l, char *d, uint64_t n) { l->Append(StringView(d, n)); }); }
template <class T, class F> static void append_int(unsigned chunks, F f)
{
  ChunkList *l = new ChunkList;
  fill(l, chunks, pick("free", 1));
  Byte b = pick_byte(l);
  uint64_t v = kv_u64("value");
  f(l, (T)v);
  valid(l);
  kv_assert(total(l) == b.n + sizeof(T), "an integer takes as many bytes as its width");
  if (b.any) kv_assert(at(l, b.k) == b.c, "the bytes before keep their place");
  for (unsigned i = 0; i < sizeof(T); i++) kv_assert((uint8_t)at(l, b.n + i) == (uint8_t)(v >> (8 * (sizeof(T) - 1 - i))), "an integer is appended in network byte order");
}
template <class T, class F> static void append_ints(F f) { append_int<T>(pick("chunks", 1), f); }
HARNESS(append_8) { append_ints<uint8_t>([](ChunkList *l, uint8_t v) { l->Append8(v); }); }
HARNESS(append_16) { append_ints<uint16_t>([](ChunkList *l, uint16_t v) { l->Append16(v); }); }
HARNESS(append_32) { append_ints<uint32_t>([](ChunkList *l, uint32_t v) { l->Append32(v); }); }
HARNESS(append_64) { append_ints<uint64_t>([](ChunkList *l, uint64_t v) { l->Append64(v); }); }
// ---- prepend
static void prepend_list(ChunkList *l, uint64_t n)
{
  unsigned chunks = pick("chunks", 2);
  fill(l, chunks, pick("free", chunks ? 1 : 4));
  if (chunks) kv_assume((rd(l->buffers_.header_.next) >= kHead));
  kv_assume(n <= kHead);
}
HARNESS(prepend)
{
  ChunkList *l = new ChunkList;
  uint64_t n = kv_size("len");
  prepend_list(l, n);
  Byte b = pick_byte(l);
  char *d = (char *)kv_bytes("data", n);
  l->Prepend(d, n);
  valid(l);
  kv_assert(total(l) == b.n + n, "prepend: the list grows by the header");
  if (b.any) kv_assert(at(l, b.k + n) == b.c, "prepend: the bytes follow the header");
  uint64_t q = kv_u64("q");
  if (q < n) { kv_assert(at(l, q) == d[q], "prepend: the header comes first"); kv_cover("header"); }
  no_leak(l);
}
template <class T, class F> static void prepend_int(F f)
{
  ChunkList *l = new ChunkList;
  prepend_list(l, sizeof(T));
  Byte b = pick_byte(l);
  uint64_t v = kv_u64("value");
  f(l, (T)v);
  valid(l);
  kv_assert(total(l) == b.n + sizeof(T), "an integer takes as many bytes as its width");
  if (b.any) kv_assert(at(l, b.k + sizeof(T)) == b.c, "the bytes follow the header");
  for (unsigned i = 0; i < sizeof(T); i++) kv_assert((uint8_t)at(l, i) == (uint8_t)(v >> (8 * (sizeof(T) - 1 - i))), "an integer is prepended in network byte order");
}
HARNESS(prepend_8) { prepend_int<uint8_t>([](ChunkList *l, uint8_t v) { l->Prepend8(v); }); }
HARNESS(prepend_16) { prepend_int<uint16_t>([](ChunkList *l, uint16_t v) { l->Prepend16(v); }); }
HARNESS(prepend_32) { prepend_int<uint32_t>([](ChunkList *l, uint32_t v) { l->Prepend32(v); }); }
HARNESS(prepend_64) { prepend_int<uint64_t>([](ChunkList *l, uint64_t v) { l->Prepend64(v); }); }
// ---- read
template <class T, class F> static void read_int(F f, bool consume)
{
  ChunkList *l = new ChunkList;
  fill(l, 1 + pick("more chunks", 1), pick("free", 1));
  void *p = l->buffers_.header_.next;
  kv_assume(wr(p) - rd(p) >= sizeof(T));
  Byte b = pick_byte(l);
  uint64_t want = 0;
  for (unsigned i = 0; i < sizeof(T); i++) want = want << 8 | (uint8_t)at(l, i);
  kv_assert(f(l) == want, "an integer is read in network byte order");
  valid(l);
  uint64_t k = consume ? sizeof(T) : 0;
  kv_assert(total(l) == b.n - k, "reading consumes the integer, looking at it does not");
  if (b.any && b.k >= k) kv_assert(at(l, b.k - k) == b.c, "the bytes after it are next");
  no_leak(l);
}
HARNESS(read_8) { read_int<uint8_t>([](ChunkList *l) { return l->Read8(); }, true); }
HARNESS(read_16) { read_int<uint16_t>([](ChunkList *l) { return l->Read16(); }, true); }
HARNESS(read_32) { read_int<uint32_t>([](ChunkList *l) { return l->Read32(); }, true); }
HARNESS(read_64) { read_int<uint64_t>([](ChunkList *l) { return l->Read64(); }, true); }
HARNESS(peek_8) { read_int<uint8_t>([](ChunkList *l) { return l->GetReadBegin8(); }, false); }
HARNESS(peek_16) { read_int<uint16_t>([](ChunkList *l) { return l->GetReadBegin16(); }, false); }
HARNESS(peek_32) { read_int<uint32_t>([](ChunkList *l) { return l->GetReadBegin32(); }, false); }
HARNESS(peek_64) { read_int<uint64_t>([](ChunkList *l) { return l->GetReadBegin64(); }, false); }
static void advance_read(unsigned chunks, bool all)
{
  ChunkList *l = new ChunkList;
  fill(l, chunks, pick("free", 1));
  Byte b = pick_byte(l);
  uint64_t n = all ? b.n : kv_u64("len");
  if (all) l->AdvanceReadAll(); else l->AdvanceRead(n);
  valid(l);
  kv_assert(total(l) == (n < b.n ? b.n - n : 0), "AdvanceRead takes that many bytes");
  if (b.any && b.k >= n) kv_assert(at(l, b.k - n) == b.c, "AdvanceRead: the bytes after them are next");
  if (n >= b.n) kv_assert(l->IsEmpty(), "a list whose bytes are all taken has no chunk");
  kv_assert(g_freed == 0, "used chunks are kept for later");
  no_leak(l);
}
HARNESS(advance_read0) { advance_read(0, false); }
HARNESS(advance_read1) { advance_read(1, false); }
HARNESS(advance_read2) { advance_read(2, false); }
HARNESS(advance_read3) { advance_read(3, false); }
HARNESS(advance_read_all) { advance_read(pick("chunks", 2), true); }
// ---- whole lists
HARNESS(append_list)
{
  ChunkList *l = new ChunkList, *x = new ChunkList;
  fill(l, pick("chunks", 2), 1);
  fill(x, pick("other", 2), 1);
  Byte b = pick_byte(l), c = pick_byte(x);
  uint64_t n = l->GetChunkSize() + x->GetChunkSize();
  l->AppendChunkList(x);
  valid(l);
  valid(x);
  kv_assert(total(l) == b.n + c.n && l->GetChunkSize() == n, "AppendChunkList takes all chunks of the other list");
  kv_assert(x->IsEmpty() && total(x) == 0, "the other list is empty afterwards");
  if (b.any) kv_assert(at(l, b.k) == b.c, "AppendChunkList: the bytes before keep their place");
  if (c.any) { kv_assert(at(l, b.n + c.k) == c.c, "AppendChunkList: the bytes of the other list follow"); kv_cover("both"); }
}
HARNESS(clone)
{
  ChunkList *l = new ChunkList;
  fill(l, pick("chunks", 2), pick("free", 1));
  Byte b = pick_byte(l);
  uint64_t n = l->GetChunkSize();
  {
    ChunkList y = l->Clone();
    valid(&y);
    valid(l);
    kv_assert(total(&y) == b.n && total(l) == b.n && l->GetChunkSize() == n, "a clone has the same bytes, the list is left alone");
    if (b.any) {
      kv_assert(at(&y, b.k) == b.c && at(l, b.k) == b.c, "a clone has the same bytes in order");
      y.AdvanceRead(1);
      kv_assert(total(l) == b.n && at(l, b.k) == b.c, "reading from a clone leaves the list alone");
      kv_cover("cloned");
    }
  }
  no_leak(l);
}
HARNESS(copy_assign)
{
  ChunkList *l = new ChunkList, *y = new ChunkList;
  fill(l, pick("chunks", 2), pick("free", 1));
  fill(y, pick("other", 1), 1);
  bool same = kv_bool("itself");
  Byte b = pick_byte(l);
  if (same) l->CopyAssign(*l); else y->CopyAssign(*l);
  valid(y);
  valid(l);
  if (!same) kv_assert(total(y) == b.n, "an assigned list has the same bytes");
  kv_assert(total(l) == b.n, "the source is left alone");
  if (b.any) kv_assert((same || at(y, b.k) == b.c) && at(l, b.k) == b.c, "an assigned list has the same bytes in order");
  kv_assert(l->GetChunkSize() + l->GetFreeChunkSize() + y->GetChunkSize() + y->GetFreeChunkSize() == g_made - g_freed, "no chunk is lost");
}
static void moves(int how)
{
  ChunkList *l = new ChunkList;
  fill(l, pick("chunks", 2), pick("free", 1));
  Byte b = pick_byte(l), c;
  ChunkList *y;
  if (how == 0) { y = new ChunkList(std::move(*l)); }
  else {
    y = new ChunkList;
    fill(y, pick("other", 1), pick("other free", 1));
    c = pick_byte(y);
    if (how == 1) *y = std::move(*l);
    else if (how == 2) y->swap(*l);
    else swap(*y, *l);
  }
  valid(y);
  valid(l);
  kv_assert(total(y) == b.n, "the bytes move to the other list");
  if (b.any) kv_assert(at(y, b.k) == b.c, "the bytes move in order");
  if (how >= 2) {
    kv_assert(total(l) == c.n, "swapped lists exchange their bytes");
    if (c.any) kv_assert(at(l, c.k) == c.c, "swapped lists exchange their bytes in order");
  }
  l->~ChunkList();
  y->~ChunkList();
  kv_assert(g_freed == g_made, "every chunk is freed in the end");
}
HARNESS(move_construct) { moves(0); }
HARNESS(move_assign) { moves(1); }
HARNESS(swaps) { moves(2); }
HARNESS(swaps2) { moves(3); }
HARNESS(destroyed)
{
  ChunkList *l = new ChunkList;
  valid(l);
  kv_assert(l->IsEmpty() && l->GetReadableSize() == 0, "a new list is empty");
  fill(l, pick("chunks", 3), pick("free", 2));
  l->~ChunkList();
  kv_assert(g_freed == g_made, "every chunk is freed with the list");
  kv_cover("freed");
}
// ---- free chunks
HARNESS(shrink)
{
  ChunkList *l = new ChunkList;
  fill(l, pick("chunks", 1), pick("free", 3));
  Byte b = pick_byte(l);
  uint64_t n = kv_u64("count"), had = l->GetFreeChunkSize();
  if (kv_bool("other name")) l->ShrinkChunk(n); else l->Shrink(n);
  valid(l);
  kv_assert(l->GetFreeChunkSize() == (n < had ? n : had), "Shrink keeps that many free chunks");
  kv_assert(total(l) == b.n && (!b.any || at(l, b.k) == b.c), "Shrink leaves the bytes alone");
  no_leak(l);
}
HARNESS(reserve_free)
{
  ChunkList *l = new ChunkList;
  fill(l, pick("chunks", 1), pick("free", 2));
  Byte b = pick_byte(l);
  unsigned had = (unsigned)l->GetFreeChunkSize(), n = pick("count", 4);
  l->ReserveFreeChunk(n);
  valid(l);
  kv_assert(l->GetFreeChunkSize() == (n > had ? n : had), "ReserveFreeChunk makes sure that many chunks are free");
  kv_assert(total(l) == b.n && (!b.any || at(l, b.k) == b.c), "ReserveFreeChunk leaves the bytes alone");
  no_leak(l);
}
HARNESS(reserve_chunk)
{
  ChunkList *l = new ChunkList;
  unsigned had = pick("chunks", 2), n = pick("count", 2);
  fill(l, had, 0);
  Byte b = pick_byte(l);
  l->ReserveChunk(n);
  valid(l);
  kv_assert(l->GetChunkSize() == had + n, "ReserveChunk adds that many chunks");
  kv_assert(total(l) == b.n && (!b.any || at(l, b.k) == b.c), "ReserveChunk leaves the bytes alone");
  no_leak(l);
}
HARNESS(reserve_space)
{
  ChunkList *l = new ChunkList;
  fill(l, pick("chunks", 2), pick("free", 1));
  Byte b = pick_byte(l);
  uint64_t n = kv_size("size");
  kv_assume(n <= 2 * kMax + 9);
  l->ReserveWriteSpace(n);
  valid(l);
  kv_assert(total(l) == b.n && (!b.any || at(l, b.k) == b.c), "ReserveWriteSpace leaves the bytes alone");
  unsigned made = g_made;
  char *d = (char *)kv_bytes("data", n);
  l->Append(d, n);
  kv_assert(g_made == made, "after ReserveWriteSpace so many bytes need no new chunk");
  no_leak(l);
}
HARNESS(chunk_access)
{
  ChunkList *l = new ChunkList;
  unsigned n = 1 + pick("more chunks", 2);
  fill(l, n, 0);
  Byte b = pick_byte(l);
  ChunkList const *cl = l;
  kv_assert(l->GetFirstChunk() == &*l->begin() && cl->GetFirstChunk() == &*cl->begin() && l->GetLastChunk() == cl->GetLastChunk(), "the first and last chunk");
  kv_assert((char *)l->GetLastChunk() == (char *)l->buffers_.header_.prev + 8, "the last chunk is the last of the list");
  uint64_t seen = 0;
  unsigned k = 0;
  for (auto &c : *l) {
    if (b.any && b.k >= seen && b.k < seen + c.GetReadableSize()) {
      kv_assert(c.GetReadBegin()[b.k - seen] == b.c && c.ToStringView()[b.k - seen] == b.c, "the chunks show the bytes in order");
      kv_cover("seen");
    }
    kv_assert(c.GetReadableSize() + c.GetWritableSize() <= c.GetMaxSize() && c.ToStringView().size() == c.GetReadableSize() && c.GetReadBegin() + c.GetReadableSize() == c.GetWriteBegin(), "the parts of a chunk");
    seen += c.GetReadableSize();
    k++;
  }
  kv_assert(seen == b.n && k == n && ChunkList::GetSingleChunkSize() == kMax, "every chunk is visited once");
}
// ---- C25: writing to a descriptor
static ChunkList *g_l;
static uint64_t g_sent, g_bk;     // bytes written so far, the byte that is looked at
static char g_bc;
static bool g_over, g_seen;       // an error or a short write happened
static int g_errno, g_calls;
static ssize_t written(uint64_t n)
{
  kv_assert(!g_over, "nothing is written after an error or a short write");
  g_calls++;
  if (kv_bool("fails")) { g_over = true; errno = g_errno = 1 + (kv_u32("errno") & 127); return -1; }
  uint64_t k = kv_u64("written");
  kv_assume(k <= n);
  if (k < n) g_over = true;
  return (ssize_t)k;
}
static void byte_at(void const *p, uint64_t n, uint64_t at, uint64_t max)
{
  // byte g_bk of the list goes out at its place
  if (g_bk >= at && g_bk < at + n && g_bk < g_sent + max) { kv_assert(((char const *)p)[g_bk - at] == g_bc, "the bytes are written in order"); kv_cover("byte written"); g_seen = true; }
}
static ssize_t kv_write(int fd, void const *p, size_t n)
{
  kv_assert(fd == 5, "the descriptor");
  kv_valid(p, n);
  ssize_t k = written(n);
  if (k > 0) { byte_at(p, n, g_sent, (uint64_t)k); g_sent += (uint64_t)k; }
  return k;
}
static ssize_t kv_writev(int fd, struct iovec const *v, int c)
{
  kv_assert(fd == 5 && c >= 0 && c <= 1024, "at most 1024 parts");
  uint64_t n = 0;
  for (int i = 0; i < c; i++) { kv_valid(v[i].iov_base, v[i].iov_len); n += v[i].iov_len; }
  ssize_t k = written(n);
  if (k > 0) {
    uint64_t a = g_sent;
    for (int i = 0; i < c; i++) { byte_at(v[i].iov_base, v[i].iov_len, a, (uint64_t)k); a += v[i].iov_len; }
    g_sent += (uint64_t)k;
  }
  return k;
}
HARNESS(write_fd)
{
  ChunkList *l = new ChunkList;
  fill(l, pick("chunks", 3), pick("free", 1));
  Byte b = pick_byte(l);
  g_l = l;
  g_bk = b.any ? b.k : ~0ul;
  g_bc = b.c;
  int e = 0;
  bool plain = kv_bool("plain");
  uint64_t r = plain ? ChunkListWriteFd(*l, 5) : ChunkListWriteFd(*l, 5, e);
  kv_assert(r == g_sent && r <= b.n, "the result is the number of bytes written");
  kv_assert(g_over || r == b.n, "all bytes are written unless the descriptor takes fewer or fails");
  if (!plain) kv_assert(e == g_errno, "the error is reported");
  if (b.any && b.k < r) { kv_assert(g_seen, "each byte is written once"); kv_cover("byte"); }
  valid(l);
  kv_assert(total(l) == b.n && (!b.any || at(l, b.k) == b.c), "the list is left alone");
  no_leak(l);
}
