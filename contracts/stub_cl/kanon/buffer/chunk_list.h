// Contract of ChunkList (verified in C04) as seen by the connection code: the list is a queue
// of bytes.  The bytes are named by their position in the ghost stream kv_S, so the list is the
// interval [base, base+len) of it; appending bytes has to continue that interval.
#ifndef KANON_NET_CHUNK_LIST_H
#define KANON_NET_CHUNK_LIST_H
#include "kanon/util/macro.h"
#include "kanon/string/string_view.h"
#include "kv.h"
extern char *kv_S;
extern size_t kv_Sn;
extern size_t kv_sent;
extern bool kv_broken;
namespace kanon {
struct KvCmp { char const *a, *b; };
inline bool kv_same(void *c, uint64_t j) { KvCmp *k = (KvCmp *)c; return k->a[j] == k->b[j]; }
class ChunkList {
 public:
  using SizeType = size_t;
  size_t base = 0, len = 0;
  ChunkList() = default;
  ChunkList(ChunkList const &o) : base(o.base), len(o.len) { kv_assert(false, "a chunk list is copied"); }
  ChunkList(ChunkList &&o) KANON_NOEXCEPT : base(o.base), len(o.len) { o.len = 0; }
  ChunkList &operator=(ChunkList &&o) KANON_NOEXCEPT { base = o.base; len = o.len; o.len = 0; return *this; }
  void Append(void const *p, size_t n)
  {
    size_t at = len ? base + len : kv_sent;
    if (n == 0) return;
    if (!kv_broken) {
      kv_assert(at <= kv_Sn && n <= kv_Sn - at, "bytes put in the output queue lie inside the stream given to Send");
      KvCmp c = {(char const *)p, kv_S + at};
      kv_check_forall(kv_same, &c, 0, n, "bytes put in the output queue continue the stream in order");
    }
    if (!len) base = at;
    len += n;
  }
  void Append(StringView v) { Append(v.data(), v.size()); }
  void AppendChunkList(ChunkList *o)
  {
    if (o->len == 0) return;
    size_t at = len ? base + len : kv_sent;
    if (!kv_broken) kv_assert(at == o->base, "bytes put in the output queue continue the stream in order");
    if (!len) base = o->base;
    len += o->len;
    o->len = 0;
  }
  void AdvanceRead(size_t n)
  {
    kv_assert(n <= len, "AdvanceRead: no more than the queued bytes");
    base += n;
    len -= n;
  }
  void AdvanceReadAll() { AdvanceRead(len); }
  SizeType GetReadableSize() const KANON_NOEXCEPT { return len; }
  bool IsEmpty() const KANON_NOEXCEPT { return len == 0; }
  bool HasReadable() const KANON_NOEXCEPT { return len != 0; }
  SizeType GetChunkSize() const KANON_NOEXCEPT { return len ? (len - 1) / 4096 + 1 : 0; }
  void Shrink(size_t) {}
  void ShrinkChunk(size_t) {}
  void ReserveFreeChunk(size_t) {}
  void ReserveWriteSpace(size_t) {}
  static SizeType GetSingleChunkSize() KANON_NOEXCEPT { return 4096; }
  void swap(ChunkList &o) KANON_NOEXCEPT { size_t b = base, l = len; base = o.base; len = o.len; o.base = b; o.len = l; }
};
inline void swap(ChunkList &a, ChunkList &b) KANON_NOEXCEPT { a.swap(b); }
}
#endif
