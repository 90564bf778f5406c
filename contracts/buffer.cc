// Contracts of kanon::Buffer (kanon/buffer/buffer.{h,cc}) and the ReservedArray storage under it.
// View of a buffer: the byte sequence mem[r..w).  Every operation is specified on that view.
#include "kv.h"
#include "kanon/buffer/buffer.cc"
using namespace kanon;
static const size_t MAX = 1ul << 40;
struct St { char *mem; size_t cap, r, w; size_t size() const { return w - r; } };
// class invariant of Buffer: r <= w <= cap, 8 <= cap
static St mk(KvRaw<Buffer> &o) {
  size_t cap = kv_size("cap"), r = kv_size("r"), w = kv_size("w");
  kv_assume(cap >= 8 && cap <= MAX && r <= w && w <= cap);
  char *m = (char *)kv_bytes("mem", cap);
  Buffer &b = o.r();
  new (&b.data_) Buffer::data_type();
  b.read_index_ = r; b.write_index_ = w; b.data_.data_ = m; b.data_.end_ = m + cap;
  return St{m, cap, r, w};
}
static void inv(Buffer &b) {
  kv_assert(b.read_index_ <= b.write_index_, "invariant: read index <= write index");
  kv_assert(b.write_index_ <= b.data_.size(), "invariant: write index <= capacity");
  kv_assert(b.data_.size() >= 8, "invariant: the prefix region exists");
  kv_assert(b.GetReadableSize() == b.write_index_ - b.read_index_, "readable size is the size of the view");
  kv_assert(b.GetPrependableSize() == b.read_index_, "prependable size is the space before the view");
  kv_assert(b.GetWritableSize() == b.GetCapacity() - b.write_index_, "writable size is the space after the view");
  kv_assert(b.HasReadable() == (b.GetReadableSize() != 0), "HasReadable iff the view is not empty");
}
// the k-th byte of the view before the operation
struct Old { size_t k; char v; };
static Old pick(St const &s) {
  Old o; o.k = kv_u64("k"); kv_assume(o.k < s.size());
  o.v = s.mem[s.r + o.k];
  return o;
}

HARNESS(construct) {
  size_t n = kv_size("n"); kv_assume(n <= MAX);
  Buffer b(n);
  inv(b);
  kv_assert(b.GetReadableSize() == 0, "a new buffer is empty");
  kv_assert(b.GetPrependableSize() == 8, "8 bytes are reserved for a size header");
  kv_assert(b.GetWritableSize() >= n, "a new buffer has room for init_size bytes");
}
HARNESS(append_old) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r(); Old k = pick(s);
  size_t n = kv_size("n"); kv_assume(n <= MAX);
  char *src = (char *)kv_bytes("src", n);
  b.Append(src, n);
  inv(b);
  kv_assert(b.GetReadableSize() == s.size() + n, "append: the view grows by n");
  kv_assert(b.GetReadBegin()[k.k] == k.v, "append: old bytes keep their place");
  kv_cover("append");
}
HARNESS(append_new) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  size_t n = kv_size("n"); kv_assume(n <= MAX);
  char *src = (char *)kv_bytes("src", n);
  size_t k = kv_u64("k"); kv_assume(k < n);
  char want = src[k];
  b.Append((void const *)src, n);
  kv_assert(b.GetReadableSize() == s.size() + n, "append: the view grows by n");
  kv_assert(b.GetReadBegin()[s.size() + k] == want, "append: new bytes follow the old ones in order");
  kv_assert(src[k] == want, "append: the source is unchanged");
}
HARNESS(append_view) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  size_t n = kv_size("n"); kv_assume(n <= MAX);
  char *src = (char *)kv_bytes("src", n);
  size_t k = kv_u64("k"); kv_assume(k < n);
  char want = src[k];
  b.Append(StringView(src, n));
  kv_assert(b.GetReadableSize() == s.size() + n, "append: the view grows by n");
  kv_assert(b.GetReadBegin()[s.size() + k] == want, "append: new bytes follow the old ones in order");
}
HARNESS(reserve) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r(); Old k = pick(s);
  size_t n = kv_size("n"); kv_assume(n <= MAX);
  b.ReserveWriteSpace(n);
  inv(b);
  kv_assert(b.GetWritableSize() >= n, "reserve: n bytes can be written");
  kv_assert(b.GetReadableSize() == s.size(), "reserve: the view keeps its size");
  kv_assert(b.GetReadBegin()[k.k] == k.v, "reserve: the view is unchanged");
}
HARNESS(reserve_empty) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  kv_assume(s.r == s.w);
  size_t n = kv_size("n"); kv_assume(n <= MAX);
  b.ReserveWriteSpace(n);
  inv(b);
  kv_assert(b.GetWritableSize() >= n, "reserve: n bytes can be written");
  kv_assert(b.GetReadableSize() == 0, "reserve: the view keeps its size");
  kv_valid(b.GetWriteBegin(), n);
}
HARNESS(shrink) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r(); Old k = pick(s);
  size_t n = kv_size("n"); kv_assume(n <= MAX);
  b.Shrink(n);
  inv(b);
  kv_assert(b.GetReadableSize() == s.size(), "shrink: the view keeps its size");
  kv_assert(b.GetReadBegin()[k.k] == k.v, "shrink: the view is unchanged");
  kv_assert(b.GetCapacity() <= s.cap, "shrink: never grows");
  kv_assert(b.GetCapacity() <= s.size() + 8 + n || b.GetCapacity() == s.cap, "shrink: capacity is at most readable + prefix + n");
  kv_assert(s.r < 8 || b.GetPrependableSize() == 8, "shrink: the prefix region is kept");
}
HARNESS(shrink_empty) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  kv_assume(s.r == s.w);
  size_t n = kv_size("n"); kv_assume(n <= MAX);
  b.Shrink(n);
  inv(b);
  kv_assert(b.GetReadableSize() == 0, "shrink: an empty buffer stays empty");
  kv_assert(b.GetPrependableSize() == 8, "shrink: the prefix region is kept");
  kv_assert(b.GetCapacity() <= 8 + n || b.GetCapacity() == s.cap, "shrink: capacity is at most prefix + n");
}
HARNESS(prepend) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  kv_assume(s.r >= 8);
  size_t n = kv_size("n"); kv_assume(n <= s.r);
  char *src = (char *)kv_bytes("src", n);
  size_t k = kv_u64("k"); kv_assume(k < s.size() + n);
  char want = k < n ? src[k] : s.mem[s.r + (k - n)];
  b.Prepend(src, n);
  inv(b);
  kv_assert(b.GetReadableSize() == s.size() + n, "prepend: the view grows by n");
  kv_assert(b.GetReadBegin()[k] == want, "prepend: new bytes precede the old ones");
}
HARNESS(advance_read) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  size_t n = kv_size("n"); kv_assume(n < s.size());
  size_t k = kv_u64("k"); kv_assume(k < s.size() - n);
  char want = s.mem[s.r + n + k];
  b.AdvanceRead(n);
  inv(b);
  kv_assert(b.GetReadableSize() == s.size() - n, "consume: the view loses n bytes");
  kv_assert(b.GetReadBegin()[k] == want, "consume: the rest of the view is unchanged");
}
HARNESS(advance_all) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  if (kv_bool("all")) b.AdvanceAll(); else b.AdvanceRead(s.size());
  inv(b);
  kv_assert(b.GetReadableSize() == 0, "consume all: the view is empty");
  kv_assert(b.GetPrependableSize() >= 8, "consume all: the prefix region is available again");
}
HARNESS(advance_write) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  size_t n = kv_size("n"); kv_assume(n <= s.cap - s.w);
  size_t k = kv_u64("k"); kv_assume(k < s.size() + n);
  char want = s.mem[s.r + k];
  char *at = b.GetWriteBegin();
  kv_assert(at == s.mem + s.w, "the write position is the end of the view");
  b.AdvanceWrite(n);
  inv(b);
  kv_assert(b.GetReadableSize() == s.size() + n, "commit: the view grows by n");
  kv_assert(b.GetReadBegin()[k] == want, "commit: bytes written at the write position follow the view");
}
HARNESS(set_write) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  size_t n = kv_size("n"); kv_assume(n >= s.r && n <= s.cap);
  b.SetWriteIndex(n);
  inv(b);
  kv_assert(b.GetReadableSize() == n - s.r, "SetWriteIndex: the view ends at n");
}
HARNESS(view) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  size_t k = kv_u64("k"); kv_assume(k < s.size());
  StringView v = b.ToStringView();
  kv_assert(v.size() == s.size(), "ToStringView has the size of the view");
  kv_assert(v[k] == s.mem[s.r + k], "ToStringView shows the bytes of the view");
}
HARNESS(retrieve_string) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  size_t n = kv_size("n"); kv_assume(n <= s.size());
  size_t k = kv_u64("k"); kv_assume(k < n);
  char want = s.mem[s.r + k];
  size_t j = kv_u64("kr"); kv_assume(n + j < s.size() && j < s.size());
  char rest = s.mem[s.r + n + j];
  std::string t = b.RetrieveAsString(n);
  inv(b);
  kv_assert(t.size() == n, "retrieve: n bytes are returned");
  kv_assert(t.data()[k] == want, "retrieve: the bytes are the head of the view");
  kv_assert(b.GetReadableSize() == s.size() - n, "retrieve: the bytes are consumed");
  kv_assert(b.GetReadBegin()[j] == rest, "retrieve: the rest of the view stays");
}
HARNESS(retrieve_all) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  size_t k = kv_u64("k"); kv_assume(k < s.size());
  char want = s.mem[s.r + k];
  std::string t = b.RetrieveAllAsString();
  inv(b);
  kv_assert(t.size() == s.size(), "retrieve all: every byte is returned");
  kv_assert(t.data()[k] == want, "retrieve all: in order");
  kv_assert(b.GetReadableSize() == 0, "retrieve all: the buffer is empty");
}
HARNESS(retrieve_vector) {
  KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();
  size_t n = kv_size("n"); kv_assume(n <= s.size());
  size_t k = kv_u64("k"); kv_assume(k < n);
  char want = s.mem[s.r + k];
  std::vector<char> t = b.RetrieveAsVector(n);
  inv(b);
  kv_assert(t.size() == n, "retrieve: n bytes are returned");
  kv_assert(t.data()[k] == want, "retrieve: the bytes are the head of the view");
  kv_assert(b.GetReadableSize() == s.size() - n, "retrieve: the bytes are consumed");
}
HARNESS(swap) {
  KvRaw<Buffer> o, p; St s = mk(o), t = mk(p); Buffer &a = o.r(), &b = p.r();
  a.swap(b);
  kv_assert(a.GetReadableSize() == t.size() && b.GetReadableSize() == s.size(), "swap: sizes are exchanged");
  kv_assert(a.GetReadBegin() == t.mem + t.r && b.GetReadBegin() == s.mem + s.r, "swap: contents are exchanged");
  inv(a); inv(b);
}
