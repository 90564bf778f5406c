// C25: BufferReadFromFd appends what readv(2) delivers, for every state of the buffer and every result.
#include "kv.h"
#include <errno.h>
#include <sys/uio.h>
static ssize_t kv_readv(int fd, struct iovec const *v, int n);
#define readv kv_readv
#include "kanon/linux/net/buffer.cc"
#undef readv
#include "kanon/buffer/buffer.cc"
using namespace kanon;
static uint64_t g_k;         // byte g_k of the input
static char g_c;
static uint64_t g_n;         // bytes delivered
static bool g_failed;
static int g_err, g_calls;
static ssize_t kv_readv(int fd, struct iovec const *v, int n)
{
  kv_assert(fd == 7 && (n == 1 || n == 2), "the descriptor and the parts");
  g_calls++;
  uint64_t room = v[0].iov_len;
  kv_valid(v[0].iov_base, v[0].iov_len);
  if (n == 2) { room += v[1].iov_len; kv_valid(v[1].iov_base, v[1].iov_len); }
  kv_assert(room >= 65536, "at least 64 KiB can be read");
  if (kv_bool("fails")) { g_failed = true; errno = g_err = 1 + (kv_u32("errno") & 127); return -1; }
  g_n = kv_size("delivered");
  kv_assume(g_n <= room);
  if (g_k < g_n) {
    if (g_k < v[0].iov_len) ((char *)v[0].iov_base)[g_k] = g_c;
    else ((char *)v[1].iov_base)[g_k - v[0].iov_len] = g_c;
  }
  return (ssize_t)g_n;
}
HARNESS(read_fd)
{
  KvRaw<Buffer> o;
  Buffer &b = o.r();
  size_t cap = kv_size("cap"), r = kv_size("r"), w = kv_size("w");
  kv_assume(cap >= 8 && cap <= 1ul << 40 && r <= w && w <= cap);
  char *m = (char *)kv_bytes("mem", cap);
  new (&b.data_) Buffer::data_type();
  b.read_index_ = r; b.write_index_ = w; b.data_.data_ = m; b.data_.end_ = m + cap;
  uint64_t p = kv_u64("p");
  char c = p < w - r ? m[r + p] : 0;
  g_k = kv_u64("k");
  g_c = (char)kv_u8("byte");
  int e = 0;
  usize got = BufferReadFromFd(b, 7, e);
  kv_assert(g_calls == 1, "one read");
  kv_assert(b.read_index_ <= b.write_index_ && b.write_index_ <= b.data_.size(), "the indices are in order");
  if (g_failed) {
    kv_assert(got == (usize)-1, "an error is reported");
    kv_assert(e == g_err, "errno is reported");
    kv_assert(b.GetReadableSize() == w - r, "an error adds nothing");
  } else {
    kv_assert(got == g_n, "the result is the number of bytes");
    kv_assert(b.GetReadableSize() == w - r + g_n, "the bytes are added");
    if (g_k < g_n) { kv_assert(b.GetReadBegin()[w - r + g_k] == g_c, "the bytes follow in order"); kv_cover("byte read"); }
    if (g_n > cap - w) kv_cover("more than fits");
  }
  if (p < w - r) kv_assert(b.GetReadBegin()[p] == c, "what was there is kept");
}
