// Contracts of the fixed-width integer operations of kanon::Buffer.
#include "buffer.cc"
#define INTS(W)                                                                              \
  extern "C" void H_append##W() {                                                            \
    KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r();                                        \
    uint##W##_t x = kv_u##W("x");                                                            \
    size_t k = kv_u64("k"); kv_assume(k < s.size()); char want = s.mem[s.r + k];             \
    b.Append##W(x);                                                                          \
    inv(b);                                                                                  \
    kv_assert(b.GetReadableSize() == s.size() + W / 8, "append integer: the view grows by its size"); \
    unsigned char const *p = (unsigned char const *)b.GetReadBegin() + s.size();             \
    for (int i = 0; i < W / 8; ++i)                                                          \
      kv_assert(p[i] == (unsigned char)(x >> (W - 8 - 8 * i)), "append integer: big-endian bytes follow the view"); \
    kv_assert(b.GetReadBegin()[k] == want, "append integer: old bytes keep their place");    \
  }                                                                                          \
  extern "C" void H_prepend##W() {                                                           \
    KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r(); kv_assume(s.r >= 8);                   \
    uint##W##_t x = kv_u##W("x");                                                            \
    size_t k = kv_u64("k"); kv_assume(k < s.size()); char want = s.mem[s.r + k];             \
    b.Prepend##W(x);                                                                         \
    inv(b);                                                                                  \
    kv_assert(b.GetReadableSize() == s.size() + W / 8, "prepend integer: the view grows by its size"); \
    unsigned char const *p = (unsigned char const *)b.GetReadBegin();                        \
    for (int i = 0; i < W / 8; ++i)                                                          \
      kv_assert(p[i] == (unsigned char)(x >> (W - 8 - 8 * i)), "prepend integer: big-endian bytes precede the view"); \
    kv_assert(b.GetReadBegin()[W / 8 + k] == want, "prepend integer: old bytes are kept");   \
  }                                                                                          \
  extern "C" void H_read##W() {                                                              \
    KvRaw<Buffer> o; St s = mk(o); Buffer &b = o.r(); kv_assume(s.size() >= W / 8);          \
    uint64_t want = 0;                                                                       \
    for (int i = 0; i < W / 8; ++i) want = want << 8 | (unsigned char)s.mem[s.r + i];        \
    kv_assert(b.GetReadBegin##W() == (uint##W##_t)want, "peek integer: big-endian value of the head"); \
    kv_assert(b.GetReadableSize() == s.size(), "peek integer: nothing is consumed");         \
    if (kv_bool("advance")) { b.AdvanceRead##W(); }                                          \
    else { uint##W##_t v = b.Read##W(); kv_assert(v == (uint##W##_t)want, "read integer: big-endian value of the head"); } \
    inv(b);                                                                                  \
    kv_assert(b.GetReadableSize() == s.size() - W / 8, "read integer: exactly its bytes are consumed"); \
  }
INTS(8)
INTS(16)
INTS(32)
INTS(64)
// harness: append8 prepend8 read8 append16 prepend16 read16 append32 prepend32 read32 append64 prepend64 read64
