// Contracts of what the connection code calls: the output queue, the event loop, the socket.
#ifndef KV_CONN_H
#define KV_CONN_H
#include "kv.h"
#include <unistd.h>
#include <errno.h>
#include <sys/socket.h>
#include <functional>
#include <memory>
#include <string>
// the ghost stream: all bytes the user ever hands to Send on this connection
char *kv_S;
size_t kv_Sn;
size_t kv_sent;   // bytes [0,kv_sent) have been given to the kernel
size_t kv_acc;    // bytes [0,kv_acc) have been handed to Send
bool kv_broken;   // the socket has failed for good: nothing is claimed about the rest of the stream
static int g_fin, g_close, g_removed, g_closefd;
static unsigned g_update;
static bool g_wrote;
static bool g_et, g_canwrite;
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/sock_api.h"
#include "kanon/net/poll/poller_base.h"
#include "kanon/net/timer/timer_queue.h"
#include "kanon/net/tcp_connection.h"
using namespace kanon;

static std::function<void()> g_q[4];
static EventLoop *g_ql[4];      // the loop it was queued to
static int g_qn;
static int g_upchan, g_rmchan;  // channels of other descriptors

void EventLoop::UpdateChannel(Channel *ch) { if (ch->GetFd() != 7) { g_upchan++; return; } kv_assert(!g_removed, "a removed channel is not registered again"); g_update++; }
void EventLoop::RemoveChannel(Channel *ch) { if (ch->GetFd() != 7) { g_rmchan++; return; } kv_assert(ch->IsNoneEvent(), "a channel is removed only after all its events are disabled"); kv_assert(!g_removed, "a channel is removed once"); g_removed++; }
void EventLoop::QueueToLoop(FunctorCallback cb) { kv_assert(g_qn < 4, "at most four functors"); g_ql[g_qn] = this; g_q[g_qn++] = std::move(cb); }
void EventLoop::RunInLoop(FunctorCallback cb) { if (IsLoopInThread()) cb(); else QueueToLoop(std::move(cb)); }
bool EventLoop::IsEdgeTriggerMode() const KANON_NOEXCEPT { return g_et; }
void EventLoop::AbortNotInThread() KANON_NOEXCEPT { kv_assert(false, "called outside the loop thread"); kv_pathend(); }
void EventLoop::Wakeup() KANON_NOEXCEPT {}
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }

static void kv_hard_error() { kv_broken = true; }

// write(2) on a non-blocking stream socket
extern "C" ssize_t write(int fd, void const *p, size_t n)
{
  kv_assert(fd == 7, "write: the connection's descriptor");
  kv_assert(!g_fin, "nothing is written after the write side was shut down");
  kv_assert(!g_close, "nothing is written after the descriptor was closed");
  kv_valid(p, n);
  g_wrote = true;
  if (!kv_broken) {
    kv_assert(n <= kv_Sn - kv_sent, "write: bytes of the stream");
    KvCmp c = {(char const *)p, kv_S + kv_sent};
    kv_check_forall(kv_same, &c, 0, n, "bytes given to the kernel continue the stream in order");
  }
  if (kv_bool("write_fails")) {
    bool again = kv_bool("write_eagain");
    errno = again ? EAGAIN : EPIPE;
    if (!again) kv_hard_error();
    return -1;
  }
  size_t r = kv_size("write_n");
  kv_assume(r <= n && (r >= 1 || n == 0));
  kv_sent += r;
  return (ssize_t)r;
}
extern "C" int shutdown(int fd, int how) noexcept
{
  kv_assert(fd == 7, "shutdown: the connection's descriptor");
  if (how != 0) {
    g_fin++;
    if (!kv_broken) kv_assert(kv_sent == kv_acc, "the write side is shut down only after every accepted byte was written");
  }
  return 0;
}
extern "C" int close(int fd) { g_close++; g_closefd = fd; return 0; }
int kanon::sock::GetSocketError(FdType) KANON_NOEXCEPT { return kv_u32("so_error") & 0xff; }

// contract of ChunkListWriteFd, verified in C25
ChunkList::SizeType kanon::ChunkListWriteFd(ChunkList &b, FdType fd, int &saved_errno) KANON_NOEXCEPT
{
  kv_assert(fd == 7, "write: the connection's descriptor");
  kv_assert(!g_close, "nothing is written after the descriptor was closed");
  if (b.len == 0) return 0;
  kv_assert(!g_fin, "nothing is written after the write side was shut down");
  g_wrote = true;
  if (!kv_broken) kv_assert(b.base == kv_sent, "bytes given to the kernel continue the stream in order");
  size_t r = kv_fit(kv_size("writev_n"), b.len);
  kv_assume(r <= b.len);
  if (kv_bool("writev_fails")) {
    kv_assume(r < b.len);
    bool again = kv_bool("writev_eagain");
    saved_errno = again ? EAGAIN : EPIPE;
    if (!again) kv_hard_error();
  } else kv_assume(r >= 1);
  kv_sent += r;
  return r;
}
void kanon::ChunkListOverlapSend(ChunkList &, FdType, int &, void *) {}

#include "kanon/buffer/buffer.cc"
#include "kanon/linux/net/channel.cc"
#include "kanon/net/socket.cc"
#include "kanon/net/connection/connection_base.cc"
#include "kanon/net/connection/tcp_connection.cc"
#endif
