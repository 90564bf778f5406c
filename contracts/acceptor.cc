// C19: the acceptor.  Real Acceptor, Socket, Channel and the socket functions against the contracts of the
// system calls and of the loop.
#include "kv.h"
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <functional>
#include <memory>
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/sock_api.h"
#include "kanon/net/poll/poller_base.h"
#include "kanon/net/timer/timer_queue.h"
#include "kanon/net/inet_addr.h"
#include "kanon/net/acceptor.h"
using namespace kanon;

enum { LS = 5, SPARE = 6, CLI = 8, PEND = 9 };
static bool g_v4;
static int g_lopen, g_sopen, g_bound, g_listened, g_pend, g_pendclosed, g_cliopen, g_cliclosed;
static int g_updates, g_removed, g_reuseaddr, g_reuseport;
static bool g_reuse, g_in, g_full;      // g_full: the process has no descriptor left
static int g_err, g_accepts;
static sockaddr_in6 g_peer, g_addr;

static int open_(char const *) { kv_assert(!g_sopen, "one spare descriptor"); g_sopen = 1; return SPARE; }
extern "C" {
int open(char const *p, int, ...) { return open_(p); }
int open64(char const *p, int, ...) { return open_(p); }
int close(int fd)
{
  if (fd == LS) { kv_assert(g_lopen == 1, "the listening socket is closed once"); kv_assert(g_removed == 1, "the listening socket is closed after its channel left the poller"); g_lopen = 0; }
  else if (fd == SPARE) { kv_assert(g_sopen == 1, "the spare descriptor is closed once"); g_sopen = 0; }
  else if (fd == CLI) { kv_assert(g_cliopen == 1, "a connection is closed once"); g_cliopen = 0; g_cliclosed++; }
  else if (fd == PEND) { kv_assert(g_pend == 1, "a refused connection is closed once"); g_pend = 0; g_pendclosed++; }
  else kv_assert(fd == -1, "only open descriptors are closed");
  if (fd == -1) { errno = EBADF; return -1; }
  return 0;
}
int socket(int dom, int type, int) noexcept
{
  kv_assert(dom == (g_v4 ? AF_INET : AF_INET6), "the socket is of the family of the address");
  kv_assert((type & SOCK_NONBLOCK) && (type & SOCK_CLOEXEC) && (type & 0xff) == SOCK_STREAM, "accepting does not block the loop");
  g_lopen = 1;
  return LS;
}
int fcntl(int, int, ...) { return 0; }
int setsockopt(int fd, int level, int name, void const *v, socklen_t n) noexcept
{
  kv_assert(fd == LS && g_lopen && n >= 4, "setsockopt: the listening socket");
  if (level == SOL_SOCKET && name == SO_REUSEADDR) g_reuseaddr = *(int const *)v;
  if (level == SOL_SOCKET && name == SO_REUSEPORT) g_reuseport = *(int const *)v;
  return 0;
}
int bind(int fd, sockaddr const *a, socklen_t n) noexcept
{
  kv_assert(fd == LS && g_lopen && !g_bound, "bind: the listening socket, once");
  kv_assert(n == (g_v4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "bind: the length of the address");
  kv_assert(!memcmp(a, &g_addr, 16) && (g_v4 || !memcmp(a, &g_addr, sizeof g_addr)), "bind: the address given");
  kv_assert(g_reuseaddr == 1, "the address can be used again at once (set before it is bound)");
  kv_assert((g_reuseport != 0) == g_reuse, "the port is shared as told (set before it is bound)");
  g_bound = 1;
  return 0;
}
int listen(int fd, int n) noexcept
{
  kv_assert(fd == LS && g_bound && n > 0, "listen: the bound socket");
  g_listened++;
  return 0;
}
static int do_accept(int fd, sockaddr *a, socklen_t *n, int flags)
{
  kv_assert(fd == LS && g_lopen && g_listened, "accept: the listening socket");
  g_accepts++;
  if (g_full) {
    if (g_sopen || kv_bool("gone")) { errno = g_sopen ? EMFILE : EAGAIN; return -1; }
    kv_assert(!a, "");
    g_pend = 1;
    return PEND;
  }
  if (g_err) { errno = g_err; return -1; }
  kv_assert((flags & SOCK_NONBLOCK) != 0 && (flags & SOCK_CLOEXEC) != 0, "a connection does not block its loop");
  kv_assert(a && *n >= sizeof(sockaddr_in6), "accept: room for every address");
  if (g_peer.sin6_family == AF_INET) { memcpy(a, &g_peer, sizeof(sockaddr_in)); *n = sizeof(sockaddr_in); } else { memcpy(a, &g_peer, sizeof g_peer); *n = sizeof g_peer; }
  g_cliopen = 1;
  return CLI;
}
int accept(int fd, sockaddr *a, socklen_t *n) { return do_accept(fd, a, n, 0); }
int accept4(int fd, sockaddr *a, socklen_t *n, int flags) { return do_accept(fd, a, n, flags); }
}
void EventLoop::UpdateChannel(Channel *c) { kv_assert(!g_removed && c->GetFd() == LS, "the channel of the listening socket"); g_updates++; }
void EventLoop::RemoveChannel(Channel *c) { kv_assert(c->IsNoneEvent() && !g_removed && g_lopen, "a channel is removed once, before its descriptor is closed"); g_removed++; }
void EventLoop::AbortNotInThread() KANON_NOEXCEPT { kv_assert(false, "called outside the loop thread"); kv_pathend(); }
bool EventLoop::IsEdgeTriggerMode() const KANON_NOEXCEPT { return false; }
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }
InetAddr::InetAddr(Port, bool, bool) { memset((void *)this, 0, sizeof *this); }
#include "kanon/net/acceptor.cc"
#include "kanon/net/socket.cc"
#include "kanon/net/sock_api.cc"
#include "kanon/linux/net/sock_api.cc"
#include "kanon/linux/net/channel.cc"

static EventLoop *mkloop()
{
  CurrentThread::t_tid = 100;
  KvRaw<EventLoop> *el = new KvRaw<EventLoop>;
  EventLoop *l = &el->r();
  *(int *)&l->owner_thread_id_ = 100;
  return l;
}
static void arb(sockaddr_in6 &a)
{
  a.sin6_family = kv_bool("v4") ? AF_INET : AF_INET6;
  a.sin6_port = kv_u16("port");
  a.sin6_flowinfo = kv_u32("flow");
  for (int i = 0; i < 4; i++) ((uint32_t *)&a.sin6_addr)[i] = kv_u32("addr");
  a.sin6_scope_id = kv_u32("scope");
}
static Acceptor *make()
{
  arb(g_addr);
  g_v4 = g_addr.sin6_family == AF_INET;
  g_reuse = kv_bool("reuseport");
  KvRaw<InetAddr> *ia = new KvRaw<InetAddr>;
  memcpy((void *)&ia->r(), &g_addr, sizeof g_addr);
  Acceptor *a = new Acceptor(mkloop(), ia->r(), g_reuse);
  kv_assert(g_lopen && g_bound && !g_listened && !a->Listening() && !a->channel_.IsReading(), "a new acceptor is bound and does not listen");
  kv_assert(g_sopen == 1, "a spare descriptor is kept");
  return a;
}
HARNESS(acc_life)
{
  Acceptor *a = make();
  if (kv_bool("listen")) {
    a->Listen();
    kv_assert(g_listened == 1 && a->Listening(), "listening starts");
    kv_assert(g_updates > 0 && a->channel_.IsReading() && !a->channel_.IsWriting(), "new connections are waited for");
  } else kv_assert(!g_updates, "nothing is watched before listening");
  delete a;
  kv_assert(g_removed == 1 && !g_lopen && !g_sopen, "the channel left the poller, the descriptors are closed once");
  kv_cover("gone");
}
static int g_given;
static void event(Acceptor *a)
{
  a->channel_.SetRevents(EPOLLIN);
  TimeStamp now(int64_t(1));
  a->channel_.HandleEvents(now);
}
HARNESS(acc_event)
{
  Acceptor *a = make();
  bool cb = kv_bool("callback");
  if (cb) a->SetNewConnectionCallback([](int fd, InetAddr const &p) {
    kv_assert(fd == CLI && g_cliopen, "the new connection is handed over");
    sockaddr_in6 const *s = (sockaddr_in6 const *)p.ToSockaddr();
    kv_assert(s->sin6_family == g_peer.sin6_family && s->sin6_port == g_peer.sin6_port, "with the family and port of its peer");
    if (p.IsIpv4()) kv_assert(((sockaddr_in const *)s)->sin_addr.s_addr == ((sockaddr_in *)&g_peer)->sin_addr.s_addr, "with the address of its peer");
    else kv_assert(!memcmp(&s->sin6_addr, &g_peer.sin6_addr, 16) && s->sin6_scope_id == g_peer.sin6_scope_id, "with the address of its peer");
    g_given++;
  });
  a->Listen();
  arb(g_peer);
  if (kv_bool("full")) g_full = true;
  else if (kv_bool("fails")) {
    uint32_t e = kv_u32("err") & 3;
    g_err = e == 0 ? EAGAIN : e == 1 ? ECONNABORTED : EINTR;
  }
  event(a);
  if (g_full) {
    kv_assert(!g_given && !g_cliopen, "no connection without a descriptor");
    kv_assert(!g_pend && g_accepts == 2, "a connection there is no descriptor for is taken and closed (it would wake the loop forever)");
    kv_assert(g_sopen == 1, "the spare descriptor is kept");
    g_full = false;
    kv_cover("full");
  } else if (g_err) {
    kv_assert(!g_given && !g_cliopen && g_sopen == 1 && g_accepts == 1, "a failed accept changes nothing");
    g_err = 0;
    kv_cover("failed");
  } else {
    kv_assert(g_given == cb, "a connection is handed over once");
    kv_assert(g_cliopen == cb && g_cliclosed == !cb, "a connection that nobody takes is closed");
    kv_cover("given");
  }
  kv_assert(a->channel_.IsReading() && a->Listening() && g_lopen, "the acceptor goes on listening");
  g_given = g_cliopen = g_cliclosed = 0;
  event(a);
  kv_assert(g_given == cb && g_sopen == 1, "the next connection is handed over");
}
