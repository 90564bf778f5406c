// C18: the connector.  One step per connect attempt, event, timer or request.
#include "kv.h"
#include <errno.h>
#include <functional>
#include <memory>
#include <string.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/sock_api.h"
#include "kanon/net/poll/poller_base.h"
#include "kanon/net/timer/timer_queue.h"
#include "kanon/net/inet_addr.h"
#include "kanon/net/connector.h"
using namespace kanon;

static sockaddr_in6 g_srv;              // the server
static bool g_v4;
static int g_fd = 6;                    // the last socket made
static bool g_open, g_taken;            // it is open; it was handed over
static Channel *g_ch;                   // the channel the poller knows
static int g_sockets, g_connects, g_given;
static int g_res;                       // errno of the next connect, 0: success
static int g_soerr;
static bool g_self;
static std::function<void()> g_timer;
static bool g_armed;
static int64_t g_delay, g_now = 1000000;
static int g_timers;
static std::function<void()> g_q[6];
static int g_qn, g_qi;

extern "C" int socket(int dom, int type, int) noexcept
{
  kv_assert(!g_open, "one socket at a time");
  kv_assert(dom == (g_v4 ? AF_INET : AF_INET6), "the socket is of the family of the server");
  kv_assert((type & SOCK_NONBLOCK) != 0, "connecting does not block the loop");
  g_sockets++;
  g_open = true;
  g_taken = false;
  return ++g_fd;
}
extern "C" int fcntl(int, int, ...) { return 0; }
extern "C" int connect(int fd, sockaddr const *a, socklen_t n)
{
  kv_assert(fd == g_fd && g_open, "connect: the new socket");
  kv_assert(n == (g_v4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "connect: the length of the address");
  kv_assert(((sockaddr_in const *)a)->sin_family == g_srv.sin6_family && ((sockaddr_in const *)a)->sin_port == g_srv.sin6_port, "connect: the family and port of the server");
  if (g_v4) kv_assert(((sockaddr_in const *)a)->sin_addr.s_addr == ((sockaddr_in *)&g_srv)->sin_addr.s_addr, "connect: the address of the server");
  else kv_assert(!memcmp(&((sockaddr_in6 const *)a)->sin6_addr, &g_srv.sin6_addr, 16), "connect: the address of the server");
  g_connects++;
  if (!g_res) return 0;
  errno = g_res;
  return -1;
}
extern "C" int close(int fd)
{
  kv_assert(fd == g_fd && g_open, "a descriptor is closed once");
  kv_assert(!g_taken, "a descriptor handed over is not closed by the connector");
  kv_assert(!g_ch, "a descriptor is closed after its channel was removed");
  g_open = false;
  return 0;
}
extern "C" int getsockopt(int fd, int level, int name, void *v, socklen_t *n) noexcept
{
  kv_assert(fd == g_fd && g_open && level == SOL_SOCKET && name == SO_ERROR, "getsockopt: the error of the socket");
  *(int *)v = g_soerr;
  g_soerr = 0;
  return 0;
}
static sockaddr_in6 g_loc, g_peer;
extern "C" int getsockname(int fd, sockaddr *a, socklen_t *) noexcept
{
  kv_assert(fd == g_fd && g_open, "getsockname: the socket");
  memcpy(a, &g_loc, sizeof g_loc);
  return 0;
}
extern "C" int getpeername(int fd, sockaddr *a, socklen_t *) noexcept
{
  kv_assert(fd == g_fd && g_open, "getpeername: the socket");
  memcpy(a, &g_peer, sizeof g_peer);
  return 0;
}
extern "C" int setsockopt(int, int, int, void const *, socklen_t) noexcept { return 0; }

void EventLoop::UpdateChannel(Channel *ch)
{
  kv_assert(!g_ch || g_ch == ch, "the poller watches one channel of the connector");
  g_ch = ch;
}
void EventLoop::RemoveChannel(Channel *ch)
{
  kv_assert(g_ch == ch, "a registered channel is removed");
  kv_assert(ch->IsNoneEvent(), "a channel is removed only after all its events are disabled");
  g_ch = 0;
}
void EventLoop::QueueToLoop(FunctorCallback cb) { kv_assert(g_qn < 6, "at most six functors"); g_q[g_qn++] = std::move(cb); }
void EventLoop::RunInLoop(FunctorCallback cb) { if (IsLoopInThread()) cb(); else QueueToLoop(std::move(cb)); }
TimerId EventLoop::RunAt(TimerCallback cb, TimeStamp t)
{
  kv_assert(!g_armed, "one retry timer at a time");
  g_armed = true;
  g_timers++;
  g_delay = t.GetMicroseconds() - g_now;
  g_timer = std::move(cb);
  TimerId id;
  id.seq_ = g_timers;
  return id;
}
TimerId EventLoop::RunEvery(TimerCallback, TimeStamp, double) { kv_assert(false, "a retry happens once"); return TimerId(); }
void EventLoop::CancelTimer(TimerId id)
{
  kv_assert(id.seq_ >= 1 && id.seq_ <= (uint64_t)g_timers, "CancelTimer: a timer of the connector");
  if (id.seq_ == (uint64_t)g_timers) g_armed = false;
}
bool EventLoop::IsEdgeTriggerMode() const KANON_NOEXCEPT { return false; }
void EventLoop::AbortNotInThread() KANON_NOEXCEPT { kv_assert(false, "called outside the loop thread"); kv_pathend(); }
void EventLoop::Wakeup() KANON_NOEXCEPT {}
TimeStamp TimeStamp::Now() KANON_NOEXCEPT { return TimeStamp(g_now); }
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }

#include "kanon/linux/net/channel.cc"
#include "kanon/net/sock_api.cc"
#include "kanon/linux/net/sock_api.cc"
#include "kanon/net/connector.cc"
#include "kanon/linux/net/connector.cc"

typedef std::shared_ptr<Connector> Con;
static Con *g_con;
static int g_again;       // the callback asks for a restart (a connection that is closed at once)
static EventLoop *mkloop()
{
  CurrentThread::t_tid = 100;
  KvRaw<EventLoop> *el = new KvRaw<EventLoop>;
  EventLoop *l = &el->r();
  *(int *)&l->owner_thread_id_ = 100;
  return l;
}
static Connector *make()
{
  g_v4 = kv_bool("v4");
  g_srv.sin6_family = g_v4 ? AF_INET : AF_INET6;
  g_srv.sin6_port = kv_u16("port");
  uint32_t a = kv_u32("addr");
  if (g_v4) ((sockaddr_in *)&g_srv)->sin_addr.s_addr = a; else memcpy(&g_srv.sin6_addr.s6_addr[12], &a, 4);
  InetAddr ia(g_srv);
  g_con = new Con(Connector::NewConnector(mkloop(), ia));
  (*g_con)->SetNewConnectionCallback([](FdType fd) {
    kv_assert(fd == g_fd && g_open && !g_taken, "the callback is given the connected descriptor, once");
    kv_assert(!g_ch, "a connected descriptor is handed over after its channel was removed");
    g_taken = true;
    g_given++;
    if (g_again) { g_again = 0; g_open = false; (*g_con)->Restrat(); }
  });
  return g_con->get();
}
static void run()
{
  CurrentThread::t_tid = 100;
  while (g_qi < g_qn) { g_q[g_qi](); g_q[g_qi] = nullptr; g_qi++; }
}
static void fire() { g_armed = false; std::function<void()> f(std::move(g_timer)); f(); run(); }
static bool retryable(int e) { return e == EAGAIN || e == EADDRNOTAVAIL || e == ENETUNREACH || e == EHOSTUNREACH || e == ECONNREFUSED || e == ETIMEDOUT; }
static int64_t delay(int k) { return k == 0 ? 500000 : k == 1 ? 1000000 : k == 2 ? 2000000 : k == 3 ? 4000000 : k == 4 ? 8000000 : k == 5 ? 16000000 : 30000000; }
// the attempt failed and the k-th retry is under way
static void retried(int k, int timers)
{
  kv_assert(!g_open && !g_ch && !g_given, "after a failure the descriptor is closed and no channel is left");
  kv_assert(g_armed && g_timers == timers, "exactly one retry is scheduled");
  kv_assert(g_delay == delay(k), "the delays before the retries double from 0.5 s up to 30 s");
}
static void waiting() { kv_assert(g_open && !g_taken && g_ch && g_ch->GetFd() == g_fd && g_ch->IsWriting() && !g_armed, "the connecting descriptor is watched for output"); }
// after `k` refused attempts in a row, the next one in progress
static Connector *connecting(int k)
{
  Connector *c = make();
  g_res = ECONNREFUSED;
  if (k) { c->StartRun(); for (int i = 1; i < k; i++) fire(); }
  g_res = EINPROGRESS;
  if (k) fire(); else c->StartRun();
  waiting();
  return c;
}

HARNESS(connect)
{
  Connector *c = make();
  g_res = (int)kv_u32("errno");
  kv_assume(g_res >= 0 && g_res < 200);
  c->StartRun();
  kv_assert(g_sockets == 1 && g_connects == 1, "one attempt");
  if (g_res == 0 || g_res == EINPROGRESS || g_res == EINTR) { waiting(); kv_cover("in progress"); }
  else if (retryable(g_res)) { retried(0, 1); kv_cover("retry"); }
  else { kv_assert(!g_open && !g_ch && !g_armed && !g_given, "a fatal error closes the descriptor"); kv_cover("fatal"); }
  kv_assert(g_given == 0, "nothing is handed over before the connection is established");
}
// the whole sequence of delays: it is determined by the interval, so a fixed point covers the rest
HARNESS(delays)
{
  Connector *c = make();
  g_res = ECONNREFUSED;
  c->StartRun();
  for (int k = 0; k < 40; k++) {
    retried(k, k + 1);
    uint32_t r = c->retry_interval_;
    fire();
    kv_assert(k < 39 || c->retry_interval_ == r, "the interval has reached its final value");
  }
  kv_assert(g_sockets == 41, "one attempt per retry");
  kv_cover("delays");
}
static void addr(sockaddr_in6 *s, char const *port, char const *a)
{
  s->sin6_family = g_v4 ? AF_INET : AF_INET6;
  s->sin6_port = kv_u16(port);
  char *p = (char *)kv_bytes(a, 16);
  if (g_v4) memcpy(&((sockaddr_in *)s)->sin_addr, p, 4); else memcpy(&s->sin6_addr, p, 16);
}
static void event(int k)
{
  Connector *c = connecting(k);
  g_soerr = (int)(kv_u32("so_error") & 0xff);
  int err = g_soerr;
  addr(&g_loc, "lport", "laddr");
  addr(&g_peer, "pport", "paddr");
  bool same = g_loc.sin6_port == g_peer.sin6_port && (g_v4 ? ((sockaddr_in *)&g_loc)->sin_addr.s_addr == ((sockaddr_in *)&g_peer)->sin_addr.s_addr : !memcmp(&g_loc.sin6_addr, &g_peer.sin6_addr, 16));
  bool e = kv_bool("err"), h = kv_bool("hup"), o = kv_bool("out"), i = kv_bool("in");
  Channel *ch = g_ch;
  ch->SetRevents((e ? EPOLLERR : 0) | (h ? EPOLLHUP : 0) | (o ? EPOLLOUT : 0) | (i ? EPOLLIN : 0));
  TimeStamp now(g_now);
  ch->HandleEvents(now);
  if (!e && !o) { waiting(); kv_cover("nothing"); return; }
  kv_assert(!c->channel_, "the channel is gone from the connector");
  bool early = kv_bool("owner_gone");
  int timers = k + 1;
  if (e || err || same) {
    retried(k, timers);
    kv_cover("failed");
    run();
    g_res = ECONNREFUSED;
    fire();
    retried(k + 1, timers + 1);
    return;
  }
  kv_assert(g_given == 1 && g_taken && g_open && !g_armed, "an established connection is handed over once");
  kv_cover("established");
  if (early) { delete g_con; g_con = 0; }   // the functor that drops the channel does not need the connector
  run();
  kv_assert(g_open && g_given == 1 && !g_armed, "nothing else happens to it");
}
HARNESS(event_first) { event(0); }
HARNESS(event_third) { event(2); }
HARNESS(event_late) { event(6); }

// the connection handed over is closed at once and the owner asks for a restart
HARNESS(restart_at_once)
{
  Connector *c = connecting(2);
  g_loc.sin6_port = 1;
  g_again = 1;
  g_ch->SetRevents(EPOLLOUT);
  TimeStamp now(g_now);
  bool refused = kv_bool("refused");
  g_res = refused ? ECONNREFUSED : EINPROGRESS;
  g_ch->HandleEvents(now);
  kv_assert(g_given == 1 && g_sockets == 4, "a restart connects again at once");
  g_given = 0;
  if (refused) {
    retried(0, 3);
    run();
    retried(0, 3);
    g_res = EINPROGRESS;
    fire();
  }
  waiting();
  run();
  waiting();
  kv_assert(c->channel_ && c->channel_.get() == g_ch, "the functor of the first channel leaves the second alone");
  kv_cover("again");
  // the second attempt fails
  g_soerr = ECONNREFUSED;
  g_ch->SetRevents(EPOLLOUT);
  g_ch->HandleEvents(now);
  retried(refused ? 1 : 0, refused ? 4 : 3);
  run();
}
HARNESS(restart)
{
  Connector *c = connecting(3);
  g_loc.sin6_port = 1;
  g_ch->SetRevents(EPOLLOUT);
  TimeStamp now(g_now);
  g_ch->HandleEvents(now);
  run();
  kv_assert(g_given == 1, "established");
  g_open = false;    // its owner closed it
  g_given = 0;
  bool stopped = kv_bool("stopped");
  if (stopped) c->Stop();
  g_res = ECONNREFUSED;
  if (kv_bool("elsewhere")) {
    CurrentThread::t_tid = 200;
    c->Restrat();
    kv_assert(g_sockets == 4, "another thread only queues the restart");
    run();
  } else c->Restrat();
  kv_assert(g_sockets == 5, "a restart connects again, also after Stop");
  retried(0, 4);
  kv_cover("restarted");
}
static void stopped()
{
  kv_assert(!g_open && !g_ch && !g_armed && !g_given, "after Stop: no descriptor, no channel, no retry");
  int n = g_sockets;
  if (g_timer) { g_timer(); run(); }       // the timer had been taken from the queue already
  kv_assert(g_sockets == n && !g_armed, "after Stop, a late retry does nothing");
}
HARNESS(stop)
{
  int s = kv_bool("fresh") ? 0 : kv_bool("waiting_retry") ? 1 : kv_bool("connecting") ? 2 : 3;
  Connector *c;
  if (s == 0) c = make();
  else if (s == 1) {
    c = make();
    g_res = ECONNREFUSED;
    c->StartRun();
    unsigned i = kv_fit(kv_u32("retries"), 7);
    if (i > 0) fire();
    if (i > 1) fire();
    if (i > 2) fire();
    if (i > 3) fire();
    if (i > 4) fire();
    if (i > 5) fire();
    if (i > 6) fire();
    if (i > 7) i = 7;
    retried(i, i + 1);
  }
  else if (s == 2) c = connecting(0);
  else { c = connecting(1); kv_assert(g_timers == 1, "one retry"); }
  if (kv_bool("elsewhere")) {
    CurrentThread::t_tid = 200;
    bool o = g_open, a = g_armed;
    c->Stop();
    delete g_con;   // the request keeps the connector alive
    g_con = new Con();
    kv_assert(g_open == o && g_armed == a, "another thread only queues the stop");
    run();
    kv_assert(!g_open && !g_ch && !g_armed && !g_given, "after Stop: no descriptor, no channel, no retry");
    kv_cover("stopped from elsewhere");
    return;
  }
  c->Stop();
  if (kv_bool("run_first")) run();
  stopped();
  run();
  c->StartRun();
  kv_assert(!g_open && !g_armed, "StartRun after Stop does nothing");
  kv_cover("stopped");
}
HARNESS(stop_connected)
{
  Connector *c = connecting(0);
  g_loc.sin6_port = 1;
  g_ch->SetRevents(EPOLLOUT);
  TimeStamp now(g_now);
  g_ch->HandleEvents(now);
  c->Stop();
  run();
  kv_assert(g_open && g_taken && !g_armed, "Stop does not touch a connection that was handed over");
  kv_cover("stopped");
}
// started from another thread
HARNESS(start_elsewhere)
{
  Connector *c = make();
  CurrentThread::t_tid = 200;
  g_res = EINPROGRESS;
  c->StartRun();
  kv_assert(g_sockets == 0, "another thread only queues the start");
  if (kv_bool("stop")) {
    c->Stop();
    run();
    kv_assert(!g_open && !g_ch && !g_armed, "a start followed by a stop leaves nothing");
  } else { run(); waiting(); }
  kv_cover("started");
}
