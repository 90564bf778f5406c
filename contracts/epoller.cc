// C15 (epoll part): registration and reporting of kanon/linux/net/epoller.cc
#include "kv.h"
#include <errno.h>
#include <functional>
#include <sys/epoll.h>
#include <vector>
namespace kanon { class Channel; }

// ---- library contract: std::vector<epoll_event> (the array handed to epoll_wait)
static struct epoll_event *g_ev;
static uint64_t g_evn;
static int g_resized;
template <> class std::vector<struct epoll_event> {
 public:
  struct epoll_event *p; uint64_t n;
  explicit vector(size_t k) : p(nullptr), n(k) {}
  struct epoll_event *data() { return p; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  struct epoll_event &operator[](size_t i) { kv_assert(i < n, "inside the event array"); return p[i]; }
  struct epoll_event *begin() { return p; }
  struct epoll_event *end() { return p + n; }
  void resize(size_t k) { g_resized++; n = k; }
  void reserve(size_t) {}
};
// ---- library contract: std::vector<Channel*> being filled: a ghost check per element
static void kv_push(kanon::Channel *);
template <> class std::vector<kanon::Channel *> {
 public:
  void emplace_back(kanon::Channel *c) { kv_push(c); }
  void push_back(kanon::Channel *c) { kv_push(c); }
};
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/poll/epoller.h"
#include "kanon/net/timer/timer_queue.h"
using namespace kanon;
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }
void EventLoop::AbortNotInThread() KANON_NOEXCEPT { kv_assert(false, "called outside the loop thread"); kv_pathend(); }
void EventLoop::UpdateChannel(Channel *) {}
void EventLoop::RemoveChannel(Channel *) {}
TimeStamp TimeStamp::Now() KANON_NOEXCEPT { return TimeStamp(4242); }

// ---- the kernel's table entry of the channel under test
static bool g_reg;
static uint32_t g_events;
static void *g_ptr;
static int g_fd, g_ctl;
enum { EPFD = 5 };
extern "C" int epoll_ctl(int ep, int op, int fd, struct epoll_event *e) noexcept
{
  kv_assert(ep == EPFD, "epoll_ctl on the poller's own epoll instance");
  kv_assert(fd == g_fd, "epoll_ctl for the channel's descriptor only");
  g_ctl++;
  if (op == EPOLL_CTL_ADD) { kv_assert(!g_reg, "a descriptor is added only when it is not registered (EEXIST aborts)"); g_reg = true; g_events = e->events; g_ptr = e->data.ptr; }
  else if (op == EPOLL_CTL_MOD) { kv_assert(g_reg, "a descriptor is modified only when it is registered (ENOENT aborts)"); g_events = e->events; g_ptr = e->data.ptr; }
  else if (op == EPOLL_CTL_DEL) { kv_assert(g_reg, "a descriptor is removed only when it is registered (ENOENT aborts)"); g_reg = false; }
  else kv_assert(false, "a valid epoll operation");
  return 0;
}
static int g_closed;
extern "C" int close(int fd) { kv_assert(fd == EPFD, "closes its own descriptor"); g_closed++; return 0; }
extern "C" int epoll_create1(int) noexcept { return EPFD; }

// what epoll_wait reports: entry i is channel chan(i), with returned events rev(i)
static KvRaw<Channel> *g_ch;
static int g_n, g_ret, g_err, g_waits, g_ms;
static uint64_t g_pushed;
static void kv_push(Channel *c)
{
  kv_assert(g_pushed < (uint64_t)g_n, "nothing is reported that the kernel did not report");
  kv_assert(c == &g_ch[g_pushed].r(), "the channels the kernel reported, each once");
  kv_assert((uint32_t)c->GetRevents() == g_ev[g_pushed].events, "a reported channel carries the events the kernel returned for it");
  g_pushed++;
}
extern "C" int epoll_wait(int ep, struct epoll_event *e, int max, int ms)
{
  kv_assert(ep == EPFD, "epoll_wait on the poller's own epoll instance");
  kv_assert(e == g_ev && max > 0 && (uint64_t)max <= g_evn, "epoll_wait may fill only the event array, and it has room");
  g_waits++;
  g_ms = ms;
  if (g_ret <= 0) { errno = g_err; return g_ret; }
  g_n = g_ret > max ? max : g_ret;
  return g_n;
}
#include "kanon/linux/net/epoller.cc"

static Epoller *mk(bool et)
{
  CurrentThread::t_tid = 100;
  KvRaw<EventLoop> *el = new KvRaw<EventLoop>;
  EventLoop *l = &el->r();
  *(int *)&l->owner_thread_id_ = 100;
  Epoller *p = new Epoller(l);
  kv_assert(p->events_.size() > 0, "the event array has room from the start");
  p->is_et_mode_ = et;
  return p;
}
static uint32_t ev_arg(char const *n)   // an interest a channel can have
{
  uint32_t e = kv_u32(n);
  if (kv_mode() == 1 && ((e & ~7u) || (e & 3) == 1 || (e & 3) == 2)) e = (e & 4) | (e & 1 ? 3 : 0);
  kv_assume((e & ~7u) == 0 && ((e & 3) == 0 || (e & 3) == 3));
  return e;
}
static Channel *chan(Epoller *p, bool et)
{
  KvRaw<Channel> *c = new KvRaw<Channel>;
  Channel *ch = &c->r();
  g_fd = kv_u32("fd") & 0x3fffffff;
  *(int *)&ch->fd_ = g_fd;
  // the class invariant: the kernel knows the channel exactly when the channel says so, with its interest
  g_reg = kv_bool("registered");
  ch->index_ = g_reg ? detail::kAdded : detail::kNew;
  uint32_t e = ev_arg("old_interest");
  if (g_reg) { kv_assume(e != 0); g_events = e | (et ? EPOLLET : 0); g_ptr = ch; }
  return ch;
}
static void inv(Channel *ch, bool et)
{
  kv_assert(g_reg == (ch->GetIndex() == detail::kAdded), "the channel knows whether it is registered");
  if (g_reg) {
    kv_assert(g_ptr == ch, "the kernel will report this channel");
    kv_assert((g_events & ~EPOLLET) == (uint32_t)ch->GetEvents(), "the kernel watches for exactly the interest of the channel");
    kv_assert(((g_events & EPOLLET) != 0) == et, "edge-triggered exactly when the mode is set");
  }
}
HARNESS(ep_update)
{
  bool et = kv_bool("et");
  Epoller *p = mk(et);
  Channel *ch = chan(p, et);
  ch->SetEvents((int)ev_arg("interest"));
  p->UpdateChannel(ch);
  kv_cover("updated");
  inv(ch, et);
  kv_assert(g_reg == !ch->IsNoneEvent(), "a channel is watched exactly when it has an interest");
}
HARNESS(ep_remove)
{
  bool et = kv_bool("et");
  Epoller *p = mk(et);
  Channel *ch = chan(p, et);
  ch->SetEvents((int)ev_arg("interest"));
  p->RemoveChannel(ch);
  kv_cover("removed");
  kv_assert(!g_reg, "a removed channel is no longer watched");
  inv(ch, et);
  // and it can come back
  p->UpdateChannel(ch);
  inv(ch, et);
  kv_assert(g_reg == !ch->IsNoneEvent(), "a channel is watched exactly when it has an interest");
}
HARNESS(ep_lifetime)
{
  Epoller *p = mk(false);
  kv_assert(p->epoll_fd_ == EPFD && !p->IsEdgeTriggerMode(), "a new poller is level-triggered");
  p->SetEdgeTriggertMode();
  kv_assert(p->IsEdgeTriggerMode(), "edge-triggered exactly when the mode is set");
  delete p;
  kv_cover("destroyed");
  kv_assert(g_closed == 1, "the epoll descriptor is closed once");
}
static void *elem(void *c, uint64_t i) { return &((KvRaw<Channel> *)c)[i]; }
struct Rev { struct epoll_event *ev; KvRaw<Channel> *ch; };
static bool same(void *c, uint64_t j) { Rev *r = (Rev *)c; return (uint32_t)r->ch[j].r().revents_ == r->ev[j].events; }
static bool pushed(void *c) { return *(uint64_t *)c == g_pushed; }
static bool interested(void *c, uint64_t j) { return ((KvRaw<Channel> *)c)[j].r().events_ != 0; }
HARNESS(ep_poll)
{
  bool et = kv_bool("et");
  Epoller *p = mk(et);
  g_evn = kv_size("room");
  kv_assume(g_evn > 0 && g_evn < (1u << 29));   // fewer than 2^29 descriptors
  g_ch = (KvRaw<Channel> *)kv_family("channels", sizeof(Channel), g_evn, ~0ul);
  kv_field_int(g_ch, offsetof(Channel, revents_), 4);
  kv_field_int(g_ch, offsetof(Channel, events_), 4);
  kv_field_int(g_ch, offsetof(Channel, fd_), 4);
  kv_forall(interested, g_ch, 0, g_evn);        // ep_update: what is registered has an interest
  g_ev = (struct epoll_event *)kv_family("events", sizeof(struct epoll_event), g_evn, ~0ul);
  kv_field_int(g_ev, offsetof(struct epoll_event, events), 4);
  kv_field_fn(g_ev, offsetof(struct epoll_event, data), 8, 1, (void *)elem, g_ch);
  p->events_.p = g_ev;
  p->events_.n = g_evn;
  g_ret = (int)kv_u32("ready");
  kv_assume(g_ret >= -1);
  g_err = kv_bool("intr") ? EINTR : EBADF;
  Rev r = {g_ev, g_ch};
  kv_total(true);
  kv_template(same, &r);
  std::vector<Channel *> act;
  int ms = (int)kv_u32("ms");
  TimeStamp t = p->Poll(ms, act);
  kv_cover("polled");
  kv_assert(g_waits == 1 && g_ms == ms, "waits once, for the given time");
  kv_assert(g_pushed == (uint64_t)(g_n > 0 ? g_n : 0), "every channel the kernel reported is active");
  kv_assert(t.GetMicrosecondsSinceEpoch() == 4242, "the time of the poll is returned");
  kv_check_forall(same, &r, 0, g_n, "a reported channel carries the events the kernel returned for it");
  kv_assert(p->events_.size() >= g_evn && (p->events_.size() > g_evn || (uint64_t)g_n < g_evn), "a full event array grows");
}
