// C15 (poll part): registration and reporting of kanon/linux/net/poller.cc
#include "kv.h"
#include <algorithm>
#include <errno.h>
#include <functional>
#include <poll.h>
#include <unordered_map>
#include <vector>
namespace kanon { class Channel; }

// ---- library contract: std::vector<pollfd>, an array with room for one more element
template <> class std::vector<struct pollfd> {
 public:
  struct pollfd *p; uint64_t n, room;
  typedef struct pollfd *iterator;
  typedef struct pollfd value_type;
  vector() : p(nullptr), n(0), room(0) {}
  struct pollfd *data() { return p; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  struct pollfd &operator[](size_t i) { kv_assert(i < n, "inside the pollfd array"); return p[i]; }
  struct pollfd *begin() { return p; }
  struct pollfd *end() { return p + n; }
  struct pollfd &back() { kv_assert(n > 0, "the pollfd array is not empty"); return p[n - 1]; }
  void pop_back() { kv_assert(n > 0, "the pollfd array is not empty"); n--; }
  void emplace_back(struct pollfd f) { kv_assume(n < room); p[n].fd = f.fd; p[n].events = f.events; p[n].revents = f.revents; n++; }
  void push_back(struct pollfd f) { emplace_back(f); }
};
// ---- library contract: std::unordered_map<int, Channel*>: a set of registered descriptors,
// descriptor f is mapped to element f of the channel family
static kanon::Channel *kv_ch(int fd);
static bool kv_has(int fd);
static void kv_put(int fd, bool on);
static kanon::Channel *g_new;    // the value of a new entry
template <> class std::unordered_map<int, kanon::Channel *> {
 public:
  typedef std::pair<const int, kanon::Channel *> value_type;
  struct iterator {
    int f; bool e; mutable value_type v;
    iterator(int k, bool end, kanon::Channel *c) : f(k), e(end), v(k, c) {}
    value_type *operator->() const { kv_assert(!e, "the map iterator points to an entry"); return &v; }
    value_type &operator*() const { kv_assert(!e, "the map iterator points to an entry"); return v; }
    bool operator==(iterator const &o) const { return e ? o.e : !o.e && f == o.f; }
    bool operator!=(iterator const &o) const { return !(*this == o); }
  };
  iterator end() { return iterator(0, true, nullptr); }
  iterator find(int f) { if (kv_has(f)) return iterator(f, false, kv_ch(f)); return end(); }
  size_t count(int f) { return kv_has(f); }
  void emplace_hint(iterator, int f, kanon::Channel *c) { emplace(f, c); }
  void emplace(int f, kanon::Channel *c) { if (!kv_has(f)) { kv_assert(c == kv_ch(f), "a descriptor is mapped to its channel"); kv_put(f, true); } }
  kanon::Channel *&operator[](int f) { kv_assert(kv_has(f), "the descriptor is in the map"); g_new = kv_ch(f); return g_new; }
  kanon::Channel *&at(int f) { return (*this)[f]; }
  void erase(iterator i) { kv_assert(!i.e, "the map iterator points to an entry"); kv_put(i.f, false); }
  size_t erase(int f) { bool h = kv_has(f); if (h) kv_put(f, false); return h; }
};
static void kv_push(kanon::Channel *);
template <> class std::vector<kanon::Channel *> {
 public:
  void emplace_back(kanon::Channel *c) { kv_push(c); }
  void push_back(kanon::Channel *c) { kv_push(c); }
};
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/poll/poller.h"
#include "kanon/net/timer/timer_queue.h"
using namespace kanon;
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }
void EventLoop::AbortNotInThread() KANON_NOEXCEPT { kv_assert(false, "called outside the loop thread"); kv_pathend(); }
void EventLoop::UpdateChannel(Channel *) {}
void EventLoop::RemoveChannel(Channel *) {}
TimeStamp TimeStamp::Now() KANON_NOEXCEPT { return TimeStamp(4242); }

static KvRaw<Channel> *g_ch;       // channel of descriptor f at index f
static uint64_t g_fds;             // descriptors are below g_fds
struct Reg { uint32_t on; };
static Reg *g_reg;                 // descriptor f is in the map
static struct pollfd *g_pfd;
static Poller *g_p;
static Channel *kv_ch(int fd) { kv_assert(fd >= 0 && (uint64_t)fd < g_fds, "a descriptor of a channel"); return &g_ch[fd].r(); }
static bool kv_has(int fd) { if (fd < 0 || (uint64_t)fd >= g_fds) return false; return g_reg[fd].on != 0; }
static void kv_put(int fd, bool on) { g_reg[fd].on = on; }

static int g_ret, g_err, g_polls, g_ms;
extern "C" int poll(struct pollfd *p, nfds_t n, int ms)
{
  kv_assert(p == g_pfd && n == g_p->pollfds_.n, "poll is given the whole pollfd array");
  g_polls++;
  g_ms = ms;
  if (g_ret < 0) errno = g_err;
  return g_ret;
}
#include "kanon/linux/net/poller.cc"

// ---- the class invariant, in two halves
static int fd_of(int x) { return x < 0 ? -x - 1 : x; }
// every registered descriptor has its slot
static bool i1(void *, uint64_t f)
{
  if (!g_reg[f].on) return true;
  int x = g_ch[f].r().index_;
  if (x < 0 || (uint64_t)x >= g_p->pollfds_.n) return false;
  struct pollfd &s = g_pfd[(uint64_t)x];
  return fd_of(s.fd) == (int)f;
}
// every slot belongs to a registered descriptor, and is ignored exactly when there is no interest
static bool i2(void *, uint64_t k)
{
  if (k >= g_p->pollfds_.n) return true;
  int f = fd_of(g_pfd[k].fd);
  if ((uint64_t)f >= g_fds) return false;
  if (!g_reg[(uint64_t)f].on) return false;
  Channel &c = g_ch[(uint64_t)f].r();
  return c.index_ == (int)k;
}
static bool i3(void *, uint64_t k)
{
  if (k >= g_p->pollfds_.n) return true;
  int f = fd_of(g_pfd[k].fd);
  if ((uint64_t)f >= g_fds) return false;
  Channel &c = g_ch[(uint64_t)f].r();
  return g_pfd[k].events == (short)c.events_ && (g_pfd[k].fd >= 0) == (c.events_ != 0);
}
static bool free1(void *, uint64_t f) { return g_reg[f].on || g_ch[f].r().index_ == -1; }
static uint64_t selfd(void *, uint64_t f) { return f; }

static void state(bool polling)
{
  CurrentThread::t_tid = 100;
  KvRaw<EventLoop> *el = new KvRaw<EventLoop>;
  EventLoop *l = &el->r();
  *(int *)&l->owner_thread_id_ = 100;
  g_p = new Poller(l);
  kv_assert(g_p->pollfds_.size() == 0, "a new poller watches nothing");
  g_fds = kv_size("fds");
  kv_assume(g_fds < (1u << 29));
  uint64_t room = kv_size("room");
  kv_assume(room < (1u << 29));
  g_p->pollfds_.room = room;
  uint64_t n = kv_fit(kv_size("n"), room);
  if (kv_mode() == 1) n = kv_fit(n, g_fds);
  kv_assume(n <= room);
  g_p->pollfds_.n = n;
  g_ch = (KvRaw<Channel> *)kv_family("channels", sizeof(Channel), g_fds, ~0ul);
  kv_field_fn(g_ch, offsetof(Channel, fd_), 4, 0, (void *)selfd, nullptr);
  kv_field_int(g_ch, offsetof(Channel, events_), 4);
  kv_field_int(g_ch, offsetof(Channel, revents_), 4);
  kv_field_int(g_ch, offsetof(Channel, index_), 4);
  g_reg = (Reg *)kv_family("registered", sizeof(Reg), g_fds, ~0ul);
  kv_field_int(g_reg, 0, 4);
  g_pfd = (struct pollfd *)kv_family("pollfds", sizeof(struct pollfd), room, ~0ul);
  kv_field_int(g_pfd, 0, 4);
  kv_field_int(g_pfd, offsetof(struct pollfd, events), 2);
  kv_field_int(g_pfd, offsetof(struct pollfd, revents), 2);
  g_p->pollfds_.p = g_pfd;
  if (kv_mode() == 1 && kv_fix(8)) {
    // native runs: a table that is in order
    for (uint64_t f = 0; f < g_fds; f++) { g_reg[f].on = 0; g_ch[f].r().index_ = -1; if (kv_fix(4)) g_ch[f].r().events_ = (int)kv_fix(8); }
    for (uint64_t k = 0; k < n; k++) {
      uint64_t f = kv_fix(g_fds);
      while (g_reg[f].on) f = (f + 1) % g_fds;
      g_reg[f].on = 1;
      Channel &c = g_ch[f].r();
      c.index_ = (int)k;
      uint64_t e = kv_fix(4);
      c.events_ = e == 0 ? 0 : e == 1 ? 3 : e == 2 ? 4 : 7;
      g_pfd[k].events = (short)c.events_;
      g_pfd[k].fd = c.events_ ? (int)f : -(int)f - 1;
      if (kv_fix(2)) g_pfd[k].revents = (short)(kv_fix(2) ? kv_fix(64) : 0);
    }
  }
  kv_forall(i2, nullptr, 0, room);
  if (polling) return;
  kv_forall(i1, nullptr, 0, g_fds);
  kv_forall(free1, nullptr, 0, g_fds);
}
static void inv()
{
  kv_check_forall(i1, nullptr, 0, g_fds, "every registered descriptor has its slot in the pollfd array");
  kv_check_forall(i2, nullptr, 0, g_p->pollfds_.room, "every slot belongs to one registered descriptor");
  kv_check_forall(i3, nullptr, 0, g_p->pollfds_.room, "the kernel watches for exactly the interest of each channel");
  kv_check_forall(free1, nullptr, 0, g_fds, "a channel that is not registered can be registered again");
}
struct Skip { uint64_t f; };
// the interest may differ from the slot only for the channel being updated
static bool i3x(void *c, uint64_t k)
{
  if (k < g_p->pollfds_.n && (uint64_t)fd_of(g_pfd[k].fd) == ((Skip *)c)->f) return true;
  return i3(nullptr, k);
}
HARNESS(po_update)
{
  state(false);
  uint64_t f = kv_u64("k_fd");
  if (kv_mode() == 1 && g_fds) f = kv_fit(f, g_fds - 1);
  kv_assume(f < g_fds);
  Skip s = {f};
  kv_forall(i3x, &s, 0, g_p->pollfds_.room);
  Channel *ch = &g_ch[f].r();
  uint32_t e = kv_u32("interest");
  kv_assume((e & ~7u) == 0 && ((e & 3) == 0 || (e & 3) == 3));
  ch->SetEvents((int)e);
  g_p->UpdateChannel(ch);
  kv_cover("updated");
  kv_assert(g_reg[f].on, "an updated channel is registered");
  kv_term((uint64_t)ch->index_);
  inv();
}
HARNESS(po_remove)
{
  state(false);
  uint64_t f = kv_u64("k_fd");
  if (kv_mode() == 1 && g_fds) f = kv_fit(f, g_fds - 1);
  kv_assume(f < g_fds);
  Skip s = {f};
  kv_forall(i3x, &s, 0, g_p->pollfds_.room);
  Channel *ch = &g_ch[f].r();
  bool was = g_reg[f].on;
  uint64_t n = g_p->pollfds_.n;
  kv_term((uint64_t)ch->index_);
  kv_term(n - 1);
  g_p->RemoveChannel(ch);
  kv_cover("removed");
  kv_assert(!g_reg[f].on, "a removed channel is not registered");
  kv_assert(g_p->pollfds_.n == n - was, "exactly its slot is removed");
  inv();
}

// ---- poll(2) returned: ret slots have returned events; b(i) of them are among the first i
struct Cnt { uint32_t b; };
static Cnt *g_cnt;
static uint64_t g_J;        // an arbitrary slot with returned events
static bool g_seen;
static uint32_t g_pushed;
static void kv_push(Channel *c)
{
  kv_assert(kv_is_elem(c, g_ch), "a registered channel is reported");
  uint64_t k = (uint64_t)c->index_;
  kv_assert(c->index_ >= 0 && k < g_p->pollfds_.n && g_pfd[k].fd == c->fd_, "a registered channel is reported");
  kv_assert(g_pfd[k].revents != 0, "nothing is reported without returned events");
  kv_assert(c->revents_ == g_pfd[k].revents, "a reported channel carries the events poll returned for it");
  if (k == g_J) { kv_assert(!g_seen, "each channel is reported once"); g_seen = true; }
  g_pushed++;
}
static bool cnt(void *, uint64_t i) { return g_cnt[i + 1].b == g_cnt[i].b + (g_pfd[i].revents != 0); }
static bool mono(void *, uint64_t i) { return g_cnt[i].b <= g_cnt[g_J].b; }
static bool revs(void *, uint64_t i) { return g_pfd[i].revents >= 0 && (g_pfd[i].fd >= 0 || g_pfd[i].revents == 0); }
static bool at_pushed(void *, uint64_t i) { return g_cnt[i].b == g_pushed; }
static bool at_seen(void *, uint64_t i) { return g_seen == (i > g_J); }
HARNESS(po_poll)
{
  state(true);
  uint64_t n = g_p->pollfds_.n;
  kv_forall(revs, nullptr, 0, n);
  g_ret = (int)kv_u32("ready");
  kv_assume(g_ret >= -1);
  g_err = kv_bool("intr") ? EINTR : EBADF;
  g_cnt = (Cnt *)kv_family("count", sizeof(Cnt), n + 1, ~0ul);
  kv_field_int(g_cnt, 0, 4);
  g_J = kv_u64("k_J");
  bool some = kv_bool("some");
  if (some) {
    kv_assume(g_ret > 0 && g_J < n && g_pfd[g_J].revents != 0);
    kv_assume(g_cnt[g_J].b < (uint32_t)g_ret);
    kv_assume(g_cnt[0].b == 0);
    kv_forall(cnt, nullptr, 0, n);
    kv_forall(mono, nullptr, 0, g_J + 1);
  } else {
    kv_assume(g_J == ~0ul);
    kv_assume(g_ret >= 0 || true);
  }
  kv_total(true);
  kv_template(at_pushed, nullptr);
  kv_template(at_seen, nullptr);
  std::vector<Channel *> act;
  int ms = (int)kv_u32("ms");
  TimeStamp t = g_p->Poll(ms, act);
  kv_cover("polled");
  kv_assert(g_polls == 1 && g_ms == ms, "waits once, for the given time");
  kv_assert(t.GetMicrosecondsSinceEpoch() == 4242, "the time of the poll is returned");
  if (some) kv_assert(g_seen, "every channel with returned events is reported");
  if (g_ret <= 0) kv_assert(g_pushed == 0, "nothing is reported when poll failed or timed out");
}
