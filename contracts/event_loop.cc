// C16: the functor queue and the dispatch loop (kanon/net/event_loop.cc)
#include "kv.h"
#include <atomic>
#include <errno.h>
#include <functional>
#include <memory>
#include <pthread.h>
#include <sys/eventfd.h>
#include <unistd.h>
#include <vector>
namespace kanon { class Channel; class PollerBase; }
using Functor = std::function<void()>;

static bool g_locked;            // the queue lock is held by this thread
static bool g_added;             // something was queued after the list that is in the vector
static void kv_queue_access() { kv_assert(g_locked, "the functor queue is accessed only with its lock held"); }
static Functor *g_last;          // the functor that was queued last
static bool kv_quit();
static bool g_early;             // ... and it was queued before Quit
static bool g_pushed;            // a functor is queued and no call round has taken it
static bool g_wake;              // the eventfd is readable
static bool g_wrote;             // the eventfd was written
static uint64_t g_nfun;          // the functors queued at the start

// ---- library contract: std::vector<std::function<void()>>, the functors [0,n) of the family
// plus whatever was queued after them (g_added)
template <> class std::vector<Functor> {
 public:
  Functor *p; uint64_t n; bool shared;
  typedef Functor *iterator;
  typedef Functor value_type;
  vector() : p(nullptr), n(0), shared(false) {}
  ~vector() {}
  bool empty() const { if (shared) kv_queue_access(); return n == 0; }
  size_t size() const { if (shared) kv_queue_access(); return n; }
  void emplace_back(Functor &&f) { push(std::move(f)); }
  void push_back(Functor &&f) { push(std::move(f)); }
  void emplace_back(Functor const &f) { push(Functor(f)); }
  void push_back(Functor const &f) { push(Functor(f)); }
  void push(Functor &&f)
  {
    kv_assert(shared, "functors are queued in the shared queue");
    kv_queue_access();
    g_added = true;
    g_pushed = true;
    if (!kv_quit()) g_early = true;
    if (g_last) *g_last = std::move(f);
  }
  void swap(vector &o)
  {
    if (shared || o.shared) kv_queue_access();
    kv_assert(shared != o.shared, "the queue is exchanged with a local list");
    vector &s = shared ? *this : o, &l = shared ? o : *this;
    kv_assert(l.n == 0, "the queue is exchanged with an empty list");
    l.p = s.p; l.n = s.n; s.p = nullptr; s.n = 0;
    g_pushed = g_early = false;
  }
  vector(vector &&o) : p(nullptr), n(0), shared(false) { swap(o); }
  Functor *begin() { return p; }
  Functor *end() { return p + n; }
  Functor *data() { return p; }
  Functor &operator[](size_t i) { kv_assert(i < n, "inside the list of functors"); return p[i]; }
};
template <> inline void std::swap(std::vector<Functor> &a, std::vector<Functor> &b) { a.swap(b); }
// ---- library contract: std::vector<Channel*>: n channels, channel i is element i of the family
static kanon::Channel *kv_chan(uint64_t i);
template <> class std::vector<kanon::Channel *> {
 public:
  uint64_t n;
  kanon::Channel **p;
  vector() : n(0), p(nullptr) {}
  ~vector() {}
  typedef kanon::Channel **iterator;
  bool empty() const { return n == 0; }
  size_t size() const { return n; }
  void clear() { n = 0; }
  kanon::Channel **begin() { return p; }
  kanon::Channel **end() { return p + n; }
  kanon::Channel *&operator[](size_t i) { kv_assert(i < n, "inside the list of active channels"); return p[i]; }
};
#include <stdio.h>
#include <string.h>
// the textual thread id is not observed
static int kv_snprintf(char *b, size_t, char const *, ...) { b[0] = '1'; b[1] = 0; return 1; }
static int g_tid;
static char *kv_strncpy(char *d, char const *s, size_t n) { d[0] = s[0]; return d; }
#define snprintf kv_snprintf
#define strncpy kv_strncpy
#include "kanon/thread/current_thread.h"
#undef snprintf
#undef strncpy
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/poll/poller.h"
#include "kanon/net/poll/epoller.h"
#include "kanon/net/timer/timer_queue.h"
using namespace kanon;
namespace kanon { namespace CurrentThread {
KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name;
} }
AtomicCounter64 Timer::s_counter_;
static EventLoop *g_l;
static int g_closed;
extern "C" long syscall(long, ...) KANON_NOEXCEPT { return g_tid; }
extern "C" int close(int fd) { kv_assert(fd == 9 && !g_closed, "the eventfd is closed, once"); g_closed++; return 0; }

// ---- the environment: other threads may queue functors (and wake the loop up) whenever the
// lock is free, and may make the loop quit at any time
static bool g_env;
static bool kv_quit() { return g_l->quit_; }
static void kv_env()
{
  if (!g_env) return;
  bool p = kv_bool("other_push"), q = kv_bool("other_quits"), quit = g_l->quit_;
  g_pushed = g_pushed | p;
  g_added = g_added | p;
  g_early = g_early | (p & !quit);
  g_wake = g_wake | p | (q & !quit);
  g_l->quit_ = quit | q;
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t *, pthread_mutexattr_t const *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
  kv_assert(m == &g_l->lock_.mutex_, "the lock of the queue");
  kv_assert(!g_locked, "the queue lock is not taken twice (deadlock)");
  kv_env();
  g_locked = true;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  kv_assert(m == &g_l->lock_.mutex_ && g_locked, "the lock that was taken is released");
  g_locked = false;
  return 0;
}
int eventfd(unsigned, int) KANON_NOEXCEPT { return 9; }
ssize_t write(int fd, void const *p, size_t n)
{
  kv_assert(fd == 9 && n == 8, "the eventfd is given eight bytes");
  kv_valid(p, 8);
  kv_assert(*(uint64_t const *)p != 0, "the eventfd is given a nonzero count (zero does not wake)");
  kv_assert(!g_locked, "the loop is woken up without holding the lock");
  g_wake = true;
  g_wrote = true;
  return 8;
}
ssize_t read(int fd, void *p, size_t n)
{
  kv_assert(fd == 9 && n >= 8, "the eventfd counter is read");
  kv_valid(p, n);
  g_wake = false;
  return 8;
}
}

// ---- the queued functors: functor i is element i of the family, calling it is observed
static Functor *g_f;
static uint64_t g_n, g_next;     // functors of this round, functors called so far
static bool g_busy;              // functors queue functors, quit the loop, ...
static uint64_t kv_id(void *, uint64_t i) { return i; }
static bool kv_mgr(std::_Any_data &, const std::_Any_data &, std::_Manager_operation) { return false; }
static void kv_inv(const std::_Any_data &d)
{
  uint64_t i = *(uint64_t const *)&d;
  kv_assert(i == g_next, "the functors are called in the order they were queued, each once");
  kv_assert(i < g_n, "only queued functors are called");
  kv_assert(!g_locked, "functors are called without the lock (they may queue functors)");
  kv_assert(g_l->calling_functors_, "the functor phase is known while functors are called");
  g_next++;
  if (g_busy) {
    if (kv_bool("functor_queues")) g_l->QueueToLoop(Functor());
    if (kv_bool("functor_quits")) g_l->Quit();
  }
}
static void *kv_pmgr(void *, uint64_t) { return (void *)kv_mgr; }
static void *kv_pinv(void *, uint64_t) { return (void *)kv_inv; }
static uint64_t g_fcap, g_ccap;  // as many functors and channels as there may be
static void kv_fill()            // an arbitrary number of functors is queued
{
  if (!g_f) {
    g_fcap = kv_size("functors");
    kv_assume(g_fcap < (1u << 29));
    g_f = (Functor *)kv_family("functors", sizeof(Functor), g_fcap, ~0ul);
    kv_field_fn(g_f, 0, 8, 0, (void *)kv_id, nullptr);
    kv_field_fn(g_f, 16, 8, 1, (void *)kv_pmgr, nullptr);
    kv_field_fn(g_f, 24, 8, 1, (void *)kv_pinv, nullptr);
  }
  g_n = kv_size("queued");
  kv_assume(g_n <= g_fcap);
  g_next = 0;
  g_l->functors_.p = g_f;
  g_l->functors_.n = g_n;
}
// ---- contracts of the pollers, the channels and the timers
static uint64_t g_tick;          // time of the last poll
static uint64_t g_disp;          // channels dispatched since
static uint64_t g_nact;          // channels reported by it
static bool g_inround, g_phase2;
static Channel **g_act;
static unsigned g_upd, g_rem;
static Channel *g_last_ch;
static bool g_iter;              // one whole iteration was made
static TimeStamp kv_poll(int ms, std::vector<Channel *> &v)
{
  kv_assert(v.n == 0, "the loop polls with an empty list");
  kv_assert(g_disp == g_nact, "every active channel was handled before the next poll");
  kv_assert(g_l->looping_, "the loop is marked as running");
  kv_assert(!g_pushed || g_wake || ms == 0, "the loop never sleeps while a functor is queued");
  kv_assert(!g_locked, "the loop does not sleep with the lock held");
  kv_assert(!g_l->calling_functors_, "no functor is being called");
  kv_env();
  g_tick = kv_u64("now");
  g_nact = kv_size("active");
  kv_assume(g_nact <= g_ccap);
  g_disp = 0;
  v.n = g_nact;
  v.p = g_act;
  return TimeStamp((int64_t)g_tick);
}
Poller::Poller(EventLoop *l) : PollerBase(l) {}
Poller::~Poller() KANON_NOEXCEPT {}
TimeStamp Poller::Poll(int ms, ChannelVec &v) KANON_NOEXCEPT { return kv_poll(ms, v); }
void Poller::UpdateChannel(Channel *c) { g_upd++; g_last_ch = c; }
void Poller::RemoveChannel(Channel *c) { g_rem++; g_last_ch = c; }
Epoller::Epoller(EventLoop *l) : PollerBase(l) {}
Epoller::~Epoller() KANON_NOEXCEPT {}
TimeStamp Epoller::Poll(int ms, ChannelVec &v) { return kv_poll(ms, v); }
void Epoller::UpdateChannel(Channel *c) { g_upd++; g_last_ch = c; }
void Epoller::RemoveChannel(Channel *c) { g_rem++; g_last_ch = c; }
ITimerQueuePlatform::ITimerQueuePlatform(EventLoop *l) : loop_(l) {}
ITimerQueuePlatform::~ITimerQueuePlatform() KANON_NOEXCEPT {}
TimerQueue::TimerQueue(EventLoop *l) : ITimerQueuePlatform(l) {}
TimerQueue::~TimerQueue() KANON_NOEXCEPT {}
// the timer queue (C17) is told what to run and when
static unsigned g_adds, g_cancels;
static TimerCallback *g_cb;
static int64_t g_now, g_when;
static double g_every;
static TimerId g_given;
static bool same_id(TimerId const &a, TimerId const &b) { return a.timer_ == b.timer_ && a.seq_ == b.seq_ && a.ctx_ == b.ctx_; }
TimerId TimerQueue::AddTimer(TimerCallback cb, TimeStamp t, double every)
{
  kv_assert(this == g_l->timer_queue_.get(), "the timer goes to the queue of the loop");
  g_adds++;
  if (g_cb) *g_cb = std::move(cb);
  g_when = t.GetMicrosecondsSinceEpoch();
  g_every = every;
  return g_given;
}
void TimerQueue::CancelTimer(TimerId const id)
{
  kv_assert(this == g_l->timer_queue_.get() && same_id(id, g_given), "the timer that was given is cancelled");
  g_cancels++;
}
TimeStamp TimeStamp::Now() KANON_NOEXCEPT { return TimeStamp(g_now); }
Channel::Channel(EventLoop *l, int fd) : fd_(fd), events_(0), revents_(0), index_(-1), loop_(l), events_handling_(false) {}
Channel::~Channel() KANON_NOEXCEPT {}
void Channel::Update() { loop_->UpdateChannel(this); }
void Channel::Remove() KANON_NOEXCEPT { loop_->RemoveChannel(this); }
void Channel::HandleEvents(TimeStamp t)
{
  kv_assert(this == kv_chan(g_disp), "the active channels are handled in the order reported, each once");
  kv_assert((uint64_t)t.GetMicrosecondsSinceEpoch() == g_tick, "each handler is given the time of its poll");
  kv_assert(!g_locked && !g_l->calling_functors_, "events are handled outside the functor phase");
  g_disp++;
  if (kv_bool("handler_queues")) g_l->QueueToLoop(Functor());
  if (kv_bool("handler_quits")) g_l->Quit();
}
#include "kanon/net/event_loop.cc"

static KvRaw<Channel> *g_chans;
static Channel *kv_chan(uint64_t i) { return &g_chans[i].r(); }
static void *kv_pchan(void *, uint64_t i) { return &g_chans[i]; }

enum Thread { LOOP, OTHER };
// the loop was made by thread 100; this call comes from that thread or another one, whose id may not be cached yet
static void make(bool poller, Thread t, bool cached = false)
{
  g_tid = 100;
  CurrentThread::t_tid = cached || kv_bool("cached_at_birth") ? 100 : 0;
  CurrentThread::t_tidLength = 0;
  g_l = nullptr;
  KvRaw<EventLoop> *raw = new KvRaw<EventLoop>;
  g_l = &raw->r();
  new (g_l) EventLoop(poller);
  g_l->functors_.shared = true;
  if (t == OTHER) g_tid = 200;
  CurrentThread::t_tid = cached || kv_bool("cached") ? g_tid : 0;
}
HARNESS(el_life)
{
  make(kv_bool("poller"), LOOP);
  kv_assert(g_l->ev_channel_->GetFd() == 9 && g_l->ev_channel_->IsReading() && !g_l->ev_channel_->IsWriting() && g_upd == 1 && g_last_ch == g_l->ev_channel_.get(),
            "a new loop watches its eventfd");
  kv_assert(!g_l->looping_ && !g_l->quit_ && !g_l->calling_functors_, "a new loop is not running");
  kv_assert(g_l->IsLoopInThread(), "a loop belongs to the thread that made it");
  g_l->Wakeup();
  kv_assert(g_wake && g_wrote, "waking up makes the eventfd readable");
  g_l->ev_channel_->read_callback_(TimeStamp(5));
  kv_assert(!g_wake, "the wake-up is consumed by the read handler of the eventfd");
  kv_assert(!g_closed, "the eventfd stays open while the loop lives");
  Channel *c = kv_chan(3);
  g_l->UpdateChannel(c);
  kv_assert(g_upd == 2 && g_last_ch == c, "channel updates reach the poller");
  g_l->RemoveChannel(c);
  kv_assert(g_rem == 1 && g_last_ch == c, "channel removals reach the poller");
  g_l->~EventLoop();
  kv_assert(g_closed == 1, "the eventfd is closed with the loop");
  kv_cover("created and destroyed");
}
static int g_called;
HARNESS(el_queue)
{
  bool in = kv_bool("in_thread");
  make(false, in ? LOOP : OTHER);
  Functor last;
  g_last = &last;
  kv_fill();
  uint64_t n = g_n;
  g_l->looping_ = kv_bool("looping");
  g_l->calling_functors_ = kv_bool("calling");
  g_env = true;
  int tag = (int)kv_u32("tag");
  g_l->QueueToLoop([tag]() { kv_assert(g_called == 0, "called once"); g_called = 1; kv_assert(tag == tag, ""); });
  kv_cover("queued");
  kv_assert(g_called == 0, "a queued functor is not called at once");
  kv_assert(g_pushed && g_l->functors_.n == n && g_l->functors_.p == g_f, "it is queued after all others");
  kv_assert(!g_locked, "the lock is released");
  last();
  kv_assert(g_called == 1, "the functor that was given is the one that is queued");
  if (!(in && g_l->looping_ && !g_l->calling_functors_)) kv_assert(g_wake, "the loop is woken up unless it will call the functor before it sleeps");
}
HARNESS(el_run)
{
  bool in = kv_bool("in_thread");
  make(false, in ? LOOP : OTHER);
  Functor last;
  g_last = &last;
  g_l->looping_ = kv_bool("looping");
  g_l->calling_functors_ = kv_bool("calling");
  kv_assert(g_l->IsLoopInThread() == in, "a thread is the loop thread exactly if it made the loop");
  g_l->RunInLoop([]() { kv_assert(g_called == 0, "called once"); kv_assert(!g_locked, "called without the lock"); g_called = 1; });
  kv_cover("run");
  kv_assert(g_called == in, "a functor is called at once in the loop thread, and only there");
  kv_assert(g_pushed == !in && g_wake == !in, "another thread queues it and wakes the loop up");
  if (!in) { last(); kv_assert(g_called == 1, "the functor that was given is the one that is queued"); }
}
// timers asked for at the loop (C17)
HARNESS(el_timers)
{
  make(false, kv_bool("in_thread") ? LOOP : OTHER);
  TimerCallback cb;
  g_cb = &cb;
  uint64_t d = kv_fit(kv_u64("delay"), 1ull << 40), k = kv_fit(kv_u8("call"), 5);
  g_now = (int64_t)kv_fit(kv_u64("now"), 1ull << 52);
  kv_assume((d <= 1ull << 40) & (k <= 5) & (g_now >= 0) & (g_now < (1ll << 60)));
  g_given.timer_ = (Timer *)kv_u64("timer"); g_given.seq_ = kv_u64("seq"); g_given.ctx_ = (void *)kv_u64("ctx");
  double s = (double)(int32_t)(d & 0x7fffffff) / 64;
  auto f = []() { kv_assert(g_called == 0, "called once"); g_called = 1; };
  TimerId id;
  switch (k) {
    case 0: id = g_l->RunAt(f, TimeStamp((int64_t)d)); kv_assert(g_when == (int64_t)d && g_every == 0, "RunAt: once, at the time that was given"); break;
    case 1: id = g_l->RunAfterMs(f, d); kv_assert(g_when == g_now + (int64_t)d * 1000 && g_every == 0, "RunAfterMs: once, so many milliseconds from now"); break;
    case 2: id = g_l->RunAfterUs(f, d); kv_assert(g_when == g_now + (int64_t)d && g_every == 0, "RunAfterUs: once, so many microseconds from now"); break;
    case 3: id = g_l->RunAfter(f, s); kv_assert(g_when == AddTime(TimeStamp(g_now), s).GetMicrosecondsSinceEpoch() && g_every == 0, "RunAfter: once, so many seconds from now"); break;
    case 4: id = g_l->RunEvery(f, TimeStamp((int64_t)d), s); kv_assert(g_when == (int64_t)d && g_every == s, "RunEvery: from the time that was given, in the interval that was given"); break;
    default: id = g_l->RunEvery(f, s); kv_assert(g_when == AddTime(TimeStamp(g_now), s).GetMicrosecondsSinceEpoch() && g_every == s, "RunEvery: from one interval after now"); break;
  }
  kv_assert(g_adds == 1 && g_called == 0, "one timer is added, nothing is called yet");
  kv_assert(same_id(id, g_given), "the id of the timer is given back");
  cb();
  kv_assert(g_called == 1, "the timer calls what was given");
  g_l->CancelTimer(id);
  kv_assert(g_cancels == 1, "cancelling reaches the queue");
  kv_cover("timers");
}
static bool wake_inv(void *) { return !g_pushed || g_wake || g_l->quit_; }
HARNESS(el_call)
{
  kv_template0(wake_inv, nullptr);
  make(false, LOOP);
  g_l->looping_ = true;
  kv_fill();
  g_busy = true;
  g_env = true;
  bool quit = kv_bool("quit");
  g_l->quit_ = quit;
  g_l->CallFunctors();
  kv_cover("called");
  kv_assert(g_next == g_n, "every queued functor is called");
  kv_assert(!g_l->calling_functors_ && !g_locked, "the functor phase is over");
  kv_assert(!g_pushed || g_wake || g_l->quit_, "whatever was queued meanwhile has woken the loop up");
}
HARNESS(el_loop)
{
  kv_template0(wake_inv, nullptr);
  make(kv_bool("poller"), LOOP, true);
  g_ccap = kv_size("channels");
  kv_assume(g_ccap < (1u << 29));
  g_chans = (KvRaw<Channel> *)kv_family("channels", sizeof(Channel), g_ccap, ~0ul);
  g_act = (Channel **)kv_family("active", 8, g_ccap, ~0ul);
  kv_field_fn(g_act, 0, 8, 1, (void *)kv_pchan, nullptr);
  g_env = true;
  // functors may have been queued before the loop started
  if (kv_bool("queued_before")) g_l->QueueToLoop(Functor());
  g_l->StartLoop();
  kv_cover("loop ended");
  kv_assert(g_l->quit_, "the loop ends only after Quit");
  kv_assert(!g_early, "no functor queued before Quit is lost");
  kv_assert(g_disp == g_nact, "every active channel was handled");
  kv_assert(!g_l->looping_, "the loop is marked as ended");
  kv_assert(!g_locked, "the lock is free");
}
HARNESS(el_quit)
{
  bool in = kv_bool("in_thread");
  make(false, in ? LOOP : OTHER);
  g_l->looping_ = kv_bool("looping");
  g_l->Quit();
  kv_cover("quit");
  kv_assert(g_l->quit_, "the loop is told to end");
  if (!in) kv_assert(g_wake, "another thread wakes the loop up to end it");
}
