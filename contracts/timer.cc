// C17: timers (kanon/linux/net/timer/timer_queue.cc, kanon/net/timer/*.h)
#include "kv.h"
#include <algorithm>
#include <errno.h>
#include <functional>
#include <iterator>
#include <memory>
#include <set>
#include <sys/timerfd.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/poll/poller_base.h"
#include "kanon/net/timer/timer.h"
#include "kanon/net/timer/timer_id.h"
using namespace kanon;

// The timers known to the queue: timer i (sequence i) is element i of the family T; the ordered
// set holds them in the order ord(0), ord(1), ...  All claims are made about an arbitrary timer J.
static KvRaw<Timer> *g_T;
static uint64_t g_N;               // timers made so far
struct Ord { uint32_t ord; uint32_t pos; };
static Ord *g_ord;                 // k-th timer in the set, and position of timer i
static Timer **g_V;                // k-th timer in the set
static uint64_t g_n, g_lo;         // the set was the positions [0,g_n), [0,g_lo) have expired
static uint64_t g_J;
static bool g_goneJ;               // J was erased from the set on its own
static bool g_reJ;                 // J was inserted again
static bool g_actJ;                // J is in the map of active timers
static bool g_cancJ;               // J is in the set of cancelled timers
static bool g_delJ, g_calledJ, g_wantJ;
static Timer *g_min;               // first timer in the set, if any
static bool g_chg;                 // a timer was inserted or erased on its own
static Timer *g_ins;               // a new timer that was inserted
static bool g_insact;

static KvRaw<Timer> g_kt;          // the key of the last lookup
static uint64_t g_ks;
static uint64_t g_cut;
static bool is_T(Timer const *t) { return kv_is_elem(t, g_T); }
static uint64_t ix(Timer const *t) { return kv_index(t); }
static bool in_set(uint64_t i)
{
  uint64_t p = g_ord[i].pos;
  bool j = i == g_J;
  return (j & g_reJ) | ((p >= g_lo) & (p < g_n) & !(j & g_goneJ));
}
typedef std::pair<Timer *, uint64_t> Entry;

// ---- library contract: std::set<(timer, sequence)>, ordered by the real comparator
template <class C> class std::set<Entry, C> {
 public:
  typedef Entry value_type;
  typedef Entry key_type;
  struct iterator {
    typedef std::forward_iterator_tag iterator_category;
    typedef Entry value_type;
    typedef long difference_type;
    typedef Entry const *pointer;
    typedef Entry const &reference;
    uint64_t k;        // position, or ~0 for a timer outside the positions
    mutable Entry v;
    Entry const &get() const
    {
      if (k != ~0ull) { kv_assert(k < g_n, "the iterator points to a timer"); v.first = g_V[k]; v.second = g_V[k]->sequence_; }
      return v;
    }
    Entry const &operator*() const { return get(); }
    Entry const *operator->() const { return &get(); }
    iterator &operator++() { kv_assert(k < g_n, "the iterator can be advanced"); k++; return *this; }
    iterator operator++(int) { iterator o = *this; ++*this; return o; }
    bool operator==(iterator const &o) const { return k == o.k && (k != ~0ull || v.first == o.v.first); }
    bool operator!=(iterator const &o) const { return !(*this == o); }
  };
  typedef iterator const_iterator;
  static iterator at(uint64_t k) { iterator i; i.k = k; i.v.first = nullptr; i.v.second = 0; return i; }
  static iterator single(Timer *t) { iterator i; i.k = ~0ull; i.v.first = t; i.v.second = t->sequence_; return i; }
  bool empty() const { return !g_min; }
  size_t size() const { uint64_t s = kv_size("set_size"); kv_assume((s == 0) == !g_min); return s; }
  iterator end() const { return at(g_n); }
  iterator begin() const
  {
    if (!g_chg) return at(g_lo);
    return g_min ? single(g_min) : end();
  }
  static bool less0(void *c, uint64_t) { return C()(entry(((Timer **)c)[0]), entry(((Timer **)c)[1])); }
  static bool less(Timer *a, Timer *b) { Timer *c[2] = {a, b}; return kv_eval(less0, c, 0); }
  static Entry entry(Timer *t) { return Entry(t, t->sequence_); }
  bool emplace(Timer *t, uint64_t s)
  {
    kv_assert(t->sequence_ == s, "a timer is entered with its own sequence");
    if (is_T(t)) {
      if (ix(t) == g_J) {
        kv_assert(!in_set(g_J) && !g_delJ, "a timer is entered once");
        g_reJ = true;
      }
    } else {
      kv_assert(!g_ins, "a new timer is entered once");
      g_ins = t;
    }
    g_chg = true;
    if (!g_min) g_min = t;
    else g_min = (Timer *)kv_select(less(t, g_min), t, g_min);
    return true;
  }
  bool insert(Entry const &e) { return emplace(e.first, e.second); }
  void after_erase(Timer *t)
  {
    g_chg = true;
    // some other timer is the first one now, or none
    bool was = g_min == t, left = kv_bool("others_left");
    uint64_t i = kv_u64("k_first");
    kv_assume(i <= g_N);
    kv_assume(!(was & left) | ((i < g_N) & in_set(i)));
    kv_assume(!(was & !left) | !in_set(g_J));
    g_min = (Timer *)kv_select(was, kv_select(left, &g_T[i].r(), nullptr), g_min);
  }
  size_t erase(Entry const &e)
  {
    int64_t x = e.first->expiration_.microseconds_;   // the comparator reads the timer
    (void)x;
    if (e.first == g_ins) { g_ins = nullptr; after_erase(e.first); return 1; }
    kv_assert(is_T(e.first) && ix(e.first) == g_J && e.second == g_J, "only the timer of the id is erased");
    if (!in_set(g_J)) return 0;
    g_goneJ = true;
    g_reJ = false;
    after_erase(e.first);
    return 1;
  }
  iterator find(Entry const &e)
  {
    int64_t x = e.first->expiration_.microseconds_;
    (void)x;
    if (e.first == g_ins) return single(g_ins);
    if (is_T(e.first) && e.second < g_N && ix(e.first) == e.second && in_set(e.second)) return single(e.first);
    return end();
  }
  iterator erase(iterator i) { erase(Entry(i.get())); return i; }
  iterator erase(iterator a, iterator b)
  {
    if (a.k == b.k) return b;
    kv_assert(a.k == g_lo && b.k >= g_lo && b.k <= g_n, "a prefix of the set is erased");
    g_lo = b.k;
    g_min = (Timer *)kv_select(g_lo < g_n, &g_T[(uint64_t)g_ord[g_lo].ord], nullptr);
    return b;
  }
  // the first position not before the key
  static bool before(void *c, uint64_t k) { return C()(entry(g_V[k]), Entry(&g_kt.r(), g_ks)); }
  static bool notbefore(void *c, uint64_t k) { return !C()(entry(g_V[k]), Entry(&g_kt.r(), g_ks)); }
  static bool beforeT(void *c, uint64_t i) { uint64_t p = g_ord[i].pos; return p >= g_n || C()(entry(&g_T[i].r()), Entry(&g_kt.r(), g_ks)) == (p < g_cut); }
  iterator lower_bound(Entry const &e)
  {
    kv_assert(!g_ins && !g_goneJ && !g_reJ && g_lo == 0, "looked up in the initial set");
    uint64_t k = kv_u64("k_expired");
    if (kv_mode() == 1) for (k = 0; k < g_n && C()(entry(g_V[k]), e); k++) {}
    kv_assume(k <= g_n);
    g_cut = k;
    g_kt.r().expiration_ = e.first->expiration_;
    g_ks = e.second;
    kv_forall(before, nullptr, 0, k);
    kv_forall(notbefore, nullptr, k, g_n);
    kv_assume(kv_eval(beforeT, nullptr, g_J));
    return at(k);
  }
};

// ---- library contract: std::vector<Timer*>, a prefix of the initial order of the set
template <> class std::vector<Timer *> {
 public:
  typedef Timer *value_type;
  typedef Timer **iterator;
  typedef Timer *const &const_reference;
  uint64_t n;
  vector() : n(0) {}
  ~vector() {}
  void push_back(Timer *t) { kv_assert(n < g_n && t == g_V[n], "the expired timers are collected in order, each once"); n++; }
  void emplace_back(Timer *t) { push_back(t); }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  void reserve(size_t) {}
  Timer **begin() { return g_V; }
  Timer **end() { return g_V + n; }
  Timer **begin() const { return g_V; }
  Timer **end() const { return g_V + n; }
  Timer *&operator[](size_t i) { kv_assert(i < n, "inside the list of expired timers"); return g_V[i]; }
};
// ---- library contract: std::unordered_map<sequence, Timer*>; only the entries of J and of a new timer are observed
template <> class std::unordered_map<uint64_t, Timer *> {
 public:
  typedef std::pair<uint64_t const, Timer *> value_type;
  struct iterator {
    bool e; mutable value_type v;
    iterator(bool end, uint64_t s, Timer *t) : e(end), v(s, t) {}
    value_type *operator->() const { kv_assert(!e, "the map iterator points to an entry"); return &v; }
    value_type &operator*() const { kv_assert(!e, "the map iterator points to an entry"); return v; }
    bool operator==(iterator const &o) const { return e ? o.e : !o.e && v.first == o.v.first; }
    bool operator!=(iterator const &o) const { return !(*this == o); }
  };
  iterator end() { return iterator(true, 0, nullptr); }
  iterator find(uint64_t s)
  {
    if (s == g_J) { if (g_actJ) return iterator(false, s, &g_T[g_J].r()); return end(); }
    if (g_ins && s == g_ins->sequence_) { if (g_insact) return iterator(false, s, g_ins); return end(); }
    kv_assert(s >= g_N, "only the timer of the id is looked up");
    return end();
  }
  size_t count(uint64_t s) { return find(s) != end(); }
  void emplace(uint64_t s, Timer *t)
  {
    kv_assert(t->sequence_ == s, "a timer is entered with its own sequence");
    if (is_T(t)) { if (s == g_J) g_actJ = true; } else g_insact = true;
  }
  void erase(iterator i) { kv_assert(!i.e, "the map iterator points to an entry"); erase(i.v.first); }
  size_t erase(uint64_t s) { if (s == g_J) { bool h = g_actJ; g_actJ = false; return h; } if (s == g_N) g_insact = false; return 1; }
};
template <> class std::unordered_set<uint64_t> {
 public:
  struct iterator { bool e; bool operator==(iterator const &o) const { return e == o.e; } bool operator!=(iterator const &o) const { return e != o.e; } };
  iterator end() const { iterator i; i.e = true; return i; }
  // timers other than J may be cancelled or not
  iterator find(uint64_t s) const { iterator i; bool o = kv_bool("other_cancelled"), j = s == g_J; i.e = !((j & g_cancJ) | (!j & o)); return i; }
  size_t count(uint64_t s) const { return !find(s).e; }
  void emplace(uint64_t s) { if (s == g_J) g_cancJ = true; }
  void insert(uint64_t s) { emplace(s); }
  void clear() { g_cancJ = false; }
  bool empty() const { return !g_cancJ && kv_bool("others_empty"); }
};
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }
#include "kanon/net/timer/timer_queue.h"
static TimerQueue *g_q;
static EventLoop *g_l;
static bool g_dtor;
// deleting timer i
extern "C" void kv_delete_element(void *p)
{
  if (ix((Timer *)p) != g_J) return;
  kv_assert(!g_delJ, "a timer is deleted once");
  kv_assert(g_dtor || (!in_set(g_J) && !g_actJ), "a timer is deleted only after it left the queue");
  g_delJ = true;
}
void EventLoop::AbortNotInThread() KANON_NOEXCEPT { kv_assert(false, "called outside the loop thread"); kv_pathend(); }
static unsigned g_upd;
void EventLoop::UpdateChannel(Channel *) { g_upd++; }
void EventLoop::RemoveChannel(Channel *) {}
static bool g_gone;              // the new timer has already expired and was deleted
void EventLoop::RunInLoop(FunctorCallback cb)
{
  if (IsLoopInThread()) { cb(); return; }
  // the loop thread runs it before this call returns, and the timer expires and is deleted
  CurrentThread::t_tid = 100;
  cb();
  CurrentThread::t_tid = 200;
  if (g_ins) { delete g_ins; g_ins = nullptr; g_gone = true; if (g_min && !is_T(g_min)) g_min = nullptr; }
}
static int64_t g_now, g_tnow;  // the time, and the time when the queue looked first
static bool g_ts;
TimeStamp TimeStamp::Now() KANON_NOEXCEPT
{
  int64_t t = (int64_t)kv_u64("now");
  if (kv_mode() == 1 && !(t >= g_now && t < (1ll << 61))) t = g_now + (t & 7);
  kv_assume(t >= g_now && t < (1ll << 61));
  g_now = t;
  if (!g_ts) { g_ts = true; g_tnow = t; }
  return TimeStamp(t);
}
static bool g_armed, g_read;
static int64_t g_at;
static int g_closed;
extern "C" {
int timerfd_create(clockid_t, int) KANON_NOEXCEPT { return 8; }
int close(int fd) { kv_assert(fd == 8 && !g_closed, "the timerfd is closed, once"); g_closed++; return 0; }
ssize_t read(int fd, void *p, size_t n) { kv_assert(fd == 8 && n >= 8, "the timerfd is read"); kv_valid(p, n); g_read = true; return 8; }
int timerfd_settime(int fd, int flags, const struct itimerspec *v, struct itimerspec *) KANON_NOEXCEPT
{
  kv_assert(fd == 8 && flags == 0, "the timerfd is armed relative to now");
  kv_assert(v->it_interval.tv_sec == 0 && v->it_interval.tv_nsec == 0, "the timerfd fires once");
  kv_assert(g_min, "the timerfd is armed for a timer");
  int64_t d = g_min->expiration_.microseconds_ - g_now;
  if (d < 100) d = 100;
  kv_assert(v->it_value.tv_sec >= 0 && v->it_value.tv_nsec >= 0 && v->it_value.tv_nsec < 1000000000, "the timerfd is given a valid time");
  kv_assert(v->it_value.tv_sec * 1000000 + v->it_value.tv_nsec / 1000 == d, "the timerfd is armed for the first timer, at least 100 microseconds from now");
  g_armed = true;
  g_at = g_min->expiration_.microseconds_;
  return 0;
}
}
#include "kanon/linux/net/channel.cc"
#include "kanon/net/timer/itimer_queue_platform.cc"
#include "kanon/net/timer/timer.cc"
#include "kanon/linux/net/timer/timer_queue.cc"

static uint64_t kv_id(void *, uint64_t i) { return i; }
static bool kv_mgr(std::_Any_data &, const std::_Any_data &, std::_Manager_operation) { return false; }
static uint64_t g_next;
static bool g_busy;
static TimerId g_idJ;
static void kv_inv(const std::_Any_data &d)
{
  uint64_t i = *(uint64_t const *)&d;
  kv_assert(i < g_N, "a timer of the queue is called");
  uint64_t p = g_ord[i].pos;
  kv_assert(p < g_lo, "only expired timers are called");
  kv_assert(p >= g_next, "timers are called in the order of their expirations, each once per round");
  kv_assert(g_T[i].r().expiration_.microseconds_ <= g_now, "no timer is called before its expiration");
  g_next = p + 1;
  if (i == g_J) {
    kv_assert(!g_delJ, "no deleted timer is called");
    kv_assert(!g_wantJ, "no cancelled timer is called");
    g_calledJ = true;
  }
  if (g_busy && kv_bool("callback_cancels")) { g_wantJ = true; g_q->CancelTimer(g_idJ); }
}
static void *kv_pmgr(void *, uint64_t) { return (void *)kv_mgr; }
static void *kv_pinv(void *, uint64_t) { return (void *)kv_inv; }
static void *kv_pv(void *, uint64_t k) { return &g_T[(uint64_t)g_ord[k].ord]; }
static bool o1(void *, uint64_t k) { return g_ord[k].ord < g_N && g_ord[(uint64_t)g_ord[k].ord].pos == k; }
static bool o2(void *, uint64_t i) { return g_ord[i].pos >= g_n || g_ord[(uint64_t)g_ord[i].pos].ord == i; }
// expirations and intervals fit the clock
static bool rng(void *, uint64_t i)
{
  if (i >= g_N) return true;
  int64_t e = g_T[i].r().expiration_.microseconds_;
  double iv = g_T[i].r().interval_;
  int64_t us = AddTime(TimeStamp(0), iv).microseconds_;
  return e > -(1ll << 62) && e < (1ll << 62) && (!(iv > 0.0) || (us >= 0 && us < (1ll << 60)));
}
static bool first(void *, uint64_t i)
{
  if (g_ord[i].pos >= g_n) return true;
  Timer *t = &g_T[i].r();
  return g_min == t || TimerQueue::TimerEntryCompare()(Entry(g_min, g_min->sequence_), Entry(t, i));
}
static void make(bool in)
{
  CurrentThread::t_tid = 100;
  KvRaw<EventLoop> *el = new KvRaw<EventLoop>;
  g_l = &el->r();
  *(int *)&g_l->owner_thread_id_ = 100;
  g_q = new TimerQueue(g_l);
  kv_assert(g_q->timer_channel_->IsReading() && g_upd == 1 && g_q->timer_channel_->GetFd() == 8 && !g_q->calling_timer_, "a new queue watches its timerfd");
  CurrentThread::t_tid = in ? 100 : 200;
  g_N = kv_size("timers");
  if (kv_mode() == 1 && !g_N) g_N = 1;
  kv_assume(g_N < (1u << 29));
  g_n = kv_size("waiting");
  if (kv_mode() == 1) g_n %= g_N + 1;
  kv_assume(g_n <= g_N);
  Timer::s_counter_.SetValue(g_N);
  g_T = (KvRaw<Timer> *)kv_family("T", sizeof(Timer), g_N, ~0ul);
  kv_field_fn(g_T, offsetof(Timer, callback_), 8, 0, (void *)kv_id, nullptr);
  kv_field_fn(g_T, offsetof(Timer, callback_) + 16, 8, 1, (void *)kv_pmgr, nullptr);
  kv_field_fn(g_T, offsetof(Timer, callback_) + 24, 8, 1, (void *)kv_pinv, nullptr);
  kv_field_int(g_T, offsetof(Timer, expiration_), 8);
  kv_field_int(g_T, offsetof(Timer, interval_), 8);
  kv_field_fn(g_T, offsetof(Timer, sequence_), 8, 0, (void *)kv_id, nullptr);
  g_ord = (Ord *)kv_family("order", sizeof(Ord), g_N + 1, ~0ul);
  kv_field_int(g_ord, 0, 4);
  kv_field_int(g_ord, 4, 4);
  if (kv_mode() == 1 && kv_fix(8)) {
    // native runs: a queue that is in order
    for (uint64_t i = 0; i < g_N; i++) {
      g_T[i].r().expiration_.microseconds_ = (int64_t)kv_fix(9);
      uint64_t f = kv_fix(4);
      g_T[i].r().interval_ = f == 0 ? 0.0 : f == 1 ? 0.000002 : f == 2 ? 1.5 : -1.0;
      g_ord[i].pos = (uint32_t)(g_N + 1);
    }
    uint64_t k = 0;
    for (uint64_t i = 0; i < g_N && k < g_n; i++)
      if (g_N - i == g_n - k || kv_fix(4)) {
        uint64_t q = k++;
        for (; q && TimerQueue::TimerEntryCompare()(Entry(&g_T[i].r(), i), Entry(&g_T[(uint64_t)g_ord[q - 1].ord].r(), g_ord[q - 1].ord)); q--) g_ord[q].ord = g_ord[q - 1].ord;
        g_ord[q].ord = (uint32_t)i;
      }
    for (k = 0; k < g_n; k++) g_ord[g_ord[k].ord].pos = (uint32_t)k;
  }
  kv_forall(o1, nullptr, 0, g_n);
  kv_forall(o2, nullptr, 0, g_N);
  g_V = (Timer **)kv_family("set", 8, g_n, ~0ul);
  kv_field_fn(g_V, 0, 8, 1, (void *)kv_pv, nullptr);
  kv_forall(rng, nullptr, 0, g_N);
  g_J = kv_u64("k_J");
  if (kv_mode() == 1 && g_N) g_J %= g_N;
  kv_assume(g_J < g_N);
  if (g_n) {
    g_min = g_V[0];
    kv_forall(first, nullptr, 0, g_N);
  }
  g_actJ = in_set(g_J);
  g_now = (int64_t)kv_u64("before");
  if (kv_mode() == 1) g_now &= (1ll << 61) - 1;
  kv_assume(g_now >= 0 && g_now < (1ll << 61));
}
static int g_user;
HARNESS(tq_add)
{
  bool in = kv_bool("in_thread");
  make(in);
  Timer *m = g_min;
  int64_t at = (int64_t)kv_u64("at"), minat = m ? m->expiration_.microseconds_ : 0;
  kv_assume(at > -(1ll << 61) && at < (1ll << 61));
  double iv = kv_bool("repeat") ? 0.5 : 0.0;
  TimerId id = g_q->AddTimer([]() { g_user++; }, TimeStamp(at), iv);
  kv_cover("added");
  kv_assert(g_user == 0, "a timer is not called when it is added");
  kv_assert(id.seq_ == g_N, "the id names the new timer, and no other one");
  if (!m || at < minat) kv_assert(g_armed && g_at == at, "the timerfd is armed for the new timer if it is the first");
  else kv_assert(!g_armed, "the timerfd stays armed for the first timer");
  if (!in) { kv_assert(g_gone, "the timer entered the queue"); return; }
  kv_assert(g_ins && g_insact, "the timer entered the queue");
  kv_assert(g_ins == id.timer_ && g_ins->expiration_.microseconds_ == at && g_ins->interval_ == iv && g_ins->repeat() == (iv > 0), "the timer expires when it was asked to");
  g_ins->run();
  kv_assert(g_user == 1, "the timer has its callback");
  uint64_t live = kv_live_heap();
  g_q->CancelTimer(id);
  kv_assert(!g_ins && !g_insact, "a cancelled timer left the queue");
  kv_assert(kv_live_heap() < live, "a cancelled timer is deleted");
  kv_assert(g_user == 1, "cancelling calls nothing");
  // cancelling again, when the timer does not exist any more, is harmless
  g_q->CancelTimer(id);
  g_q->CancelTimer(TimerId());
  kv_cover("cancelled");
}
HARNESS(tq_cancel)
{
  make(kv_bool("in_thread"));
  bool was = in_set(g_J);
  Timer *dead = new Timer(std::function<void()>(), TimeStamp(0), 0.0);
  TimerId id(dead);
  delete dead;
  id.seq_ = g_J;
  if (was) id.timer_ = &g_T[g_J].r();
  else id = id;
  bool calling = kv_bool("calling");
  g_q->calling_timer_ = calling;
  g_q->CancelTimer(id);
  kv_cover("cancelled");
  kv_assert(!in_set(g_J) && !g_actJ, "a cancelled timer is not in the queue");
  kv_assert(g_delJ == was, "a waiting timer is deleted when it is cancelled, another one is not");
  kv_assert(g_cancJ == (calling && !was), "an expired timer that is cancelled while timers are called is remembered");
  kv_assert(!g_calledJ, "cancelling calls nothing");
}
static bool expired(uint64_t i) { return g_ord[i].pos < g_lo; }
static bool rep(uint64_t i) { return g_T[i].r().interval_ > 0.0; }
static int64_t g_exp0;
// facts kept by the loops over the expired timers, v of them are done
static bool i_act(void *, uint64_t v) { return g_actJ == ((g_ord[g_J].pos < g_n && g_ord[g_J].pos >= g_lo) || (expired(g_J) && g_ord[g_J].pos >= v)); }
static bool i_next(void *, uint64_t v) { return g_next <= v; }
static bool i_call(void *, uint64_t v) { return !expired(g_J) || (g_ord[g_J].pos >= v ? !g_calledJ : g_calledJ || g_wantJ); }
static bool i_re(void *, uint64_t v)
{
  if (!expired(g_J)) return true;
  if (g_ord[g_J].pos >= v) return !g_delJ && !g_reJ && !g_actJ && g_T[g_J].r().expiration_.microseconds_ == g_exp0;
  if (rep(g_J) && !g_wantJ) return g_reJ && g_actJ && !g_delJ && g_T[g_J].r().expiration_.microseconds_ == AddTime(TimeStamp(g_tnow), g_T[g_J].r().interval_).microseconds_;
  return g_delJ && !g_reJ && !g_actJ;
}
static bool i_want(void *) { return !expired(g_J) || (g_wantJ == g_cancJ && !g_goneJ); }
static bool i_other(void *)
{
  if (expired(g_J)) return true;
  bool was = g_ord[g_J].pos < g_n;
  return !g_calledJ && !g_reJ && g_goneJ == (was && g_wantJ) && g_delJ == g_goneJ && g_actJ == (was && !g_wantJ) && g_T[g_J].r().expiration_.microseconds_ == g_exp0;
}
static bool i_min(void *) { if (!g_chg && g_min != (g_lo < g_n ? g_V[g_lo] : nullptr)) return false; return g_min ? is_T(g_min) && ix(g_min) < g_N : !in_set(g_J); }
static bool i_quiet(void *) { return !g_calledJ && !g_wantJ && !g_cancJ && !g_delJ && !g_reJ && !g_goneJ; }
static bool i_pend(void *) { return !expired(g_J) || (!g_delJ && !g_reJ); }
HARNESS(tq_process)
{
  make(true);
  g_cancJ = kv_bool("stale_cancel");
  g_exp0 = g_T[g_J].r().expiration_.microseconds_;
  TimerId id;
  id.seq_ = g_J;
  id.timer_ = nullptr;
  g_idJ = id;
  g_busy = true;
  kv_template_at(i_act, nullptr);
  kv_template_at(i_next, nullptr);
  kv_template_at(i_call, nullptr);
  kv_template_at(i_re, nullptr);
  kv_template0(i_want, nullptr);
  kv_template0(i_other, nullptr);
  kv_template0(i_min, nullptr);
  kv_template0(i_quiet, nullptr);
  kv_template0(i_pend, nullptr);
  kv_template_all(rng, nullptr);
  g_q->ProcessAllExpiredTimers(TimeStamp(0));
  kv_cover("processed");
  kv_assert(g_read, "the timerfd is read");
  bool was = g_ord[g_J].pos < g_n;
  if (was && g_exp0 <= g_tnow) {
    kv_assert(g_calledJ || g_wantJ, "an expired timer is called");
    if (rep(g_J) && !g_wantJ) {
      kv_assert(in_set(g_J) && g_actJ && !g_delJ, "a repeating timer waits again");
      kv_assert(g_T[g_J].r().expiration_.microseconds_ == AddTime(TimeStamp(g_tnow), g_T[g_J].r().interval_).microseconds_, "a repeating timer expires after another interval");
    } else kv_assert(g_delJ && !in_set(g_J) && !g_actJ, "a timer that is not called again is deleted");
  } else {
    kv_assert(!g_calledJ, "a timer that has not expired is not called");
    kv_assert(in_set(g_J) == (was && !g_wantJ) && g_actJ == in_set(g_J), "a timer that has not expired waits, unless it was cancelled");
  }
  kv_assert(g_armed == (g_min != nullptr), "the timerfd is armed if there are timers left");
  kv_assert(!g_q->calling_timer_, "no timer is called any more");
}
static bool i_del(void *, uint64_t v) { return g_delJ == (g_ord[g_J].pos < v); }
HARNESS(tq_destroy)
{
  make(true);
  bool was = in_set(g_J);
  g_dtor = true;
  kv_template_at(i_del, nullptr);
  g_q->~TimerQueue();
  kv_cover("destroyed");
  kv_assert(g_delJ == was, "the destructor deletes each waiting timer");
  kv_assert(g_closed == 1, "the destructor closes the timerfd");
}
