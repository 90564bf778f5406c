// C22: the asynchronous log.  Real AsyncLog, FixedBuffer, CountDownLatch, Condition and MutexLock
// against the contracts of the log file, the list of full buffers, the thread and pthread.
#include "kv.h"
#include <errno.h>
#include <limits.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "kanon/thread/thread.h"
#include "kanon/string/fixed_buffer.h"
#include "kanon/util/time_stamp.h"
using namespace kanon;
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }
typedef kanon::detail::FixedBuffer<4096 << 10> Buf;
typedef std::unique_ptr<Buf> BufP;
static uint64_t const CAP = 4096 << 10;

static bool g_held, g_monitor;
static void *g_guarded[4];               // what only the holder of the lock may touch
static void kv_access(void const *p) { if (g_monitor) kv_assert(!(p == g_guarded[0]) || g_held, "the shared buffers are accessed only with the lock held"); }

// ---- library contract: a list of buffers: n elements of a family, then perhaps one more
template <> class std::vector<BufP> {
 public:
  typedef BufP value_type; typedef BufP &reference; typedef BufP const &const_reference; typedef size_t size_type; typedef long difference_type;
  Buf *fam;
  uint64_t n;
  bool more;
  BufP last;
  KvRaw<BufP> slot[3];                   // what elements 0, 1 and the one accessed last hold
  void install(Buf *f, uint64_t k) { fam = f; n = k; refill(); }
  void refill() { put(0, n > 0 ? fam : nullptr); put(1, n > 1 ? elem(1) : nullptr); put(2, nullptr); }
  void put(int k, Buf *b) { *(Buf **)slot[k].b = b; }
  Buf *elem(uint64_t i) const { return &((KvRaw<Buf> *)fam + i)->r(); }
  BufP &at_(uint64_t i)
  {
    if (more && i == n) return last;
    if (i == 0) return slot[0].r();
    if (i == 1) return slot[1].r();
    put(2, elem(i));
    return slot[2].r();
  }
  struct iterator {
    typedef BufP value_type; typedef BufP &reference; typedef BufP *pointer; typedef long difference_type; typedef std::random_access_iterator_tag iterator_category;
    vector *v; uint64_t i;
    BufP &operator*() const { return v->at_(i); }
    BufP *operator->() const { return &v->at_(i); }
    iterator &operator++() { i++; return *this; }
    iterator operator++(int) { iterator r = *this; i++; return r; }
    iterator &operator--() { i--; return *this; }
    bool operator!=(iterator o) const { return i != o.i; }
    bool operator==(iterator o) const { return i == o.i; }
    bool operator<(iterator o) const { return i < o.i; }
    iterator operator+(size_t k) const { return {v, i + k}; }
    iterator operator-(size_t k) const { return {v, i - k}; }
    iterator &operator+=(size_t k) { i += k; return *this; }
    long operator-(iterator o) const { return i - o.i; }
  };
  typedef iterator const_iterator;
  vector() : fam(nullptr), n(0), more(false) { refill(); }
  ~vector() { n = 0; }
  vector(vector &&o) : fam(nullptr), n(0), more(false) { refill(); swap(o); }
  vector &operator=(vector &&o) { clear(); swap(o); return *this; }
  void swap(vector &o)
  {
    kv_access(this); kv_access(&o);
    std::swap(fam, o.fam); std::swap(n, o.n); std::swap(more, o.more); last.swap(o.last);
    for (int k = 0; k < 3; k++) { Buf *a = *(Buf **)slot[k].b; put(k, *(Buf **)o.slot[k].b); o.put(k, a); }
  }
  bool empty() const { kv_access(this); return n == 0 && !more; }
  size_t size() const { kv_access(this); return n + more; }
  size_t capacity() const { return 1ull << 40; }
  void reserve(size_t) {}
  void shrink_to_fit() {}
  void clear() { kv_access(this); last.reset(); more = false; n = 0; refill(); }
  void emplace_back(BufP &&p) { kv_access(this); kv_assert(!more, "one buffer is added at a time"); kv_assert((bool)p, "a buffer is added"); last = std::move(p); more = true; }
  void push_back(BufP &&p) { emplace_back(std::move(p)); }
  BufP &back() { kv_access(this); kv_assert(n + more > 0, "the last of some buffers"); return at_(n + more - 1); }
  BufP &front() { kv_access(this); kv_assert(n + more > 0, "the first of some buffers"); return at_(0); }
  BufP &operator[](size_t i) { kv_access(this); kv_assert(i < n + more, "an existing buffer"); return at_(i); }
  BufP &at(size_t i) { return (*this)[i]; }
  void cut(uint64_t k) { if (k <= n) { last.reset(); more = false; n = k; if (k < 2) put(1, nullptr); if (k < 1) put(0, nullptr); } }
  void pop_back() { kv_access(this); kv_assert(n + more > 0, "the last of some buffers"); cut(n + more - 1); }
  void resize(size_t k) { kv_access(this); kv_assert(k <= n + more, "no empty buffers are added"); cut(k); }
  iterator begin() { kv_access(this); return {this, 0}; }
  iterator end() { kv_access(this); return {this, n + more}; }
  iterator erase(iterator a, iterator b)
  {
    kv_access(this);
    kv_assert(b.i == n + more && a.i <= b.i, "the last buffers are taken from the list");
    cut(a.i);
    return a;
  }
  iterator erase(iterator a) { return erase(a, a + 1); }
};
static int g_del;
extern "C" void kv_delete_element(void *) { g_del++; }

// ---- contract of the log file: it gets the buffers in order
static Buf *g_fam;                       // what was taken: g_n full buffers, then the current one
static uint64_t g_n, g_i;
static Buf *g_cur;
static uint64_t g_curlen;
static char const *g_msgbuf;
static uint64_t g_msglen;
static int g_msgs, g_files, g_flushes;
static bool g_taken, g_dirty;
static uint64_t g_roll, g_num, g_interval, g_flush;
#define KANON_LOGFILE_H
namespace kanon {
template <bool T = false> class LogFile {
 public:
  LogFile(StringView base, size_t roll, StringView prefix = "", size_t num = UINT_MAX, size_t interval = 86400, size_t flush = 3)
  {
    kv_assert(base.size() == 1 && base[0] == 'b' && prefix.size() == 2 && prefix[0] == 'd' && prefix[1] == '/', "the log file has the name that was given");
    kv_assert((roll == g_roll) & (num == g_num) & (interval == g_interval) & (flush == g_flush), "the log file is made as it was asked for");
    g_files++;
  }
  ~LogFile() { kv_assert(!g_dirty, "the log file is flushed before it is closed"); g_files--; }
  void Append(char const *p, size_t len)
  {
    kv_assert(!g_held, "no lock is held while writing");
    if (g_msgbuf && p == g_msgbuf) {
      kv_assert(len == g_msglen, "the message about discarded buffers");
      g_msgs++;
      return;
    }
    kv_assert(g_taken, "only taken buffers are written");
    if (g_i < g_n) kv_assert((p == ((KvRaw<Buf> *)g_fam + g_i)->r().data_) && (len == ((KvRaw<Buf> *)g_fam + g_i)->r().len_), "every full buffer is written whole, in order");
    else kv_assert((g_i == g_n) & (p == g_cur->data_) & (len == g_curlen), "the current buffer is written whole after the full ones");
    g_i++;
    g_dirty = true;
  }
  void Flush() { kv_assert(!g_held, "no lock is held while flushing"); g_dirty = false; g_flushes |= 1; }
};
}
static int kv_snprintf(char *b, size_t n, char const *f, ...)
{
  memset(b, 0, n);
  uint64_t k = 40;
  if (kv_bool("long")) { kv_cover("the message is cut"); k = n - 1; memset(b, 'D', n - 1); } else memset(b, 'D', 40);
  kv_assert(n > 40, "room for the message");
  g_msgbuf = b;
  g_msglen = k;
  return (int)k;
}
TimeStamp TimeStamp::Now() KANON_NOEXCEPT { return TimeStamp(); }
std::string TimeStamp::ToFormattedString(bool) const { return "T"; }
static std::function<void()> *g_fn;
static int g_threads, g_joins, g_signals;
static void joined();
Thread::Thread(std::string const &) : is_started_(false), is_joined_(false), pthreadId_(0) {}
Thread::~Thread() { kv_assert(g_threads == g_joins, "a thread is joined before its object is gone"); }
void Thread::StartRun(std::function<void()> f) { kv_assert(!g_threads, "the thread is started once"); g_threads++; *g_fn = std::move(f); }
void Thread::StartRun() { kv_assert(false, "the thread has something to run"); }
void Thread::Join() { kv_assert(g_threads == 1 && !g_joins && !g_held, "a started thread is joined once, without the lock"); joined(); g_joins++; }
static bool *g_color;
static std::function<void(char const *, size_t)> *g_out;
static std::function<void()> *g_fl;
#include "kanon/log/logger.h"
void Logger::SetColor(bool) {}
void Logger::SetOutputCallback(OutputCallback o) { *g_out = std::move(o); }
void Logger::SetFlushCallback(FlushCallback o) { *g_fl = std::move(o); }
#include "kanon/log/async_log.h"
static AsyncLog *g_a;
static pthread_mutex_t *g_mon;
static void (*g_env)();                  // what others did before the lock is got
static void (*g_leave)();
extern "C" {
int pthread_mutex_init(pthread_mutex_t *, pthread_mutexattr_t const *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
  if (m != g_mon) return 0;
  kv_assert(!g_held, "the mutex is not locked twice");
  if (g_env) g_env();
  g_held = true;
  g_signals = 0;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  if (m != g_mon) return 0;
  kv_assert(g_held, "unlock: a held mutex");
  g_held = false;
  if (g_leave) g_leave();
  return 0;
}
int pthread_cond_init(pthread_cond_t *, pthread_condattr_t const *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_signal(pthread_cond_t *) { g_signals |= 1; return 0; }
int pthread_cond_broadcast(pthread_cond_t *) { g_signals |= 1; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
}
static void waits(double);
bool Condition::WaitForSeconds(double s) { MutexLock::UnassignHolder holder(mutex_); waits(s); return kv_bool("timeout"); }
#define snprintf(...) kv_snprintf(__VA_ARGS__)
#include "kanon/log/async_log.cc"
#undef snprintf

static void init()
{
  kv_unroll(48);
  CurrentThread::t_tid = 100;
  g_fn = new std::function<void()>;
  g_out = new std::function<void(char const *, size_t)>;
  g_fl = new std::function<void()>;
  g_roll = kv_u64("roll");
  g_num = kv_u64("num");
  g_interval = kv_u64("interval");
  g_flush = 5;
}
static AsyncLog *make()
{
  init();
  auto raw = new KvRaw<AsyncLog>;
  AsyncLog *a = new (raw) AsyncLog("b", g_roll, "d/", g_num, g_interval, g_flush);
  kv_assert(a->current_buffer_ && a->next_buffer_ && a->current_buffer_->len() == 0 && a->next_buffer_->len() == 0 && a->buffers_.empty() && !a->running_, "a new log is empty");
  kv_assert(a->latch_.count_ == 1, "StartRun waits for the thread");
  g_a = a;
  g_mon = &a->mutex_.GetMutex();
  g_guarded[0] = &a->buffers_;
  g_monitor = true;
  return a;
}
// ---- the thread that writes
static int g_round;
static bool g_stopped, g_late, g_covered;
static Buf *family(char const *nm, uint64_t k)
{
  Buf *f = (Buf *)kv_family(nm, sizeof(Buf), k, ~0ul);
  kv_field_int(f, CAP, 4);
  return f;
}
static void others()                     // other threads append
{
  if (g_stopped) return;
  AsyncLog *a = g_a;
  if (kv_bool("full")) {
    // the current buffer and perhaps others became full
    uint64_t k = kv_u64("k_full");
    kv_assume((k > 0) & (k < (1ull << 30)));
    bool mon = g_monitor;
    g_monitor = false;
    if (a->buffers_.empty()) {
      g_fam = family(g_round == 0 ? "A" : "B", k);
      a->buffers_.install(g_fam, k);
      a->next_buffer_.reset();
      a->current_buffer_.reset(new Buf);
    } else {
      kv_assume(k >= a->buffers_.n);
      a->buffers_.n = k;
    }
    g_monitor = mon;
  }
  uint32_t len = kv_u32("len");
  kv_assume(len < CAP);
  a->current_buffer_->len_ = len;
  if (kv_bool("stop")) { g_stopped = true; a->running_ = false; }
}
static void b_env()
{
  AsyncLog *a = g_a;
  kv_assert(!g_taken || g_i >= (g_n + 1 > 16 ? 16 : g_n + 1), "all taken buffers are written before more are taken");
  if (g_taken) kv_assert(!g_dirty, "what was written is flushed");
  if (g_round == 2) kv_pathend();
  g_taken = false;
  others();
}
static void waits(double s)
{
  kv_assert(g_held, "waiting: the lock is held");
  kv_assert(g_a->buffers_.empty(), "a full buffer is written at once");
  kv_assert(s == (double)g_flush, "the thread waits for the flush interval");
  others();
}
static void b_leave()
{
  AsyncLog *a = g_a;
  bool mon = g_monitor;
  g_monitor = false;
  if (a->buffers_.empty() & a->buffers_dup_.empty()) { kv_assert(false, "the buffers are taken"); }
  kv_assert(a->buffers_.empty(), "all full buffers are taken");
  kv_assert(a->current_buffer_ && a->current_buffer_->len() == 0, "there is an empty current buffer");
  kv_assert(a->next_buffer_ && a->next_buffer_->len() == 0, "there is an empty next buffer");
  kv_assert(a->next_buffer_.get() != a->current_buffer_.get(), "two buffers");
  kv_assert(a->buffers_dup_.more && a->buffers_dup_.last.get() != a->current_buffer_.get(), "the current buffer is taken");
  g_n = a->buffers_dup_.n;
  g_cur = a->buffers_dup_.last.get();
  g_curlen = g_cur->len_;
  g_i = 0;
  g_msgs = 0;
  g_msgbuf = nullptr;
  g_taken = true;
  g_late = false;
  g_round++;
  g_monitor = mon;
  kv_unroll(0);                          // the loop that writes has an invariant
  if (!g_stopped && kv_bool("late")) { g_late = true; g_stopped = true; a->running_ = false; }   // more is appended, then the log is stopped
}
static bool t_i(void *, uint64_t i) { return g_i == i; }
static void background()
{
  CurrentThread::t_tid = 200;
  (*g_fn)();
  kv_assert(g_stopped, "the thread ends only when the log is stopped");
  kv_assert(!g_late, "what was appended before the log is stopped is written");
  kv_assert(g_taken && g_i == (g_n + 1 > 16 ? 16 : g_n + 1), "all taken buffers are written");
  kv_assert(!g_held && g_files == 0 && !g_dirty, "the log file is closed at the end");
  kv_cover("ended");
}
HARNESS(al_thread)
{
  AsyncLog *a = make();
  g_a->latch_.count_ = 0;
  a->StartRun();
  g_a->latch_.count_ = 1;
  g_env = b_env;
  g_leave = b_leave;
  kv_template_at(t_i, nullptr);
  background();
}
extern "C" int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *m)
{
  if (!g_a) g_a = (AsyncLog *)((char *)m - offsetof(AsyncLog, latch_) - offsetof(CountDownLatch, mutex_) - ((char *)&((MutexLock *)m)->GetMutex() - (char *)m));
  kv_assert(m == &g_a->latch_.mutex_.GetMutex(), "only StartRun waits");
  g_a->latch_.count_ = 0;                // as the thread does when it runs
  return 0;
}
// ---- a thread that appends
static int g_in;
static void joined()
{
  kv_assert(!g_a->running_ && g_signals, "the thread is told to end and woken before it is joined");
}
static char const *g_data, *g_have;
static uint64_t g_len, g_old;
static Buf *g_now;
static bool p_new(void *, uint64_t j) { return g_now->data_[g_old + j] == g_data[j]; }
static char *g_copy;
static bool p_old(void *, uint64_t j) { return g_cur->data_[j] == g_copy[j]; }
static void append(void (*f)(char const *, size_t))
{
  AsyncLog *a = g_a;
  uint64_t k = kv_fit(kv_u64("k_full"), 20);
  kv_assume(k < (1ull << 30));
  g_fam = nullptr;
  if (k) { g_monitor = false; g_fam = family("A", k); a->buffers_.install(g_fam, k); a->next_buffer_.reset(); g_monitor = true; }
  Buf *c = a->current_buffer_.get(), *nx = a->next_buffer_.get();
  uint32_t old = kv_fit(kv_u32("old"), CAP - 1);
  kv_assume(old < CAP);
  char *bytes = (char *)kv_bytes("bytes", CAP);
  memcpy(c->data_, bytes, CAP);
  c->len_ = old;
  g_len = kv_fit(kv_u64("len"), CAP - 1);
  if (kv_mode() == 1) switch (kv_fix(4)) {   // native runs: at the limit
    case 1: g_len = CAP - old; break;
    case 2: g_len = CAP - old - 1; break;
    case 3: g_len %= 1000; break;
  }
  kv_assume(g_len < CAP);                // a record is shorter than a buffer
  g_data = (char const *)kv_bytes("data", g_len);
  f(g_data, g_len);
  g_monitor = false;
  g_cur = c;
  g_copy = bytes;
  kv_assert(!g_held, "no lock is left");
  kv_check_forall(p_old, nullptr, 0, old, "what was appended before is kept");
  g_now = a->current_buffer_.get();
  if (g_now == c) {
    g_old = old;
    kv_assert(a->buffers_.n == k && !a->buffers_.more && a->next_buffer_.get() == nx, "the record was appended to the current buffer");
    kv_assert(c->len() == old + g_len, "the record is counted");
    kv_cover("same");
  } else {
    g_old = 0;
    kv_assert(a->buffers_.n == k && a->buffers_.more && a->buffers_.last.get() == c && c->len() == old, "the full buffer waits to be written after the others");
    kv_assert(old + g_len >= CAP, "only a full buffer is replaced");
    kv_assert(g_now && g_now->len() == g_len && !a->next_buffer_, "the record is the first of a new buffer");
    kv_assert(nx ? g_now == nx : true, "the spare buffer is used");
    kv_assert(g_signals == 1, "the thread that writes is woken");
    kv_cover(nx ? "next" : "new");
  }
  kv_check_forall(p_new, nullptr, 0, g_len, "the record is appended whole");
}
HARNESS(al_append)
{
  AsyncLog *a = make();
  append([](char const *d, size_t n) { g_a->Append(d, n); });
}
HARNESS(al_start_stop)
{
  AsyncLog *a = make();
  a->StartRun();
  kv_assert(a->running_ && g_threads == 1 && (bool)*g_fn, "the thread runs");
  if (kv_bool("stop")) {
    a->Stop();
    kv_assert(g_joins == 1 && !g_held, "the thread is joined");
    kv_cover("stopped");
  }
  g_monitor = false;
  a->~AsyncLog();
  kv_assert(g_joins == 1 && !g_held, "the thread is joined");
  kv_cover("gone");
}
HARNESS(al_unused)
{
  AsyncLog *a = make();
  g_monitor = false;
  a->~AsyncLog();
  kv_assert(g_joins == 0, "no thread to join");
}
HARNESS(al_setup)
{
  init();
  kv_assume((g_roll != 0) & (g_interval != 0));
  SetupAsyncLog("b", g_roll, "d/", g_num, g_interval, g_flush);
  kv_assert((bool)*g_out && (bool)*g_fl && g_threads == 1 && (bool)*g_fn, "the logger writes to the log, whose thread runs");
  kv_assert(g_a->roll_size_ == g_roll && g_a->log_file_num_ == g_num && g_a->roll_interval_ == g_interval && g_a->flush_interval_ == g_flush, "the log is made as it was asked for");
  (*g_fl)();
  char c = 'x';
  char b0;
  g_a->current_buffer_->data_[0] = 0;
  (*g_out)(&c, 1);
  kv_assert(g_a->current_buffer_->len() == 1 && g_a->current_buffer_->data()[0] == 'x', "a record given to the logger is appended");
  kv_cover("set up");
}
