// C26: the bounded thread pool against the contracts of the mutex, the condition variables, the
// thread and the queue.  While this thread is outside the lock, the other producers and workers
// change the queue in every way the functions of the pool permit.
#include "kv.h"
#include <errno.h>
#include <pthread.h>
#include <string.h>
#include <functional>
#include <memory>
#include <queue>
#include <string>
#include <vector>
#include "kanon/thread/thread.h"
using Task = std::function<void()>;
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }

static bool g_held;
static uint64_t g_n;                     // the tasks in the queue
static uint64_t g_taken, g_called, g_destroyed;      // tasks this thread took, ran
static bool g_pushed, g_popped;          // in this critical section
static Task *g_front, *g_back;
static void kv_task() { kv_assert(!g_held, "a task runs without the lock"); g_called++; }
static void kv_queue() { kv_assert(g_held, "the queue is accessed only with its lock held"); }
// ---- library contract: a queue of g_n tasks
template <> class std::queue<Task> {
 public:
  bool empty() const { kv_queue(); return g_n == 0; }
  size_t size() const { kv_queue(); return g_n; }
  void push(Task &&t) { kv_queue(); put(std::move(t)); }
  void emplace(Task &&t) { push(std::move(t)); }
  void push(Task const &t) { push(Task(t)); }
  void emplace(Task const &t) { push(Task(t)); }
  void put(Task &&t) { kv_assert(!g_pushed, "one task is queued"); g_pushed = true; g_n++; *g_back = std::move(t); }
  Task &front() { kv_queue(); kv_assert(g_n > 0, "the first task of a non-empty queue is taken"); if (!*g_front) *g_front = kv_task; return *g_front; }
  void pop() { kv_queue(); kv_assert(g_n > 0 && !g_popped, "one task is removed"); g_popped = true; g_n--; g_taken++; *g_front = nullptr; }
};
// ---- library contract: the threads, elements [0,n) of a family
static kanon::Thread *g_new;
static uint64_t g_threads;
template <> class std::vector<std::unique_ptr<kanon::Thread>> {
 public:
  typedef std::unique_ptr<kanon::Thread> T;
  T *p; uint64_t n;
  vector() : p(nullptr), n(0) {}
  ~vector() {}
  T *begin() { return p; }
  T *end() { return p + n; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  T &operator[](size_t i) { kv_assert(i < n, "an existing thread"); return p[i]; }
  T &front() { return (*this)[0]; }
  void clear() { n = 0; }
  void reserve(size_t) {}
  void emplace_back(T &&t) { g_new = t.release(); n++; g_threads++; }
  void push_back(T &&t) { emplace_back(std::move(t)); }
  T &back() { return p[n - 1]; }
};
#include "kanon/thread/thread_pool.h"
using namespace kanon;

static ThreadPool *g_p;
static bool g_env, g_stopping;
static void *g_sigs[2], *g_bcasts[2];    // [0] not_full_, [1] not_empty_
static bool g_stopped0;
static int g_max0;
static void enter()
{
  if (g_env) {
    g_n = kv_u64("n");
    kv_assume(g_n <= 1000000);
    if (!g_p->stopped_) g_p->stopped_ = kv_bool("stopped") & g_stopping;
  }
  g_held = true;
  g_pushed = g_popped = false;
  g_sigs[0] = g_sigs[1] = g_bcasts[0] = g_bcasts[1] = nullptr;
  g_stopped0 = g_p->stopped_;
  g_max0 = g_p->max_queue_size_;
}
static void leave()
{
  if (g_pushed) kv_assert((g_sigs[1] != nullptr) | (g_bcasts[1] != nullptr), "a worker is woken for the queued task");
  if (g_popped) kv_assert((g_sigs[0] != nullptr) | (g_bcasts[0] != nullptr), "a producer is woken for the free place");
  if (g_p->stopped_ != g_stopped0) kv_assert(g_bcasts[1] != nullptr, "all workers are woken when the pool goes away");
  if (g_p->max_queue_size_ > g_max0) kv_assert(g_bcasts[0] != nullptr, "the producers are woken when the queue gets larger");
  g_held = false;
}
static bool g_producer;
extern "C" {
int pthread_mutex_init(pthread_mutex_t *, pthread_mutexattr_t const *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { kv_assert(!g_held, "a held mutex is not destroyed"); return 0; }
int pthread_mutex_lock(pthread_mutex_t *) { kv_assert(!g_held, "the mutex is not locked twice"); enter(); return 0; }
int pthread_mutex_unlock(pthread_mutex_t *) { kv_assert(g_held, "unlock: a held mutex"); leave(); return 0; }
int pthread_cond_init(pthread_cond_t *, pthread_condattr_t const *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_signal(pthread_cond_t *c) { g_sigs[c == &g_p->not_empty_.cond_] = c; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { g_bcasts[c == &g_p->not_empty_.cond_] = c; return 0; }
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, timespec const *) { kv_assert(false, "nothing is waited for with a limit"); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *)
{
  kv_assert(g_held, "waiting: the lock is held");
  if (g_producer) kv_assert((c == &g_p->not_full_.cond_) & ((int)g_n >= g_p->max_queue_size_), "a producer waits only while the queue is full");
  else kv_assert((c == &g_p->not_empty_.cond_) & (g_n == 0) & !g_p->stopped_, "a worker waits only while the queue is empty and the pool lives");
  leave();
  enter();
  return 0;
}
}
static uint64_t g_started, g_joined, g_K;
static Task *g_fn;
static void *g_fam;
Thread::Thread(Threadfunc f, std::string const &) : is_started_(false), is_joined_(false), pthreadId_(0) { *g_fn = std::move(f); }
Thread::Thread(std::string const &) : is_started_(false), is_joined_(false), pthreadId_(0) {}
Thread::~Thread() {}
void Thread::StartRun() { kv_assert(this == g_new && !is_started_ && *g_fn, "every thread is started once"); is_started_ = true; g_started++; }
void Thread::StartRun(Threadfunc f) { *g_fn = std::move(f); StartRun(); }
void Thread::Join()
{
  kv_assert(!g_held, "no thread is waited for with the lock held");
  kv_assert(g_p->stopped_, "the workers were told to end before they are joined");
  if (kv_index(this) == g_K) { kv_assert(!g_joined, "a thread is joined once"); g_joined++; }
}
extern "C" void kv_delete_element(void *) {}
namespace std { static inline string kv_to_string(int) { return string("7"); } }
#define to_string kv_to_string
#include "kanon/thread/thread_pool.cc"

static void make()
{
  CurrentThread::t_tid = 100;
  g_front = new Task;
  g_back = new Task;
  g_fn = new Task;
  auto raw = new KvRaw<ThreadPool>;
  g_p = &raw->r();
  int m = kv_u32("max");
  kv_assume(m > 0);
  new (g_p) ThreadPool(m, std::string("p"));
  kv_assert(g_p->max_queue_size_ == m && !g_held, "a new pool has room for the given number of tasks");
}
static bool t_loop(void *) { return !g_held; }
static bool t_start(void *, uint64_t i) { return (g_started == i) & (g_threads == i); }
static bool t_count(void *n) { return g_started <= *(uint64_t *)n; }
static bool t_lock(void *) { return g_held; }
static bool t_q(void *) { return g_n <= 1000000; }
static bool t_calls(void *) { return g_called == g_taken; }
static void templates()
{
  kv_template0(t_loop, nullptr);
  kv_template0(t_lock, nullptr);
  kv_template0(t_q, nullptr);
  kv_template0(t_calls, nullptr);
}
HARNESS(pool_start)
{
  make();
  int n = kv_u32("n");
  kv_assume(n >= 0 && n < 1000);
  templates();
  kv_template_at(t_start, nullptr);
  uint64_t *c = new uint64_t(n);
  kv_template0(t_count, c);
  g_p->StartRun(n);
  kv_assert(g_threads == (uint64_t)n && g_started == (uint64_t)n && !g_held, "StartRun starts the given number of threads");
  kv_cover("started");
}
HARNESS(pool_worker)
{
  make();
  kv_unroll(3);
  g_p->StartRun(1);
  kv_unroll(0);
  g_env = g_stopping = true;
  templates();
  (*g_fn)();
  kv_assert(!g_held && g_p->stopped_ && g_n == 0, "a worker ends only when the pool goes away and no task is left");
  kv_assert(g_called == g_taken, "every task that was taken was run once");
  kv_cover("ended");
}
HARNESS(pool_push)
{
  make();
  g_env = true;
  g_producer = true;
  templates();
  uint64_t c = g_called;
  if (kv_bool("copy")) { Task t = kv_task; g_p->Push(t); } else g_p->Push(kv_task);
  kv_assert(!g_held && g_pushed && *g_back, "the task was queued");
  kv_assert((int)(g_n - 1) < g_p->max_queue_size_, "the queue never holds more tasks than it has room for");
  kv_assert(g_called == c, "the producer does not run the task");
  (*g_back)();
  kv_assert(g_called == c + 1, "the queued task is the given one");
  kv_cover("pushed");
}
HARNESS(pool_resize)
{
  make();
  g_env = true;
  int m = g_p->max_queue_size_, n = kv_u32("n");
  g_p->SetMaxQueueSize(n);
  kv_assert(g_p->max_queue_size_ == (n > 0 ? n : m) && !g_held, "SetMaxQueueSize sets the room of the queue");
  kv_cover("resized");
}
static bool t_join(void *, uint64_t i) { return g_joined == (g_K < i); }
static void *ptr_fn(void *, uint64_t i) { return (KvRaw<Thread> *)g_fam + i; }
HARNESS(pool_gone)
{
  make();
  uint64_t n = kv_size("threads");
  kv_assume(n < 100000);
  g_fam = kv_family("thread", sizeof(Thread), n, ~0ul);
  void *arr = kv_family("slot", sizeof(void *), n, ~0ul);
  kv_field_fn(arr, 0, 8, 1, (void *)(kv_pfn)ptr_fn, nullptr);
  g_p->threads_.p = (std::unique_ptr<Thread> *)arr;
  g_p->threads_.n = n;
  g_K = kv_u64("k");
  g_env = true;
  templates();
  kv_template_at(t_join, nullptr);
  g_p->~ThreadPool();
  kv_assert(g_joined == (g_K < n) && !g_held, "every thread is joined before the pool is gone");
  kv_cover("gone");
}
