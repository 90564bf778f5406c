// C19: a thread that runs an event loop.  Real EventLoopThread, Condition and MutexLock against the
// contracts of the loop, the thread and the pthread functions.
#include "kv.h"
#include <errno.h>
#include <string.h>
#include <functional>
#include <memory>
#include <string>
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/poll/poller_base.h"
#include "kanon/net/timer/timer_queue.h"
#include "kanon/net/event_loop_thread.h"
using namespace kanon;

static EventLoopThread *g_t;
static KvRaw<EventLoopThread> *g_raw, *g_snap;
static std::function<void()> *g_fn;     // what the thread runs
static int g_threads, g_joins, g_inits, g_runs, g_quits, g_signals, g_born, g_dead;
static int g_spurious;
static bool g_locked, g_initcb, g_ends, g_ran, g_main;
static int g_unlocked;                  // critical sections since the loop ended
static EventLoop *g_loop;
static KvRaw<EventLoop> *g_loopstore;

namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }
extern "C" {
int pthread_mutex_init(pthread_mutex_t *, pthread_mutexattr_t const *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { kv_assert(!g_locked, "a held mutex is not destroyed"); return 0; }
int pthread_mutex_lock(pthread_mutex_t *) { kv_assert(!g_locked, "the mutex is not locked twice"); g_locked = true; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *) { kv_assert(g_locked, "unlock: a held mutex"); g_locked = false; g_unlocked++; return 0; }
int pthread_cond_init(pthread_cond_t *, pthread_condattr_t const *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_signal(pthread_cond_t *) { kv_assert(g_locked || g_t->loop_, "the waiting thread is woken after the loop was published"); g_signals++; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { return pthread_cond_signal(c); }
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, timespec const *) { return 0; }
}
static void background()
{
  int tid = CurrentThread::t_tid;
  bool l = g_locked;
  g_locked = false;
  CurrentThread::t_tid = 200;
  g_ran = true;
  (*g_fn)();
  kv_assert(!g_locked, "the thread of the loop leaves no lock behind");
  if (!g_ends) *g_raw = *g_snap;       // the loop is still running
  g_locked = l;
  CurrentThread::t_tid = tid;
}
extern "C" int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *)
{
  kv_assert(g_locked, "waiting: the lock is held");
  kv_assert(g_threads == 1, "the thread is started before it is waited for");
  kv_assert(!g_ran, "the loop has been published: nobody waits any more");
  // a spurious wake-up changes nothing: two of them are as good as any number
  if (g_spurious < 2 && kv_bool("spurious")) { g_spurious++; return 0; }
  background();
  return 0;
}
static void born(EventLoop *l) { g_born++; g_loop = l; kv_assert(CurrentThread::t_tid == 200, "the loop is made by its thread"); }
EventLoop::EventLoop() : EventLoop(false) {}
EventLoop::EventLoop(bool) : owner_thread_id_(200), looping_(false), calling_functors_(false), quit_(false) { born(this); }
EventLoop::~EventLoop() KANON_NOEXCEPT { kv_assert(g_t->loop_ != this, "a loop that is gone is not published"); kv_assert(g_unlocked > 0, "the loop is withdrawn under the lock"); kv_assert(!g_locked, "the loop dies after the lock was released"); g_dead++; }
void EventLoop::StartLoop()
{
  kv_assert(this == g_loop && !g_dead && CurrentThread::t_tid == 200, "the loop runs in its thread");
  kv_assert(g_t->loop_ == this && g_signals == 1 && !g_locked, "the loop was published before it runs");
  kv_assert(g_inits == (g_initcb ? 1 : 0), "the init callback ran before the loop");
  g_runs++;
  *g_snap = *g_raw;
  g_unlocked = 0;
}
void EventLoop::Quit() KANON_NOEXCEPT
{
  kv_assert(g_ran && !g_ends && this == g_loop, "only a running loop is told to end");
  kv_assert(g_locked, "the loop cannot go away while it is told to end");
  g_quits++;
}
Thread::Thread(std::string const &) : is_started_(false), is_joined_(false), pthreadId_(0) {}
Thread::~Thread() { kv_assert(!g_threads || g_joins == 1, "a thread is joined before its object is gone"); }
void Thread::StartRun(std::function<void()> f) { kv_assert(!g_threads, "the thread is started once"); g_threads++; is_started_ = true; pthreadId_ = 77; g_fn = new std::function<void()>(std::move(f)); }
void Thread::StartRun() { kv_assert(false, "the thread has something to run"); }
void Thread::Join()
{
  kv_assert(g_threads == 1 && !g_joins, "a started thread is joined once");
  kv_assert(!g_locked, "the thread is not waited for with the lock held");
  kv_assert(g_ran && (g_quits == 1 || g_ends), "a running loop is told to end before its thread is joined");
  g_joins++;
  is_joined_ = true;
  if (!g_ends) g_t->loop_ = nullptr;
}
#include "kanon/net/event_loop_thread.cc"

static void make()
{
  CurrentThread::t_tid = 100;
  g_raw = new KvRaw<EventLoopThread>;
  g_snap = new KvRaw<EventLoopThread>;
  g_t = &g_raw->r();
  new (g_t) EventLoopThread(std::string());
}
static EventLoop *start()
{
  make();
  kv_unroll(4);
  g_ends = kv_bool("ends");            // the loop was told to end by somebody else
  g_initcb = kv_bool("init");
  EventLoop *l;
  if (g_initcb) l = g_t->StartRun([](EventLoop *x) { kv_assert(x == g_loop && !g_runs && !g_locked && CurrentThread::t_tid == 200, "the init callback gets the loop in its thread"); kv_assert(!g_t->loop_, "the loop is not published before it was initialised"); g_inits++; });
  else l = g_t->StartRun();
  kv_assert(g_threads == 1 && g_ran && !g_locked, "the thread was started");
  kv_assert(g_runs == 1 && g_born == 1, "one loop is run");
  if (!g_ends) kv_assert(l == g_loop && g_t->GetLoop() == g_loop, "StartRun returns the running loop");
  else kv_assert(g_dead == 1 && !l && !g_t->GetLoop(), "a loop that is over is not returned");
  return l;
}
HARNESS(lt_start) { start(); kv_cover("started"); }
HARNESS(lt_stop)
{
  if (kv_bool("never_started")) make(); else start();
  g_t->~EventLoopThread();
  kv_assert(g_joins == g_threads, "the thread is joined");
  kv_cover("stopped");
}
