// C26: mutex, condition variable, latch, reader/writer lock and thread against the contracts of the
// pthread functions.  Between an unlock and the next lock (and while waiting) the other threads
// change the protected state in every way the same functions permit (rely/guarantee).
#include "kv.h"
#include <errno.h>
#include <pthread.h>
#include <string.h>
#include <sys/prctl.h>
#include <time.h>
#include <functional>
#include <memory>
#include <string>
#include "kanon/thread/mutex_lock.h"
#include "kanon/thread/condition.h"
#include "kanon/thread/count_down_latch.h"
#include "kanon/thread/rw_lock.h"
#include "kanon/thread/thread.h"
using namespace kanon;
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }

enum { ME = 100 };
static bool g_held, g_nobody;            // this thread holds the mutex; no other thread is around
static void (*g_env)();                  // what other threads do while this one is outside
static void (*g_leave)();                // what must hold when this thread leaves the critical section
static void (*g_wait)(void *);           // what must hold when this thread starts to wait
static pthread_mutex_t *g_mutex;
static int g_locks, g_unlocks, g_inits, g_destroys, g_cinits, g_cdestroys, g_waits;
static void *g_signalled, *g_broadcast;  // the condition notified in this critical section
static int g_waitret;
static timespec g_deadline, g_now;
static bool g_timed;
static void enter() { if (g_env && !g_nobody) g_env(); g_held = true; g_signalled = g_broadcast = nullptr; }
static void leave() { if (g_leave) g_leave(); g_held = false; }
extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, pthread_mutexattr_t const *) { g_inits++; g_mutex = m; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { kv_assert(m == g_mutex && !g_held, "a held mutex is not destroyed"); g_destroys++; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
  kv_assert(m == g_mutex && !g_held, "the mutex is not locked twice");
  g_locks++;
  enter();
  return 0;
}
static bool g_busy;
int pthread_mutex_trylock(pthread_mutex_t *m)
{
  kv_assert(m == g_mutex && !g_held, "the mutex is not locked twice");
  if (g_busy) return EBUSY;
  g_locks++;
  enter();
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  kv_assert(m == g_mutex && g_held, "a held mutex is unlocked");
  g_unlocks++;
  leave();
  if (g_env && !g_nobody) g_env();
  return 0;
}
int pthread_cond_init(pthread_cond_t *, pthread_condattr_t const *) { g_cinits++; return 0; }
int pthread_cond_destroy(pthread_cond_t *) { g_cdestroys++; return 0; }
int pthread_cond_signal(pthread_cond_t *c) { g_signalled = c; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { g_broadcast = c; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  kv_assert(m == g_mutex && g_held, "waiting: the mutex is held");
  if (g_wait) g_wait(c);
  g_waits |= 1;
  leave();
  enter();                               // woken up, perhaps spuriously
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *t)
{
  kv_assert(m == g_mutex && g_held, "waiting: the mutex is held");
  if (g_wait) g_wait(c);
  g_waits |= 1;
  g_timed = true;
  g_deadline = *t;
  leave();
  enter();
  return g_waitret;
}
int kv_clock_gettime(clockid_t c, timespec *t) noexcept { kv_assert(c == CLOCK_REALTIME, "the deadline is one of the clock the wait uses"); *t = g_now; return 0; }
}

// ---------------------------------------------------------------- the mutex
static MutexLock *g_ml;
static int g_left;                       // what the holder is when this thread is outside
static void m_env()
{
  kv_assert(g_ml->holder_ != ME, "a thread that does not hold the mutex is not the holder");
  int h = kv_u32("holder");
  kv_assume(h != ME);
  g_ml->holder_ = h;
  g_left = h;
}
static void m_leave() { kv_assert(g_ml->holder_ != ME, "the holder is withdrawn before the mutex is released"); }
static KvRaw<MutexLock> *g_mraw;
static void make_mutex()
{
  CurrentThread::t_tid = ME;
  g_mraw = new KvRaw<MutexLock>;
  memset(g_mraw, 0xaa, sizeof *g_mraw);
  g_ml = new (g_mraw) MutexLock;
  kv_assert(g_inits == 1 && g_mutex == &g_ml->GetMutex(), "the mutex is initialised");
  kv_assert(!g_ml->IsLockedInThisThread(), "a new mutex is not held");
  kv_assert(g_ml->holder_ == 0, "a new mutex is held by nobody");
  g_ml->holder_ = kv_u32("holder0");
  kv_assume(g_ml->holder_ != ME);
  g_env = m_env;
  g_leave = m_leave;
}
static void held() { kv_assert(g_held && g_ml->IsLockedInThisThread() && g_ml->holder_ == ME, "the thread that locked the mutex is its holder"); g_ml->AssertLocked(); }
static void released() { kv_assert(!g_held && !g_ml->IsLockedInThisThread(), "a thread that unlocked the mutex is not its holder"); kv_assert(g_ml->holder_ == g_left, "the holder is not touched after the mutex was released"); }
HARNESS(mutex_lock)
{
  make_mutex();
  g_ml->Lock();
  kv_assert(g_locks == 1, "the mutex was locked");
  held();
  g_ml->Unlock();
  kv_assert(g_unlocks == 1, "the mutex was unlocked");
  released();
  g_ml->Lock();
  held();
  g_ml->Unlock();
  released();
  g_nobody = true;
  g_ml->~MutexLock();
  kv_assert(g_destroys == 1, "the mutex is destroyed");
  kv_cover("unlocked");
}
HARNESS(mutex_trylock)
{
  make_mutex();
  g_busy = kv_bool("busy");
  g_left = g_ml->holder_;
  bool r = g_ml->TryLock();
  kv_assert(r == !g_busy, "TryLock says whether it locked the mutex");
  if (r) { held(); g_ml->Unlock(); kv_assert(g_unlocks == 1, "unlocked"); kv_cover("locked"); }
  else kv_cover("busy");
  released();
}
HARNESS(mutex_guard)
{
  make_mutex();
  {
    MutexGuard g{*g_ml};
    held();
  }
  released();
  {
    MutexGuardT<MutexLock> g{*g_ml};
    held();
  }
  released();
  kv_assert(g_locks == 2 && g_unlocks == 2, "a guard locks once and unlocks once");
  kv_cover("guard");
}

// ---------------------------------------------------------------- the condition variable
static Condition *g_cond;
static void c_wait(void *c) { kv_assert(c == &g_cond->cond_, "the condition is waited for"); }
HARNESS(condition)
{
  make_mutex();
  auto raw = new KvRaw<Condition>;
  g_cond = new (raw) Condition(*g_ml);
  kv_assert(g_cinits == 1, "the condition is initialised");
  g_wait = c_wait;
  bool in = kv_bool("inside");
  if (in) g_ml->Lock();
  uint32_t op = kv_u32("op");
  kv_assume(op < 4);
  if (op == 0) { g_cond->Notify(); kv_assert(g_signalled == &g_cond->cond_ && !g_broadcast, "one waiter is notified"); }
  if (op == 1) { g_cond->NotifyAll(); kv_assert(g_broadcast == &g_cond->cond_, "all waiters are notified"); }
  if (op == 2 && in) { g_cond->Wait(); kv_assert(g_waits && !g_timed, "one wait"); held(); kv_cover("waited"); }
  if (op == 3 && in) {
    uint64_t ns = kv_u64("now_ns"), s = kv_u64("now_s"), w = kv_u64("w");
    double sec = (double)w / 1000.0;
    bool whole = kv_bool("whole");
    kv_assume(ns < 1000000000 && s < 1000000000000ull && w < 1000000000);
    g_now.tv_sec = s;
    g_now.tv_nsec = ns;
    g_waitret = kv_bool("timeout") ? ETIMEDOUT : 0;
    bool r = whole ? g_cond->WaitForSeconds((int)w) : g_cond->WaitForSeconds(sec);
    kv_assert(g_waits && g_timed, "one wait with a deadline");
    kv_assert(r == (g_waitret == ETIMEDOUT), "WaitForSeconds says whether the time is over");
    uint64_t d = whole ? (uint64_t)((double)(int)w * 1000000000) : (uint64_t)(sec * 1000000000);
    kv_assert((uint64_t)g_deadline.tv_nsec < 1000000000, "the deadline is a valid time");
    kv_assert((uint64_t)g_deadline.tv_sec * 1000000000 + g_deadline.tv_nsec == s * 1000000000 + ns + d, "the deadline is now plus the given time");
    held();
    kv_cover("timed");
  }
  if (in) { g_ml->Unlock(); released(); }
  g_cond->~Condition();
  kv_assert(g_cdestroys == 1, "the condition is destroyed");
}

// ---------------------------------------------------------------- the latch
static CountDownLatch *g_l;
static int g_count0;                     // the count when this thread entered
static bool g_open;                      // the count was 0 or less when this thread left
static int g_final;
static void l_env() { g_l->count_ = kv_u32("count"); kv_assume(g_l->count_ > -1000000 && g_l->count_ < 1000000); g_count0 = g_l->count_; }
static void l_leave()
{
  if (g_count0 > 0 && g_l->count_ <= 0) kv_assert(g_broadcast == &g_l->cond_.cond_, "the threads that wait for the latch are woken when it opens");
  g_open = g_l->count_ <= 0;
  g_final = g_l->count_;
  if (g_nobody) g_count0 = g_final;
}
static void l_wait(void *c) { kv_assert(g_l->count_ > 0, "an open latch is not waited for"); kv_assert(c == &g_l->cond_.cond_, "the latch is waited for"); kv_assert(!g_nobody, "somebody else opens the latch"); }
static void make_latch()
{
  CurrentThread::t_tid = ME;
  auto raw = new KvRaw<CountDownLatch>;
  int n = kv_u32("n");
  g_l = new (raw) CountDownLatch(n);
  g_leave = l_leave;
  g_nobody = true;
  g_count0 = n;
  kv_assert(g_l->GetCount() == n && !g_held, "a new latch has the given count");
  g_env = l_env;
  g_wait = l_wait;
  g_nobody = false;
}
static bool t_latch(void *) { return (g_l->count_ > 0) | (g_count0 <= 0) | (g_broadcast == &g_l->cond_.cond_); }
static int amount() { int v = kv_u32("by"); kv_assume(v > -1000000 && v < 1000000); return v; }
HARNESS(latch_count)
{
  make_latch();
  uint32_t op = kv_u32("op");
  kv_assume(op < 6);
  int by = amount();
  int entered;
  switch (op) {
    case 0: g_l->Reset(by); kv_assert(g_final == by, "Reset sets the count"); kv_cover("reset"); break;
    case 1: g_l->Add(by); kv_assert(g_final != g_count0 || true, ""); kv_cover("add"); break;
    case 2: g_l->Incr(); kv_cover("incr"); break;
    case 3: g_l->Minus(by); kv_cover("minus"); break;
    case 4: g_l->Decr(); kv_cover("decr"); break;
    case 5: g_l->Countdown(); kv_cover("countdown"); break;
  }
  kv_assert(!g_held && g_waits == 0, "counting does not wait");
  (void)entered;
}
// the count changes by the given amount
HARNESS(latch_amount)
{
  make_latch();
  g_nobody = true;
  int n = amount(), by = amount();
  g_l->count_ = g_count0 = n;
  uint32_t op = kv_u32("op");
  kv_assume(op < 5);
  int want = n;
  switch (op) {
    case 0: g_l->Add(by); want = n + by; break;
    case 1: g_l->Incr(); want = n + 1; break;
    case 2: g_l->Minus(by); want = n - by; break;
    case 3: g_l->Decr(); want = n - 1; break;
    case 4: g_l->Countdown(); want = n - 1; break;
  }
  kv_assert(g_l->GetCount() == want, "the count changes by the given amount");
  kv_cover("changed");
}
HARNESS(latch_wait)
{
  make_latch();
  uint32_t op = kv_u32("op");
  kv_assume(op < 4);
  int by = amount();
  kv_template0(t_latch, nullptr);
  switch (op) {
    case 0: g_l->Wait(); break;
    case 1: g_l->ResetAndWait(by); break;
    case 2: g_l->AddAndWait(by); break;
    case 3: g_l->IncrAndWait(); break;
  }
  kv_assert(!g_held, "the lock is released");
  kv_assert(g_open, "a waiting thread goes on only after the latch has opened");
  kv_cover("open");
}

// ---------------------------------------------------------------- the reader/writer lock
static RWLock *g_rw;
enum { NONE, READER, CLAIM, WRITER };
static int g_mine;                       // this thread
static uint32_t g_readers;               // the other readers
static int g_ow;                         // another writer: NONE, CLAIM or WRITER
static int g_op;                         // the operation that runs: RLock, RUnlock, WLock, WUnlock
static bool g_hadw; static uint32_t g_hadr;   // the state when this thread entered
static bool rw_inv()
{
  return (g_rw->reader_num_ == g_readers + (g_mine == READER)) & (g_rw->has_writer_ == ((g_ow != NONE) | (g_mine >= CLAIM))) &
    !((g_ow != NONE) & (g_mine >= CLAIM)) & ((g_ow != WRITER) | (g_rw->reader_num_ == 0)) & ((g_mine != WRITER) | (g_rw->reader_num_ == 0));
}
static void rw_env()
{
  uint32_t r0 = g_readers;
  g_readers = kv_u32("readers");
  g_ow = kv_u32("ow");
  if (kv_mode() == 1) {
    uint64_t o = kv_fix(4);
    if (o) g_ow = g_mine >= CLAIM ? NONE : o == 1 ? NONE : o == 2 || g_mine == READER ? CLAIM : WRITER;
    if (kv_fix(4)) g_readers = g_mine == WRITER || g_ow == WRITER ? 0 : kv_fit(g_readers, g_mine == CLAIM ? r0 : 5);
  }
  kv_assume(((g_ow == NONE) | (g_ow == CLAIM) | (g_ow == WRITER)) & (g_readers < 4000000000u));
  kv_assume((g_mine != READER) | (g_ow != WRITER));
  kv_assume((g_mine < CLAIM) | (g_ow == NONE));
  kv_assume((g_mine != WRITER) | (g_readers == 0));
  kv_assume((g_mine != CLAIM) | (g_readers <= r0));
  kv_assume((g_ow != WRITER) | (g_readers + (g_mine == READER) == 0));
  g_rw->reader_num_ = g_readers + (g_mine == READER);
  g_rw->has_writer_ = (g_ow != NONE) | (g_mine >= CLAIM);
  g_hadw = g_rw->has_writer_;
  g_hadr = g_rw->reader_num_;
}
static bool g_waiting, rw_claims();
static void rw_leave()
{
  if (!g_waiting) {                      // the operation is complete
    if (g_op == 0) { kv_assert((g_ow == NONE) & (g_mine == NONE), "no reader gets in while a writer is inside or waits"); g_mine = READER; }
    if (g_op == 1) g_mine = NONE;
    if (g_op == 2) { kv_assert((g_ow == NONE) & (g_readers == 0), "a writer is alone"); g_mine = WRITER; }
    if (g_op == 3) g_mine = NONE;
  }
  kv_assert(rw_inv(), "the state tells who is inside");
  if (g_hadw & !g_rw->has_writer_) kv_assert(g_broadcast == &g_rw->cond_w_.cond_, "all who wait for a writer are woken when it leaves");
  if ((g_ow == CLAIM) & (g_hadr > 0) & (g_rw->reader_num_ == 0)) kv_assert((g_signalled == &g_rw->cond_r_.cond_) | (g_broadcast == &g_rw->cond_r_.cond_), "the writer that waits for the last reader is woken");
  g_waiting = false;
}
static void rw_wait(void *c)
{
  g_waiting = true;
  kv_assert((g_op == 0) | (g_op == 2), "nobody waits to leave");
  if (rw_claims()) g_mine = CLAIM;
  if (c == &g_rw->cond_r_.cond_) kv_assert((g_mine == CLAIM) & (g_readers > 0), "the last reader is waited for by the next writer");
  else kv_assert((c == &g_rw->cond_w_.cond_) & (g_ow != NONE) & (g_mine == NONE), "a writer is waited for while there is one");
}
static bool rw_claims() { return (g_op == 2) & (g_mine == NONE) & (g_ow == NONE) & g_rw->has_writer_ & (g_rw->reader_num_ == g_readers); }
static bool t_rw(void *) { return (rw_inv() | rw_claims()) & g_held & (g_readers < 4000000000u) & ((g_op != 0) | (g_mine == NONE)); }
static bool t_rw0(void *) { return rw_inv(); }
static bool t_rw1(void *) { return g_mine == NONE; }
static bool t_rw2(void *) { return (g_mine == CLAIM) | rw_claims(); }
static void make_rw(int op, int mine)
{
  CurrentThread::t_tid = ME;
  auto raw = new KvRaw<RWLock>;
  g_rw = new (raw) RWLock;
  kv_assert(g_rw->reader_num_ == 0 && !g_rw->has_writer_, "nobody is inside a new lock");
  g_mine = mine;
  g_op = op;
  g_env = rw_env;
  g_leave = rw_leave;
  g_wait = rw_wait;
  kv_template0(t_rw, nullptr);
  kv_template0(t_rw0, nullptr);
  kv_template0(t_rw1, nullptr);
  kv_template0(t_rw2, nullptr);
}
HARNESS(rw_rlock)
{
  make_rw(0, NONE);
  g_rw->RLock();
  kv_assert(!g_held && g_mine == READER && g_ow != WRITER, "a reader is inside and no writer is");
  kv_cover("in");
}
HARNESS(rw_runlock)
{
  make_rw(1, READER);
  g_rw->RUnlock();
  kv_assert(!g_held && g_mine == NONE, "the reader is outside");
  kv_cover("out");
}
HARNESS(rw_wlock)
{
  make_rw(2, NONE);
  g_rw->WLock();
  kv_assert(!g_held && g_mine == WRITER && g_ow == NONE && g_readers == 0, "the writer is alone inside");
  kv_cover("in");
}
HARNESS(rw_wunlock)
{
  make_rw(3, WRITER);
  g_rw->WUnlock();
  kv_assert(!g_held && g_mine == NONE, "the writer is outside");
  kv_cover("out");
}

HARNESS(rw_guards)
{
  bool w = kv_bool("writer");
  make_rw(w ? 2 : 0, NONE);
  if (w) {
    WLockGuard g{*g_rw};
    kv_assert(g_mine == WRITER && !g_held, "the guard of a writer locks");
    g_op = 3;
  } else {
    RLockGuard g{*g_rw};
    kv_assert(g_mine == READER && !g_held, "the guard of a reader locks");
    g_op = 1;
  }
  kv_assert(g_mine == NONE && !g_held, "the guard unlocks");
  kv_cover("guards");
}

// ---------------------------------------------------------------- the thread
static int g_created, g_joined, g_detached, g_ran, g_refs;
static uint64_t g_id;
static void *(*g_entry)(void *);
static void *g_arg;
static char const *g_osname;
extern "C" {
int pthread_create(pthread_t *t, pthread_attr_t const *, void *(*fn)(void *), void *arg) noexcept
{
  g_created++;
  g_entry = fn;
  g_arg = arg;
  g_id = kv_u64("id");
  kv_assume(g_id != 0);
  *t = g_id;
  return 0;
}
int pthread_join(pthread_t t, void **) { kv_assert(g_created == 1 && t == g_id && !g_joined && !g_detached, "the running thread is joined"); g_joined++; return 0; }
int pthread_detach(pthread_t t) noexcept { kv_assert(g_created == 1 && t == g_id && !g_joined && !g_detached, "a thread that runs is detached"); g_detached++; return 0; }
int prctl(int o, ...) noexcept { kv_assert(o == PR_SET_NAME, "the thread gets its name"); return 0; }
}
extern "C" char *strncpy(char *d, char const *s, size_t n) noexcept { kv_assert(n == 3, "the text of the thread id"); d[0] = s[0]; d[1] = s[1]; d[2] = s[2]; return d; }
extern "C" long syscall(long, ...) noexcept { return 200; }
extern "C" int snprintf(char *b, size_t n, char const *, ...) noexcept { kv_assert(n > 3, "room"); b[0] = '2'; b[1] = b[2] = '0'; b[3] = 0; return 3; }
#define clock_gettime kv_clock_gettime
#include "kanon/thread/condition.cc"
#undef clock_gettime
#include "kanon/thread/rw_lock.cc"
#include "kanon/thread/thread.cc"
static void body() { g_ran++; kv_assert(CurrentThread::t_tid == 200, "the function runs in the new thread"); kv_assert(CurrentThread::t_name[0] == 'x' && !CurrentThread::t_name[1], "the thread knows its name"); }
static void run()
{
  int tid = CurrentThread::t_tid;
  CurrentThread::t_tid = 200;
  g_entry(g_arg);
  CurrentThread::t_tid = tid;
}
static Thread *g_t;
static Thread *make_thread(KvRaw<Thread> *raw, bool late) { return late ? new (raw) Thread(std::string("x")) : new (raw) Thread(body, std::string("x")); }
HARNESS(thread_run)
{
  kv_unroll(40);
  CurrentThread::t_tid = ME;
  auto raw = new KvRaw<Thread>;
  bool late = kv_bool("late"), join = kv_bool("join"), start = kv_bool("start"), slow = kv_bool("slow") & !join;
  Thread *t = make_thread(raw, late);
  if (start) {
    if (late) t->StartRun(body); else t->StartRun();
    kv_assert(g_created == 1 && t->GetPthreadId() == g_id, "one thread was started");
    if (!slow) { run(); kv_assert(g_ran == 1, "the function is called once"); }
    if (join) { t->Join(); kv_assert(g_joined == 1, "the thread was joined"); }
  }
  t->~Thread();
  kv_assert(g_joined == (start & join) && g_detached == (start & !join), "a thread that was started and not joined is detached");
  delete raw;
  if (start & slow) { run(); kv_assert(g_ran == 1, "the function is called once, after the object is gone as well"); kv_cover("slow"); }
  kv_cover("over");
}
HARNESS(thread_move)
{
  kv_unroll(40);
  CurrentThread::t_tid = ME;
  auto raw = new KvRaw<Thread>, raw2 = new KvRaw<Thread>;
  bool start = kv_bool("start"), assign = kv_bool("assign"), ran = kv_bool("ran"), join = kv_bool("join"), later = kv_bool("later");
  Thread *t = make_thread(raw, false), *u;
  if (start) t->StartRun();
  if (start & ran) run();
  if (assign) { u = new (raw2) Thread(std::string("y")); *u = std::move(*t); } else u = new (raw2) Thread(std::move(*t));
  t->~Thread();
  delete raw;
  kv_assert(!g_detached && !g_joined, "a thread that was moved from has nothing to give up");
  if (!start & later) { u->StartRun(); kv_assert(g_created == 1, "the thread that was moved to can be started"); start = true; ran = false; }
  if (start) {
    kv_assert(u->GetPthreadId() == g_id, "the thread was moved");
    if (!ran) run();
    kv_assert(g_ran == 1, "the function is called once");
    if (join) u->Join();
  }
  u->~Thread();
  kv_assert(g_joined == (start & join) && g_detached == (start & !join), "a thread is joined or detached once");
  kv_cover("moved");
}
