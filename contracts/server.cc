// C19: the server and its pool of loops.  Real TcpServer, EventLoopPool and TcpConnection
// against the contracts of the acceptor (acceptor.cc), of a loop thread (loop_thread.cc) and of conn.h.
#include <string>
#include <memory>
#include <unordered_map>
#include <vector>
#include <stdarg.h>
#include "kv.h"
namespace kanon { class TcpConnection; class EventLoopThread; class EventLoop; }
static int g_locks;
// ---- library contract: std::unordered_map<std::string, TcpConnectionPtr>: the entries of the proof and g_rest others
static uint64_t g_rest;
template <> class std::unordered_map<std::string, std::shared_ptr<kanon::TcpConnection>> {
 public:
  typedef std::pair<std::string const, std::shared_ptr<kanon::TcpConnection>> value_type;
  typedef std::string key_type;
  typedef std::shared_ptr<kanon::TcpConnection> mapped_type;
  struct iterator {
    value_type **p;
    value_type &operator*() const { return **p; }
    value_type *operator->() const { return *p; }
    iterator &operator++() { ++p; return *this; }
    iterator operator++(int) { iterator t = *this; ++p; return t; }
    bool operator==(iterator const &r) const { return p == r.p; }
    bool operator!=(iterator const &r) const { return p != r.p; }
  };
  typedef iterator const_iterator;
  value_type *e[3];
  int n;
  unordered_map() : e(), n(0) {}
  unordered_map(unordered_map &&r) : e(), n(0) { swap(r); }
  unordered_map &operator=(unordered_map &&r) { clear(); swap(r); return *this; }
  ~unordered_map() { clear(); }
  void swap(unordered_map &r) { for (int i = 0; i < 3; i++) { value_type *t = e[i]; e[i] = r.e[i]; r.e[i] = t; } int t = n; n = r.n; r.n = t; }
  void clear() { for (int i = 0; i < 3; i++) if (i < n) { value_type *t = e[i]; e[i] = nullptr; delete t; } n = 0; }
  size_t size() const { kv_assert(g_locks || CurT(), "the table of connections is read under its lock"); return g_rest + n; }
  static bool CurT();
  bool empty() const { return size() == 0; }
  iterator begin() const { return iterator{const_cast<value_type **>(e)}; }
  iterator end() const { return iterator{const_cast<value_type **>(e) + n}; }
  iterator find(std::string const &k) const { for (int i = 0; i < 3; i++) if (i < n && e[i]->first == k) return iterator{const_cast<value_type **>(e) + i}; return end(); }
  size_t count(std::string const &k) const { return find(k) != end(); }
  mapped_type &at(std::string const &k) const { return find(k)->second; }
  mapped_type &operator[](std::string const &k)
  {
    kv_assert(g_locks, "the table of connections is changed under its lock");
    iterator i = find(k);
    if (i != end()) return i->second;
    kv_assert(n < 3, "at most three connections in the proof");
    e[n] = new value_type(k, nullptr);
    return e[n++]->second;
  }
  template <class V> std::pair<iterator, bool> emplace(std::string const &k, V &&v) { bool f = count(k); if (!f) (*this)[k] = std::forward<V>(v); return std::pair<iterator, bool>(find(k), !f); }
  std::pair<iterator, bool> insert(value_type const &v) { return emplace(v.first, v.second); }
  iterator erase(iterator i)
  {
    kv_assert(g_locks, "the table of connections is changed under its lock");
    int j = (int)(i.p - e);
    value_type *t = e[j];
    n--;
    if (j < n) e[j] = e[j + 1];
    if (j + 1 < n) e[j + 1] = e[j + 2];
    e[n] = nullptr;
    delete t;
    return iterator{e + j};
  }
  size_t erase(std::string const &k)
  {
    kv_assert(g_locks, "the table of connections is changed under its lock");
    iterator i = find(k);
    if (i == end()) return 0;
    erase(i);
    return 1;
  }
};
// ---- library contract: std::vector<std::unique_ptr<EventLoopThread>>: thread g_k and any other
static uint64_t g_k;
static bool g_hask;
template <> class std::vector<std::unique_ptr<kanon::EventLoopThread>> {
 public:
  std::unique_ptr<kanon::EventLoopThread> *k, *o;
  uint64_t n;
  vector() : n(0) { k = new std::unique_ptr<kanon::EventLoopThread>(); o = new std::unique_ptr<kanon::EventLoopThread>(); }
  ~vector();
  void reserve(uint64_t) {}
  bool empty() const { return n == 0; }
  uint64_t size() const { return n; }
  std::unique_ptr<kanon::EventLoopThread> &operator[](uint64_t i) { kv_assert(i < n, "a loop thread of the pool"); return i == g_k ? *k : *o; }
  std::unique_ptr<kanon::EventLoopThread> &at(uint64_t i) { return (*this)[i]; }
  std::unique_ptr<kanon::EventLoopThread> &back() { return (*this)[n - 1]; }
  void put(kanon::EventLoopThread *p);
  void emplace_back(kanon::EventLoopThread *p) { put(p); }
  void push_back(std::unique_ptr<kanon::EventLoopThread> p) { put(p.release()); }
  void emplace_back(std::unique_ptr<kanon::EventLoopThread> p) { put(p.release()); }
};
#include "conn.h"
#include "kanon/net/acceptor.h"
#include "kanon/net/event_loop_pool.h"
#include "kanon/net/tcp_server.h"
#include "kanon/net/user_server.h"
bool std::unordered_map<std::string, std::shared_ptr<kanon::TcpConnection>>::CurT() { return CurrentThread::t_tid == 100; }

static unsigned g_seen[4];
static int g_nseen;
static bool g_plain;
static void *g_mutex;
static bool g_mdead;
static void kv_env();
extern "C" {
int pthread_mutex_init(pthread_mutex_t *, pthread_mutexattr_t const *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { kv_assert(!g_locks, "a held mutex is not destroyed"); if (m == g_mutex) g_mdead = true; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
  kv_assert(!g_locks, "the mutex is not locked twice");
  kv_env();
  kv_assert(!(g_mdead && m == g_mutex), "a destroyed mutex is not locked");
  g_locks = 1;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *) { kv_assert(g_locks, "unlock: a held mutex"); g_locks = 0; kv_env(); return 0; }
int pthread_cond_init(pthread_cond_t *, pthread_condattr_t const *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
__sighandler_t signal(int, __sighandler_t) noexcept { return nullptr; }
// the text of numbers and strings: different arguments give different texts
int snprintf(char *b, size_t n, char const *f, ...) noexcept
{
  if (g_plain) { b[0] = 0; return 0; }   // the names of loop threads are not modelled
  va_list ap;
  va_start(ap, f);
  size_t k = 0;
  for (; *f; f++) {
    if (*f != '%') { if (k + 1 < n) b[k] = *f; k++; continue; }
    f++;
    if (*f == 's') { for (char const *s = va_arg(ap, char const *); *s; s++) { if (k + 1 < n) b[k] = *s; k++; } continue; }
    unsigned v = va_arg(ap, unsigned);
    int i = 0;
    while (i < g_nseen && g_seen[i] != v) i++;
    if (i == g_nseen) { kv_assert(i < 4, "at most four numbers in the proof"); g_seen[g_nseen++] = v; }
    if (k + 1 < n) b[k] = (char)('0' + i); k++;
  }
  if (n) b[k < n ? k : n - 1] = 0;
  va_end(ap);
  return (int)k;
}
}
// ---- contract of the loop threads (contracts/loop_thread.cc)
static EventLoop *g_loopk, *g_loopo, *g_base;
static uint64_t g_made, g_started;
static bool g_joined, g_pooldead;
Thread::Thread(std::string const &) : is_started_(false), is_joined_(false), pthreadId_(0) {}
Thread::~Thread() {}
static bool g_initcb;
EventLoopThread::EventLoopThread(std::string const &) : loop_(nullptr), mutex_(), cond_(mutex_), thr_(std::string()) { g_made++; }
static void runq(int i);
// the loop calls every functor queued before it is told to end, then its thread is joined
EventLoopThread::~EventLoopThread() KANON_NOEXCEPT
{
  if (!loop_) return;
  kv_env();
  for (int i = 0; i < 4; i++) if (i < g_qn && g_ql[i] == loop_ && g_q[i]) runq(i);
}
EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &cb)
{
  kv_assert((bool)cb == g_initcb, "each loop thread gets the init callback");
  kv_assert(g_started < g_made && !loop_, "a loop thread is started once");
  loop_ = g_started == g_k ? g_loopk : g_loopo;
  g_started++;
  return loop_;
}
std::vector<std::unique_ptr<kanon::EventLoopThread>>::~vector() { delete k; delete o; }
void std::vector<std::unique_ptr<kanon::EventLoopThread>>::put(kanon::EventLoopThread *p)
{
  // the thread moves into its slot
  EventLoopThread *t = n == g_k ? k->get() : o->get();
  t->loop_ = p->loop_;
  if (n == g_k) g_hask = true;
  delete p;
  n++;
}
// ---- contract of the acceptor (contracts/acceptor.cc)
static int g_listen;
static bool g_accdead;
Acceptor::Acceptor(EventLoop *loop, InetAddr const &, bool) : loop_(loop), socket_(5), channel_(loop, 5), listening_(false) {}
Acceptor::~Acceptor() KANON_NOEXCEPT {}
void Acceptor::Listen() KANON_NOEXCEPT { kv_assert(CurrentThread::t_tid == 100, "listening starts in the loop of the server"); g_listen++; listening_ = true; }
std::string InetAddr::ToIpPort() const { return std::string("a:1"); }
struct sockaddr_in6 sock::GetLocalAddr(FdType) KANON_NOEXCEPT { sockaddr_in6 a; memset(&a, 0, sizeof a); return a; }
usize kanon::BufferReadFromFd(Buffer &, FdType, int &saved_errno)
{
  kv_assert(!g_close, "nothing is read after the descriptor was closed");
  saved_errno = ECONNRESET;
  return kv_bool("eof") ? 0 : (usize)-1;
}
FixedChunkMemoryPool::FixedChunkMemoryPool(size_t) {}
FixedChunkMemoryPool::~FixedChunkMemoryPool() KANON_NOEXCEPT {}
void *FixedChunkMemoryPool::Malloc(size_t n) { return ::operator new(n); }
void FixedChunkMemoryPool::Free(void *p) { ::operator delete(p); }
size_t FixedChunkMemoryPool::GetUsage(size_t) const KANON_NOEXCEPT { return 0; }
#include "kanon/net/event_loop_pool.cc"
#include "kanon/net/tcp_server.cc"

static EventLoop *mkloop(int tid)
{
  KvRaw<EventLoop> *el = new KvRaw<EventLoop>;
  EventLoop *l = &el->r();
  *(int *)&l->owner_thread_id_ = tid;
  return l;
}
static int g_up, g_down, g_upt, g_downt;
static TcpServer *g_srv;
static TcpServer *make()
{
  CurrentThread::t_tid = 100;
  g_base = mkloop(100);
  g_loopk = mkloop(201);
  g_loopo = mkloop(202);
  KvRaw<InetAddr> *ia = new KvRaw<InetAddr>;
  TcpServer *s = new TcpServer(g_base, ia->r(), "s");
  kv_assert(!g_listen && !s->IsRunning(), "a new server does not listen");
  s->SetConnectionCallback([](TcpConnectionPtr const &c) {
    kv_assert(!g_locks, "callbacks are called without the lock of the server");
    if (c->GetLoop() == g_base) kv_assert(CurrentThread::t_tid == 100, "");
    if (c->channel_->GetFd() != 7) return;
    if (c->IsConnected()) { g_up++; g_upt = CurrentThread::t_tid; } else { g_down++; g_downt = CurrentThread::t_tid; }
  });
  g_srv = s;
  g_mutex = &s->lock_conn_.mutex_;
  return s;
}
// the pool is running n loop threads, the next connection goes to number next
static uint64_t g_n;
static std::weak_ptr<TcpConnection> g_wp;
static EventLoop *g_cl;
static bool g_env, g_closing;
// the other threads: the loop of the connection closes it now
static void kv_env()
{
  if (!g_env || !kv_bool("closed_meanwhile")) return;
  g_env = false;
  g_closing = true;
  TcpConnectionPtr c = g_wp.lock();
  if (!c || !c->IsConnected()) return;
  int t = CurrentThread::t_tid;
  CurrentThread::t_tid = *(int *)&g_cl->owner_thread_id_;
  c->ForceClose();
  c.reset();
  CurrentThread::t_tid = t;
}
static bool pool(TcpServer *s)
{
  EventLoopPool *p = s->pool_.get();
  g_n = kv_u64("n");
  kv_assume(g_n < (1u << 30));
  g_k = kv_u64("k_thread");
  kv_assume(g_k < g_n || g_n == 0);
  p->loop_num_ = (int)g_n;
  p->started_ = true;
  g_made = 2;
  if (g_n) {
    EventLoopThread *k = new EventLoopThread(std::string()), *o = new EventLoopThread(std::string());
    k->loop_ = g_loopk;
    o->loop_ = g_loopo;
    p->loop_threads_.k->reset(k);
    p->loop_threads_.o->reset(o);
    p->loop_threads_.n = g_n;
    p->next_ = (int)kv_u64("next");
    kv_assume(p->next_ >= 0 && (uint64_t)p->next_ < g_n);
  }
  return g_n > 0;
}
static void runq(int i)
{
  CurrentThread::t_tid = *(int *)&g_ql[i]->owner_thread_id_;
  std::function<void()> f(std::move(g_q[i]));
  f();
  f = nullptr;
  CurrentThread::t_tid = 100;
}
HARNESS(pool_next)
{
  TcpServer *s = make();
  if (!pool(s)) { kv_assert(s->pool_->GetNextLoop() == g_base, "a pool without threads gives the loop of the server"); return; }
  uint64_t nx = s->pool_->next_;
  EventLoop *l = s->pool_->GetNextLoop();
  kv_assert((l == g_loopk) == (nx == g_k) && (l == g_loopo) == (nx != g_k), "the next loop is given");
  kv_assert((uint64_t)s->pool_->next_ == (nx + 1 == g_n ? 0 : nx + 1), "loops are given in turn, each once per round");
  kv_cover("next");
}
static void *cnt_inv_ctx;
static bool cnt_inv(void *c, uint64_t j)
{
  std::vector<std::unique_ptr<EventLoopThread>> &v = *(std::vector<std::unique_ptr<EventLoopThread>> *)c;
  return (v.n == (uint32_t)j) & (g_made == (uint32_t)j) & (g_started == (uint32_t)j);
}
static bool cnt_k(void *c)
{
  std::vector<std::unique_ptr<EventLoopThread>> &v = *(std::vector<std::unique_ptr<EventLoopThread>> *)c;
  return ((v.n > g_k) == g_hask) & (v.n <= g_n);
}
HARNESS(pool_start)
{
  TcpServer *s = make();
  g_initcb = kv_bool("init");
  g_n = kv_u64("n");
  kv_assume(g_n < (1u << 30));
  g_k = kv_u64("k_thread");
  kv_assume(g_k < g_n || g_n == 0);
  s->SetLoopNum((int)g_n);
  s->pool_->loop_threads_.k->reset(new EventLoopThread(std::string()));
  s->pool_->loop_threads_.o->reset(new EventLoopThread(std::string()));
  g_made = 0;
  g_plain = true;
  kv_template_at(cnt_inv, &s->pool_->loop_threads_);
  kv_template0(cnt_k, &s->pool_->loop_threads_);
  EventLoopThread::ThreadInitCallback cb;
  if (g_initcb) cb = [](EventLoop *) {};
  s->pool_->StartRun(cb);
  kv_assert(g_made == g_n && g_started == g_n && s->pool_->loop_threads_.size() == g_n, "the pool starts as many loop threads as it was told, each once");
  kv_assert(s->pool_->IsStarted() && s->pool_->next_ == 0, "the first connection goes to the first loop");
  kv_cover("started");
}
static int g_inits;
HARNESS(srv_start)
{
  TcpServer *s = make();
  bool mt = kv_bool("threads");
  g_initcb = kv_bool("init");
  if (mt) {
    s->SetLoopNum(1);
    s->pool_->loop_threads_.k->reset(new EventLoopThread(std::string()));
    g_made = 0;
  }
  if (g_initcb) s->SetThreadInitCallback([](EventLoop *l) { kv_assert(l == g_base && !g_listen, "the init callback runs before listening"); g_inits++; });
  if (kv_bool("elsewhere")) CurrentThread::t_tid = 300;
  s->StartRun();
  if (kv_bool("other_thread")) CurrentThread::t_tid = 301;
  s->StartRun();
  CurrentThread::t_tid = 100;
  kv_assert(g_qn <= 1, "starting again does nothing");
  if (g_qn) { kv_assert(!g_listen && g_ql[0] == g_base, "another thread starts the server in its loop"); runq(0); }
  kv_assert(g_listen == 1 && s->IsRunning(), "the server listens once");
  kv_assert(s->pool_->IsStarted() && g_started == (mt ? 1u : 0u), "the pool is started before");
  kv_assert(g_inits == (g_initcb && !mt), "without loop threads the init callback runs in the loop of the server");
  s->StartRun();
  kv_assert(g_listen == 1, "starting again does nothing");
  kv_cover("started");
}
static TcpServer *accepted()
{
  TcpServer *s = make();
  pool(s);
  s->next_conn_id = kv_u32("id");
  g_rest = kv_u64("others");
  kv_assume(g_rest < (1ul << 32));
  kv_assert((bool)s->acceptor_->new_connection_callback_, "the server takes the connections of its acceptor");
  KvRaw<InetAddr> *ia = new KvRaw<InetAddr>;
  uint64_t nx = s->pool_->next_;
  g_cl = !g_n ? g_base : nx == g_k ? g_loopk : g_loopo;
  s->acceptor_->new_connection_callback_(7, ia->r());
  kv_assert(s->connections_.n == 1, "the server keeps the connection");
  g_wp = s->connections_.e[0]->second;
  kv_assert(s->connections_.e[0]->second->GetLoop() == g_cl, "the connection belongs to the next loop");
  kv_assert(g_wp.lock()->GetName() == s->connections_.e[0]->first, "it is kept under its name");
  if (g_n) {
    kv_assert(!g_up && g_qn == 1 && g_ql[0] == g_cl, "it is established in its loop");
    if (kv_bool("down_before_up")) { kv_cover("queued"); }
    runq(0);
    g_qn = 0;
  }
  kv_assert(g_up == 1 && !g_down && g_upt == *(int *)&g_cl->owner_thread_id_, "the connection is reported up once, in the thread of its loop");
  kv_assert(g_wp.lock()->channel_->IsReading() && !g_close, "it is read from");
  kv_assert(s->connections_.e[0]->second.use_count() == 1, "the server alone owns the connection");
  return s;
}
HARNESS(srv_accept)
{
  TcpServer *s = accepted();
  InetAddr *ia = &(new KvRaw<InetAddr>)->r();
  std::string first = s->connections_.e[0]->first;
  s->acceptor_->new_connection_callback_(8, *ia);
  kv_assert(s->connections_.n == 2 && s->connections_.e[0]->first == first && s->connections_.e[1]->first != first, "connections have different names");
  kv_assert(s->connections_.e[0]->second == g_wp.lock(), "both are kept");
  kv_cover("two");
}
static TcpConnectionPtr g_user;
HARNESS(srv_close)
{
  TcpServer *s = accepted();
  uint64_t others = g_rest;
  if (kv_bool("kept")) g_user = g_wp.lock();
  TcpConnectionPtr c = g_wp.lock();
  if (kv_bool("peer")) {
    CurrentThread::t_tid = *(int *)&g_cl->owner_thread_id_;
    c->channel_->SetRevents(kv_bool("hup") ? EPOLLHUP : EPOLLIN);
    TimeStamp now(int64_t(1));
    c->channel_->HandleEvents(now);
    CurrentThread::t_tid = 100;
  } else if (kv_bool("elsewhere")) {
    CurrentThread::t_tid = 300;
    c->ForceClose();
    CurrentThread::t_tid = 100;
    kv_assert(!g_down && g_qn == 1, "another thread only queues the closing");
    runq(0);
    for (int i = 0; i < 3; i++) { g_q[i] = std::move(g_q[i + 1]); g_ql[i] = g_ql[i + 1]; }
    g_qn--;
  } else { CurrentThread::t_tid = *(int *)&g_cl->owner_thread_id_; c->ForceClose(); CurrentThread::t_tid = 100; }
  c.reset();
  if (!g_down) { kv_assert(s->connections_.n == 1 && !g_wp.expired() && !g_close, "an open connection stays with the server"); return; }
  kv_cover("closed");
  kv_assert(g_down == 1 && g_downt == g_upt, "the connection is reported down once, in the thread of its loop");
  kv_assert(s->connections_.n == 0 && g_rest == others, "a closed connection leaves the server, and no other does");
  kv_assert(!g_removed && g_qn == 1 && g_ql[0] == g_cl, "its channel is removed after the events of the round");
  runq(0);
  kv_assert(g_removed == 1, "the channel left the poller once");
  kv_assert(g_user || g_wp.expired(), "nobody but the user keeps a closed connection");
  kv_assert(g_close == (g_user ? 0 : 1), "the descriptor is closed once, with the last reference");
  kv_assert(g_down == 1, "reported down once");
}
// the server goes away
HARNESS(srv_gone)
{
  TcpServer *s = accepted();
  g_rest = 0;
  if (kv_bool("kept")) g_user = g_wp.lock();
  bool second = kv_bool("second");
  if (second) s->acceptor_->new_connection_callback_(8, (new KvRaw<InetAddr>)->r());
  g_env = g_cl != g_base;
  s->~TcpServer();
  kv_cover("gone");
  g_env = false;
  kv_assert(g_mdead, "the server is gone");
  for (int i = 0; i < 4; i++) kv_assert(i >= g_qn || !g_q[i], "the loops have called everything that was queued");
  kv_assert(g_down == 1 && g_downt == g_upt, "every connection is reported down once, in the thread of its loop");
  kv_assert(g_removed == 1 && g_rmchan == (second ? 1 : 0), "every channel left its poller once");
  kv_assert(g_user || g_wp.expired(), "nobody but the user keeps a connection of a server that is gone");
  kv_assert(g_close == (g_user ? 0 : 1) + second + 1, "the descriptors are closed once, with the last reference");
}
static int g_applied;
HARNESS(srv_apply)
{
  TcpServer *s = accepted();
  g_rest = 0;
  s->acceptor_->new_connection_callback_(8, (new KvRaw<InetAddr>)->r());
  s->ApplyAllPeers([](TcpConnectionPtr const &c) { kv_assert(c == g_srv->connections_.e[g_applied]->second, "every connection once"); g_applied++; });
  kv_assert(g_applied == 2 && !g_locks, "the callback is applied to every connection");
  kv_cover("applied");
}
