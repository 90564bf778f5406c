// C18: the client.  Real TcpClient and TcpConnection against the contracts of the connector and of conn.h.
#include "conn.h"
#include "kanon/net/connector.h"
#include "kanon/net/tcp_client.h"
#include "kanon/net/user_client.h"
static int g_up, g_down, g_starts, g_stops, g_restarts, g_conns;
static int g_reads;
static bool g_dead;      // the user let go of the client

static int g_locks;
extern "C" {
int pthread_mutex_init(pthread_mutex_t *, pthread_mutexattr_t const *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { kv_assert(!g_locks, "a held mutex is not destroyed"); return 0; }
int pthread_mutex_lock(pthread_mutex_t *) { kv_assert(!g_locks, "the mutex is not locked twice"); g_locks = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *) { kv_assert(g_locks, "unlock: a held mutex"); g_locks = 0; return 0; }
}
// the contract of the connector (contracts/connector.cc)
Connector::Connector(EventLoop *loop, InetAddr const &a) : loop_(loop), serv_addr_(a), retry_interval_(500), state_(State::kDisconnected), connect_(true) {}
Connector::~Connector() KANON_NOEXCEPT {}
void Connector::StartRun() { g_starts++; }
void Connector::Stop() { g_stops++; }
void Connector::Restrat() { g_restarts++; }
InetAddr::InetAddr(Port, bool, bool) { memset((void *)this, 0, sizeof *this); }
struct sockaddr_in6 sock::GetLocalAddr(FdType) KANON_NOEXCEPT { sockaddr_in6 a; memset(&a, 0, sizeof a); return a; }
usize kanon::BufferReadFromFd(Buffer &, FdType, int &saved_errno)
{
  kv_assert(!g_close, "nothing is read after the descriptor was closed");
  g_reads++;
  if (kv_bool("read_fails")) { saved_errno = kv_bool("read_eagain") ? EAGAIN : ECONNRESET; return (usize)-1; }
  size_t n = kv_size("read_n");
  kv_assume(n < (1u << 31));
  return n;
}
#include "kanon/net/tcp_client.cc"

static EventLoop *mkloop()
{
  CurrentThread::t_tid = 100;
  KvRaw<EventLoop> *el = new KvRaw<EventLoop>;
  EventLoop *l = &el->r();
  *(int *)&l->owner_thread_id_ = 100;
  return l;
}
static TcpClientPtr g_cli;
static TcpConnectionPtr g_user;   // the user keeps the connection
static TcpClient *make(bool compact)
{
  KvRaw<InetAddr> *ia = new KvRaw<InetAddr>;
  g_cli = NewTcpClient(mkloop(), ia->r(), std::string("c"), compact);
  g_cli->SetConnectionCallback([](TcpConnectionPtr const &c) {
    if (c->IsConnected()) {
      kv_assert(!g_up, "reported up once");
      kv_assert(g_cli->conn_ == c, "GetConnection returns the connection when it is reported up");
      g_up++;
    } else { kv_assert(g_up && !g_down, "reported down once, after up"); g_down++; }
  });
  return g_cli.get();
}
static void run()
{
  CurrentThread::t_tid = 100;
  for (int i = 0; i < 4; i++) if (i < g_qn && g_q[i]) { std::function<void()> f(std::move(g_q[i])); f(); }
}
static std::weak_ptr<TcpConnection> g_wp;
static TcpClient *connected()
{
  TcpClient *c = make(kv_bool("compact"));
  kv_assert((bool)c->connector_->new_connection_callback_, "the client takes the connections of its connector");
  c->connector_->new_connection_callback_(7);
  kv_assert(g_up == 1 && !g_close && c->conn_ && c->conn_->channel_->IsReading(), "a new connection is reported up and read from");
  g_wp = c->conn_;
  return c;
}
static void gone()
{
  kv_assert(g_down == 1, "the connection is reported down once");
  kv_assert(g_removed == 1, "the channel left the poller once");
  kv_assert(g_user || g_wp.expired(), "nobody but the user keeps a closed connection");
  kv_assert(g_close == (g_user ? 0 : 1), "the descriptor is closed once, with the last reference");
}

HARNESS(cli_connect)
{
  TcpClient *c = make(kv_bool("compact"));
  c->Connect();
  kv_assert(g_starts == 1 && !g_stops && !g_restarts, "Connect starts the connector");
  c->Stop();
  kv_assert(g_stops == 1, "Stop stops the connector");
  kv_cover("started");
}
HARNESS(cli_new)
{
  TcpClient *c = connected();
  kv_assert(c->GetConnection() == c->conn_, "GetConnection returns the connection");
  kv_assert(c->conn_.use_count() == 1, "the client alone owns the connection");
  c->connector_->new_connection_callback_(9);
  kv_assert(g_up == 1 && g_close == 1 && g_closefd == 9, "a second connection is closed");
  kv_assert(!g_wp.expired() && c->GetConnection() == g_wp.lock() && g_wp.lock()->IsConnected(), "the first connection stays");
  kv_cover("second");
}
HARNESS(cli_new_late)
{
  TcpClient *c = make(kv_bool("compact"));
  std::shared_ptr<Connector> k = c->connector_;
  g_cli.reset();
  kv_assert(g_stops == 1, "a client that goes away without a connection stops its connector");
  k->new_connection_callback_(7);
  kv_assert(!g_up && g_close == 1 && g_closefd == 7, "a connection that nobody takes is closed");
  kv_cover("late");
}
// however the connection ends
static void end(TcpConnectionPtr c)
{
  if (kv_bool("peer")) {
    c->channel_->SetRevents(kv_bool("hup") ? EPOLLHUP : EPOLLIN);
    TimeStamp now(int64_t(1));
    c->channel_->HandleEvents(now);
  } else if (kv_bool("elsewhere")) {
    CurrentThread::t_tid = 200;
    c->ForceClose();
    CurrentThread::t_tid = 100;
    c.reset();
    if (g_qn) { std::function<void()> f(std::move(g_q[0])); f(); }
  } else c->ForceClose();
}
static void closed(bool retry)
{
  TcpClient *c = connected();
  if (kv_bool("enabled")) c->EnableRetry(); else retry = false;
  if (kv_bool("disconnected")) {
    c->Disconnect();
    kv_assert(g_fin == 1 && !g_down, "Disconnect shuts the write side down");
    retry = false;
  } else if (kv_bool("stopped")) { c->Stop(); retry = false; }
  if (kv_bool("kept")) g_user = c->conn_;
  end(c->conn_);
  if (!g_down) { kv_assert(!g_restarts && c->conn_ && !g_wp.expired(), "an open connection stays with the client"); return; }
  kv_assert(!c->GetConnection(), "a closed connection leaves the client");
  kv_assert(g_restarts == (retry ? 1 : 0), "the client connects again exactly when retrying was enabled and not disabled since");
  run();
  gone();
  kv_cover("closed");
  // the next connection
  if (kv_bool("again")) {
    g_up = g_down = g_removed = g_close = 0;
    c->connector_->new_connection_callback_(7);
    kv_assert(g_up == 1 && c->conn_ && c->conn_->IsConnected(), "the client takes the next connection");
  }
}
HARNESS(cli_closed) { closed(true); }
// the client goes away first
HARNESS(cli_gone)
{
  connected();
  bool kept = kv_bool("kept");
  if (kept) g_user = g_cli->conn_;
  if (kv_bool("elsewhere")) {
    CurrentThread::t_tid = 200;
    g_cli.reset();
    kv_assert(!g_down && !g_close && !g_removed, "another thread only queues the closing");
    CurrentThread::t_tid = 100;
    if (g_qn) { std::function<void()> f(std::move(g_q[0])); f(); }
  } else g_cli.reset();
  if (kept) {
    kv_assert(!g_down && !g_removed && g_user->IsConnected(), "a connection that the user keeps outlives the client");
    end(g_user);
    if (!g_down) return;
    kv_cover("later");
    run();
    gone();
    g_user.reset();
    kv_assert(g_close == 1, "the descriptor is closed with the last reference");
    return;
  }
  kv_assert(g_down == 1, "a connection of the client alone is closed with it");
  run();
  gone();
  kv_assert(!g_restarts, "no restart for a client that is gone");
  kv_cover("gone");
}
