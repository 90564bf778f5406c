// C12 (sending) and C13 (life cycle): the real connection code against the contracts in conn.h
#include "conn.h"

typedef std::shared_ptr<TcpConnection> Conn;
static EventLoop *g_loop;
static int g_up, g_down, g_closecb, g_wc, g_hw;
static size_t g_hwsize;
static bool g_wcret;
static size_t g_inlen;      // bytes waiting in the kernel's receive queue were delivered so far
static bool g_eof;

// contract of BufferReadFromFd, verified in C25: n bytes appended, or 0 at end of stream, or an errno
usize kanon::BufferReadFromFd(Buffer &, FdType fd, int &saved_errno)
{
  kv_assert(fd == 7, "read: the connection's descriptor");
  kv_assert(!g_close, "nothing is read after the descriptor was closed");
  kv_assert(!g_down, "nothing is read after the connection was reported as down");
  if (kv_bool("read_fails")) { saved_errno = kv_bool("read_eagain") ? EAGAIN : ECONNRESET; return (usize)-1; }
  size_t n = kv_size("read_n");
  kv_assume(n < (1u << 31));
  g_inlen = n;
  g_eof = n == 0;
  return n;
}

static EventLoop *mkloop()
{
  CurrentThread::t_tid = 100;
  KvRaw<EventLoop> *el = new KvRaw<EventLoop>;
  EventLoop *l = &el->r();
  *(int *)&l->owner_thread_id_ = 100;
  return l;
}
static Conn make()
{
  g_loop = mkloop();
  KvRaw<InetAddr> *ia = new KvRaw<InetAddr>;
  Conn c = std::make_shared<TcpConnection>(g_loop, std::string("c"), 7, ia->r(), ia->r());
  c->connection_callback_ = [](Conn const &c) {
    if (c->IsConnected()) {
      kv_assert(!g_up && !g_down, "the connection is reported as up once, before it is reported as down");
      g_up++;
    } else {
      kv_assert(c->IsDisconnected(), "the state is 'disconnected' when the connection is reported as down");
      kv_assert(g_up && !g_down, "the connection is reported as down once, after it was reported as up");
      g_down++;
    }
  };
  c->close_callback_ = [](Conn const &) {
    kv_assert(g_down, "the owner is told to drop the connection after the user was told");
    kv_assert(!g_closecb, "the owner is told once to drop the connection");
    g_closecb++;
  };
  return c;
}
static void stream()
{
  kv_Sn = kv_size("S_len");
  kv_S = (char *)kv_bytes("S", kv_Sn);
  kv_acc = kv_fit(kv_size("acc"), kv_Sn);
  kv_sent = kv_fit(kv_size("sent"), kv_acc);
  kv_assume(kv_sent <= kv_acc && kv_acc <= kv_Sn);
}
static size_t more(char const *name)
{
  size_t n = kv_fit(kv_size(name), kv_Sn - kv_acc);
  kv_assume(n <= kv_Sn - kv_acc);
  kv_acc += n;
  return n;
}
// an arbitrary state of an established connection on which `acc` bytes were handed to Send so far
static Conn state(TcpConnection::State s, bool wc, bool hw)
{
  g_et = kv_bool("et");
  Conn c = make();
  stream();
  g_up = 1;
  c->state_ = s;
  c->output_buffer_.base = kv_sent;
  c->output_buffer_.len = kv_acc - kv_sent;
  c->channel_->events_ = kv_bool("reading") ? Event::ReadEvent : 0;
  // queued bytes keep the write interest registered
  if (c->output_buffer_.len || kv_bool("writing")) c->channel_->events_ |= Event::WriteEvent;
  if (wc) {
    g_wcret = kv_bool("wc_result");
    c->SetWriteCompleteCallback([](Conn const &) { g_wc++; return g_wcret; });
  }
  size_t mark = kv_size("hwm");
  kv_assume(mark > 0);
  if (hw) c->SetHighWaterMarkCallback([](Conn const &, size_t n) { g_hw++; g_hwsize = n; }, mark);
  return c;
}
static void inv(Conn const &c)
{
  if (kv_broken) return;
  kv_assert(c->output_buffer_.len == kv_acc - kv_sent, "every accepted byte was written or is queued");
  kv_assert(!c->output_buffer_.len || c->output_buffer_.base == kv_sent, "the queue starts at the first unwritten byte");
  kv_assert(!c->output_buffer_.len || c->channel_->IsWriting(), "queued bytes keep the write interest registered");
}
static void run()   // phase 3 of the loop
{
  CurrentThread::t_tid = 100;
  if (g_qn > 0) { g_q[0](); g_q[0] = nullptr; }
  if (g_qn > 1) { g_q[1](); g_q[1] = nullptr; }
  if (g_qn > 2) { g_q[2](); g_q[2] = nullptr; }
  if (g_qn > 3) { g_q[3](); g_q[3] = nullptr; }
}
static Conn *keep(Conn const &c) { return new Conn(c); }

// ---- C12
static void after_send(Conn const &c, size_t before, size_t n, bool wc, bool hw)
{
  inv(c);
  size_t left = c->output_buffer_.len;
  size_t mark = c->high_water_mark_;
  run();
  inv(c);
  if (kv_broken) return;
  if (wc && n) kv_assert(g_wc == (before == 0 && left == 0), "the write-complete callback runs exactly when a direct write took everything");
  if (hw && n) {
    bool rise = before < mark && left >= mark && left != 0;
    kv_assert(g_hw == rise, "the high-water-mark callback runs exactly when the queued bytes rise to the mark");
    kv_assert(!g_hw || g_hwsize == left, "the high-water-mark callback is given the number of queued bytes");
  }
  if (!wc && !g_et && left == 0 && n) kv_assert(!c->channel_->IsWriting(), "the write interest is withdrawn when everything is written");
}
HARNESS(send_bytes)
{
  bool wc = kv_bool("wc"), hw = kv_bool("hw");
  Conn c = state(TcpConnection::kConnected, wc, hw);
  keep(c);
  size_t before = c->output_buffer_.len;
  char *p = kv_S + kv_acc;
  size_t n = more("n");
  c->Send(p, n);
  kv_cover("sent");
  after_send(c, before, n, wc, hw);
}
HARNESS(send_view)
{
  Conn c = state(TcpConnection::kConnected, false, false);
  keep(c);
  char *p = kv_S + kv_acc;
  size_t n = more("n");
  c->Send(StringView(p, n));
  inv(c);
  kv_cover("sent");
}
HARNESS(send_buffer)
{
  bool wc = kv_bool("wc"), hw = kv_bool("hw");
  Conn c = state(TcpConnection::kConnected, wc, hw);
  keep(c);
  size_t before = c->output_buffer_.len;
  Buffer *b = new Buffer;
  char *p = kv_S + kv_acc;
  size_t n = more("n");
  kv_assume(n > 0);
  b->Append(p, n);
  c->Send(*b);
  kv_cover("sent");
  after_send(c, before, n, wc, hw);
}
HARNESS(send_list)
{
  bool wc = kv_bool("wc"), hw = kv_bool("hw");
  Conn c = state(TcpConnection::kConnected, wc, hw);
  keep(c);
  size_t before = c->output_buffer_.len;
  ChunkList *l = new ChunkList;
  l->base = kv_acc;
  l->len = more("n");
  kv_assume(l->len > 0);
  size_t n = l->len;
  c->Send(*l);
  kv_cover("sent");
  after_send(c, before, n, wc, hw);
}
// from another thread: nothing happens there; the loop thread sends a private copy
HARNESS(send_bytes_elsewhere)
{
  Conn c = state(TcpConnection::kConnected, false, false);
  keep(c);
  char *p = kv_S + kv_acc;
  size_t n = more("n");
  kv_assume(n < (1u << 30));
  char *q = (char *)::operator new(n + 1);
  memcpy(q, p, n);
  CurrentThread::t_tid = 200;
  unsigned u = g_update;
  c->Send(q, n);
  ::operator delete(q);     // the caller may release its bytes as soon as Send returns
  kv_assert(g_wrote == 0 && g_update == u && g_qn == 1, "Send from another thread only queues the message");
  if (kv_bool("then_shutdown")) {
    c->ShutdownWrite();
    kv_assert(!g_fin, "ShutdownWrite from another thread does not touch the socket");
    run();
    inv(c);
    if (!kv_broken) kv_assert((g_fin > 0) == (c->output_buffer_.len == 0), "the write side is shut down at once exactly when nothing is queued");
    kv_cover("shut");
  } else {
    run();
    inv(c);
    kv_cover("sent");
  }
}
HARNESS(send_buffer_elsewhere)
{
  Conn c = state(TcpConnection::kConnected, false, false);
  keep(c);
  char *p = kv_S + kv_acc;
  size_t n = more("n");
  kv_assume(n > 0 && n < (1u << 30));
  Buffer *b = new Buffer;
  b->Append(p, n);
  CurrentThread::t_tid = 200;
  unsigned u = g_update;
  c->Send(*b);
  delete b;
  kv_assert(g_wrote == 0 && g_update == u && g_qn == 1, "Send from another thread only queues the message");
  if (kv_bool("then_shutdown")) c->ShutdownWrite();
  run();
  inv(c);
  kv_cover("sent");
}
HARNESS(send_when_down)
{
  Conn c = state(kv_bool("a") ? TcpConnection::kDisconnected : kv_bool("b") ? TcpConnection::kDisconnecting : TcpConnection::kConnecting, false, false);
  keep(c);
  kv_assume(kv_acc == kv_sent);
  bool w = c->channel_->IsWriting();
  size_t n = kv_size("n");
  kv_assume(n <= kv_Sn - kv_acc);
  if (kv_bool("thread")) CurrentThread::t_tid = 200;
  int kind = kv_u8("kind");
  Buffer *b = new Buffer;
  ChunkList *l = new ChunkList;
  if (kind == 0) c->Send(kv_S + kv_acc, n);
  else if (kind == 1) { b->Append(kv_S + kv_acc, n); c->Send(*b); }
  else { l->base = kv_acc; l->len = n; c->Send(*l); }
  run();
  kv_assert(g_wrote == 0 && c->output_buffer_.len == 0 && c->channel_->IsWriting() == w && g_update == 0, "a connection that is not established takes no message");
  kv_cover("refused");
}
// a queued message that runs after the connection went down is dropped and re-registers nothing
HARNESS(send_late)
{
  Conn c = state(TcpConnection::kConnected, false, false);
  keep(c);
  kv_assume(kv_acc == kv_sent);
  size_t n = kv_size("n");
  kv_assume(n <= kv_Sn - kv_acc && n < (1u << 30));
  CurrentThread::t_tid = 200;
  int kind = kv_u8("kind");
  Buffer *b = new Buffer;
  ChunkList *l = new ChunkList;
  if (kind == 0) c->Send(kv_S + kv_acc, n);
  else if (kind == 1) { b->Append(kv_S + kv_acc, n); c->Send(*b); }
  else { l->base = kv_acc; l->len = n; c->Send(*l); }
  CurrentThread::t_tid = 100;
  c->HandleClose();
  unsigned u = g_update;
  run();
  kv_assert(g_wrote == 0 && !c->channel_->IsWriting() && g_update == u, "a message queued before the connection went down is dropped");
  kv_cover("late");
}
HARNESS(writable)
{
  bool wc = kv_bool("wc");
  Conn c = state(kv_bool("closing") ? TcpConnection::kDisconnecting : TcpConnection::kConnected, wc, false);
  keep(c);
  kv_assume(c->channel_->IsWriting());
  kv_assume(c->output_buffer_.len > 0);
  size_t before = c->output_buffer_.len;
  bool closing = c->state_ == TcpConnection::kDisconnecting;
  kv_total(true);
  kv_template0([](void *x) { return (*(Conn *)x)->output_buffer_.len == kv_acc - kv_sent; }, &c);
  kv_template0([](void *x) { return (*(Conn *)x)->output_buffer_.base == kv_sent; }, &c);
  c->HandleWrite();
  kv_total(false);
  inv(c);
  size_t left = c->output_buffer_.len;
  if (!kv_broken) {
    kv_assert(left < before || kv_sent + left == kv_acc, "progress is recorded");
    kv_assert((g_fin > 0) == (closing && left == 0), "the write side is shut down as soon as the last queued byte is written");
  }
  run();
  inv(c);
  if (kv_broken) return;
  kv_assert(g_wc == (wc && left == 0), "the write-complete callback runs exactly when the queue was drained");
  if (left == 0 && !g_et && (!wc || g_wcret)) kv_assert(!c->channel_->IsWriting(), "the write interest is withdrawn when everything is written");
  kv_cover("writable");
}
// the completion callback may send again
HARNESS(complete_sends_again)
{
  Conn c = state(TcpConnection::kConnected, true, false);
  keep(c);
  static size_t n;
  static char *p;
  static Conn *cc = keep(c);
  p = kv_S + kv_acc;
  n = kv_size("n");
  kv_assume(n <= kv_Sn - kv_acc && n > 0);
  c->SetWriteCompleteCallback([](Conn const &c) { kv_acc += n; c->Send(p, n); return g_wcret; });
  c->CallWriteCompleteCallback();
  inv(c);
  kv_cover("again");
}
// a write event dispatched after the read callback of the same batch wrote everything itself
HARNESS(writable_withdrawn)
{
  Conn c = state(TcpConnection::kConnected, false, false);
  keep(c);
  kv_assume(kv_acc == kv_sent && !c->channel_->IsWriting());
  c->HandleWrite();
  kv_assert(g_wrote == 0, "nothing is written");
  inv(c);
  kv_cover("withdrawn");
}
// ---- C13
HARNESS(established)
{
  Conn c = make();
  keep(c);
  c->ConnectionEstablished();
  kv_assert(c->IsConnected() && g_up == 1 && !g_down, "an established connection is reported as up");
  kv_assert(c->channel_->IsReading() && g_update > 0, "an established connection reads");
  kv_cover("up");
}
static int g_act;
static void act(Conn const &c)
{
  if (g_act == 1) c->ForceClose();
  else if (g_act == 2) c->ShutdownWrite();
}
HARNESS(readable)
{
  Conn c = state(kv_bool("closing") ? TcpConnection::kDisconnecting : TcpConnection::kConnected, false, false);
  keep(c);
  g_act = kv_u8("act");
  bool user = kv_bool("user");
  if (user) c->SetMessageCallback([](Conn const &c, Buffer &, TimeStamp) {
    kv_assert(g_up && !g_down, "messages are delivered between up and down");
    kv_assert(g_inlen > 0, "a message delivers bytes");

    act(c);
  });
  kv_template0([](void *x) { return !g_down; }, &c);
  kv_template0([](void *x) { return !g_closecb; }, &c);
  kv_template0([](void *x) { return (*(Conn *)x)->state_ == TcpConnection::kConnected || (*(Conn *)x)->state_ == TcpConnection::kDisconnecting; }, &c);
  kv_template0([](void *x) { return !(*(Conn *)x)->output_buffer_.len || (*(Conn *)x)->channel_->IsWriting(); }, &c);
  kv_template0([](void *x) { return !g_fin || !(*(Conn *)x)->output_buffer_.len; }, &c);
  g_eof = false;
  c->HandleRead(TimeStamp(0));
  kv_assert(!g_eof || (g_down == 1 && g_closecb == 1), "the end of the peer's stream closes the connection");
  kv_assert((c->state_ == TcpConnection::kDisconnected) == (g_down == 1), "down exactly when disconnected");
  kv_assert(!g_down || g_eof || (user && g_act == 1), "the connection is closed for a reason");
  if (g_down) kv_assert(c->channel_->IsNoneEvent(), "a connection that is down waits for no event");
  kv_assert(!g_removed, "the channel is not removed while its events are handled");
  kv_cover("read");
}
HARNESS(read_after_down)
{
  Conn c = state(TcpConnection::kDisconnected, false, false);
  keep(c);
  g_down = 1; g_closecb = 1;
  c->channel_->events_ = 0;
  c->SetMessageCallback([](Conn const &, Buffer &, TimeStamp) { kv_assert(false, "messages are delivered between up and down"); });
  c->HandleRead(TimeStamp(0));
  c->HandleClose();
  c->HandleWrite();
  c->ForceClose();
  c->ShutdownWrite();
  run();
  kv_assert(g_wrote == 0 && !g_fin && c->channel_->IsNoneEvent() && c->state_ == TcpConnection::kDisconnected, "a connection that is down stays down");
  kv_cover("down");
}
// one batch of events of any kind
HARNESS(events)
{
  Conn c = state(kv_bool("closing") ? TcpConnection::kDisconnecting : TcpConnection::kConnected, false, false);
  keep(c);
  g_et = false;
  if (kv_bool("nomsg")) c->SetMessageCallback([](Conn const &c, Buffer &, TimeStamp) { kv_assert(g_up && !g_down, "messages are delivered between up and down"); });
  int rev = kv_u16("revents");
  c->channel_->SetRevents(rev);
  kv_assume(!(rev & POLLOUT) || c->channel_->IsWriting());
  c->channel_->HandleEvents(TimeStamp(0));
  kv_assert((c->state_ == TcpConnection::kDisconnected) == (g_down == 1) && g_closecb == g_down, "down exactly when disconnected");
  if ((rev & POLLHUP) && !(rev & POLLIN)) kv_assert(g_down == 1, "a hang-up without data closes the connection");
  if (!g_down) inv(c);
  kv_assert(!g_removed, "the channel is not removed while its events are handled");
  kv_cover("batch");
}
HARNESS(force_close)
{
  Conn c = state(kv_bool("closing") ? TcpConnection::kDisconnecting : TcpConnection::kConnected, false, false);
  keep(c);
  bool elsewhere = kv_bool("elsewhere");
  if (elsewhere) CurrentThread::t_tid = 200;
  c->ForceClose();
  if (elsewhere) {
    kv_assert(!g_down && g_update == 0, "ForceClose from another thread only queues the work");
    CurrentThread::t_tid = 100;
    if (kv_bool("peer_first")) c->HandleClose();
    run();
  }
  kv_assert(g_down == 1 && g_closecb == 1 && c->IsDisconnected() && c->channel_->IsNoneEvent(), "ForceClose closes the connection");
  kv_cover("closed");
}
HARNESS(shutdown_write)
{
  Conn c = state(TcpConnection::kConnected, false, false);
  keep(c);
  bool elsewhere = kv_bool("elsewhere");
  if (elsewhere) CurrentThread::t_tid = 200;
  c->ShutdownWrite();
  kv_assert(c->IsDisconnecting() && !c->IsConnected(), "no message is accepted after ShutdownWrite");
  if (elsewhere) { kv_assert(!g_fin, "ShutdownWrite from another thread only queues the work"); run(); }
  kv_assert((g_fin > 0) == (c->output_buffer_.len == 0), "the write side is shut down at once exactly when nothing is queued");
  kv_assert(!g_down, "the read side stays open");
  inv(c);
  kv_cover("shut");
}
// the queued functors keep the connection alive
HARNESS(lifetime)
{
  Conn c = state(TcpConnection::kConnected, false, false);
  kv_assume(kv_acc == kv_sent);
  CurrentThread::t_tid = 200;
  int kind = kv_u8("kind");
  if (kind == 0) c->ShutdownWrite();
  else if (kind == 1) c->ForceClose();
  else if (kind == 2) c->Send(kv_S, 0);
  else { Buffer b; c->Send(b); }
  kv_assert(g_qn == 1, "work for the loop thread is queued");
  CurrentThread::t_tid = 100;
  if (kv_bool("destroyed_before")) c->ConnectionDestroyed();
  else { c->channel_->DisableAll(); c->state_ = TcpConnection::kDisconnected; g_down = 1; }
  c.reset();
  run();
  kv_assert(g_close == 1, "the descriptor is closed exactly once, when the last reference is dropped");
  kv_cover("released");
}
HARNESS(destroyed)
{
  Conn c = state(kv_bool("a") ? TcpConnection::kDisconnected : kv_bool("b") ? TcpConnection::kDisconnecting : TcpConnection::kConnected, false, false);
  if (c->IsDisconnected()) { g_down = 1; c->channel_->events_ = 0; }
  c->ConnectionDestroyed();
  kv_assert(g_down == 1 && c->IsDisconnected(), "a destroyed connection was reported as down");
  kv_assert(g_removed == 1, "a destroyed connection leaves the poller");
  kv_assert(!g_close, "the descriptor stays open while the connection is referenced");
  c.reset();
  kv_assert(g_close == 1, "the descriptor is closed exactly once, when the last reference is dropped");
  kv_cover("destroyed");
}
HARNESS(read_interest)
{
  Conn c = state(TcpConnection::kConnected, false, false);
  keep(c);
  bool w = c->channel_->IsWriting(), on = kv_bool("on");
  if (on) c->EnableRead(); else c->DisbaleRead();
  kv_assert(c->channel_->IsReading() == on && c->channel_->IsWriting() == w, "EnableRead/DisbaleRead change exactly the read interest");
  kv_cover("interest");
}
