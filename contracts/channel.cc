// C14: dispatch of returned events and registration of interest (kanon/linux/net/channel.cc, channel.h)
#include "kv.h"
#include <functional>
#include <string>
#include "kanon/net/event_loop.h"
#include "kanon/net/channel.h"
#include "kanon/net/poll/poller_base.h"
#include "kanon/net/timer/timer_queue.h"
using namespace kanon;

static int g_update, g_remove, g_seen;
static Channel *g_ch;
void EventLoop::UpdateChannel(Channel *ch) { kv_assert(ch == g_ch, "the loop is told about this channel"); g_update++; g_seen = ch->GetEvents(); }
void EventLoop::RemoveChannel(Channel *ch) { kv_assert(ch == g_ch, "the loop is told about this channel"); g_remove++; }
#include "kanon/linux/net/channel.cc"

static int g_close, g_error, g_read, g_write, g_order;
static int64_t g_time;

static Channel *make(bool rd, bool wr, bool cl, bool er)
{
  KvRaw<EventLoop> *el = new KvRaw<EventLoop>;
  int fd = (int)kv_u32("fd");
  Channel *ch = new Channel(&el->r(), fd);
  g_ch = ch;
  kv_assert(ch->GetFd() == fd && ch->GetEvents() == 0 && ch->GetIndex() == -1, "a new channel watches its descriptor for nothing");
  kv_assert(ch->IsNoneEvent() && !ch->IsReading() && !ch->IsWriting(), "a new channel watches its descriptor for nothing");
  // each handler runs at most once per round, in the order close, error, read, write
  if (cl) ch->SetCloseCallback([]() { kv_assert(g_order < 1, "close handler first, once"); g_order = 1; g_close++; });
  if (er) ch->SetErrorCallback([]() { kv_assert(g_order < 2, "error handler second, once"); g_order = 2; g_error++; });
  if (rd) ch->SetReadCallback([](TimeStamp t) { kv_assert(g_order < 3, "read handler third, once"); g_order = 3; g_time = t.GetMicrosecondsSinceEpoch(); g_read++; });
  if (wr) ch->SetWriteCallback([]() { kv_assert(g_order < 4, "write handler last, once"); g_order = 4; g_write++; });
  return ch;
}
static void dispatch(bool rd, bool wr, bool cl, bool er)
{
  Channel *ch = make(rd, wr, cl, er);
  uint32_t ev = kv_u32("revents");
  int64_t now = (int64_t)kv_u64("now");
  int interest = (int)kv_u32("interest");
  ch->SetEvents(interest);
  ch->SetRevents((int)ev);
  kv_assert((uint32_t)ch->GetRevents() == ev, "the returned events are kept as the poller gave them");
  ch->HandleEvents(TimeStamp(now));
  kv_cover("dispatched");
  bool hup = ev & 0x10, in = ev & 0x1;
  kv_assert(g_close == (cl && hup && !in), "the close handler runs exactly on a hang-up with nothing left to read");
  kv_assert(g_error == (er && (ev & (0x8 | 0x20))), "the error handler runs exactly on an error or an invalid descriptor");
  kv_assert(g_read == (rd && (ev & (0x1 | 0x2 | 0x2000))), "the read handler runs exactly when there is something to read (data, urgent data or the peer's end)");
  kv_assert(g_write == (wr && (ev & 0x4)), "the write handler runs exactly when the descriptor is writable");
  if (g_read) kv_assert(g_time == now, "the read handler is given the time of the poll");
  kv_assert(ch->GetEvents() == interest && g_update == 0 && g_remove == 0, "dispatching changes no interest");
  delete ch;   // the channel may be destroyed after its handlers returned
}
HARNESS(dispatch_all) { dispatch(true, true, true, true); }
HARNESS(dispatch_some) { bool r = kv_bool("rd"), w = kv_bool("wr"), c = kv_bool("cl"), e = kv_bool("er"); dispatch(r, w, c, e); }

HARNESS(interest)
{
  Channel *ch = make(true, true, true, true);
  uint32_t e = kv_u32("events");
  if (kv_mode() == 1 && ((e & ~7u) || (e & 3) == 1 || (e & 3) == 2)) e = (e & 4) | (e & 1 ? 3 : 0);
  kv_assume((e & ~7u) == 0);     // built from reading (IN|PRI) and writing (OUT)
  kv_assume((e & 3) == 0 || (e & 3) == 3);
  ch->SetEvents((int)e);
  kv_assert(ch->IsReading() == ((e & 3) != 0) && ch->IsWriting() == ((e & 4) != 0) && ch->IsNoneEvent() == (e == 0), "the interest can be queried");
  uint8_t op = kv_fit(kv_u8("op"), 4);
  kv_assume(op < 5);
  uint32_t want;
  switch (op) {
    case 0: ch->EnableReading(); want = e | 3; break;
    case 1: ch->EnableWriting(); want = e | 4; break;
    case 2: ch->DisableReading(); want = e & 4; break;
    case 3: ch->DisableWriting(); want = e & 3; break;
    default: ch->DisableAll(); want = 0; break;
  }
  kv_cover("changed");
  kv_assert((uint32_t)ch->GetEvents() == want, "exactly the requested interest changes");
  kv_assert(g_update == 1 && g_remove == 0, "the poller is told once");
  kv_assert((uint32_t)g_seen == want, "the poller is told after the change");
  kv_assert(ch->IsReading() == ((want & 3) != 0) && ch->IsWriting() == ((want & 4) != 0) && ch->IsNoneEvent() == (want == 0), "the interest can be queried");
  kv_assert(!g_read && !g_write && !g_close && !g_error, "no handler runs");
}
HARNESS(remove)
{
  Channel *ch = make(true, true, true, true);
  ch->Remove();
  kv_cover("removed");
  kv_assert(g_remove == 1 && g_update == 0, "the poller is told once");
  kv_assert(!g_read && !g_write && !g_close && !g_error, "no handler runs");
}
// a handler may change the interest and the other handlers of its own channel
static Channel *g_self;
HARNESS(handler_changes_interest)
{
  Channel *ch = make(false, true, true, true);
  g_self = ch;
  uint32_t ev = kv_u32("revents");
  ch->SetEvents(7);
  ch->SetRevents((int)ev);
  bool all = kv_bool("all");
  if (all) ch->SetReadCallback([](TimeStamp) { g_read++; g_self->DisableAll(); });
  else ch->SetReadCallback([](TimeStamp) { g_read++; g_self->DisableWriting(); });
  ch->HandleEvents(TimeStamp());
  kv_cover("dispatched");
  kv_assert(g_update == g_read, "the poller is told once");
  if (g_read) kv_assert(ch->GetEvents() == (all ? 0 : 3), "exactly the requested interest changes");
  kv_assert(g_write == ((ev & 4) != 0), "the write handler runs exactly when the descriptor is writable");
}
