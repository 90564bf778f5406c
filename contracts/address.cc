// C20: addresses (kanon/net/inet_addr.cc, kanon/net/sock_api.cc)
#include "kv.h"
#include <arpa/inet.h>
#include <cctype>
#include <memory>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <sys/socket.h>
#include <vector>
#include "kv_printf.h"
#define snprintf kv_snprintf
#include "kanon/net/inet_addr.h"
#include "kanon/net/sock_api.h"
#include "kanon/string/string_view_util.h"
using namespace kanon;
extern "C" const in6_addr in6addr_any = IN6ADDR_ANY_INIT, in6addr_loopback = IN6ADDR_LOOPBACK_INIT;
// ---- contracts of libc
static unsigned g_pton, g_family;       // presentation texts converted
static char g_text[64];                 // the last of them (its first bytes), terminated?
static char const *g_want; static uint64_t g_wantn;   // the text that should be converted
static bool same(void *c, uint64_t j) { return ((char const *)c)[j] == g_want[j]; }
static unsigned char g_bytes[16];
extern "C" {
int inet_pton(int f, char const *s, void *d) KANON_NOEXCEPT
{
  kv_assert(f == AF_INET || f == AF_INET6, "the family of the text");
  kv_assert(g_pton == 0, "one text is converted");
  g_pton++;
  g_family = f;
  kv_valid(s, g_wantn + 1);
  kv_check_forall(same, (void *)s, 0, g_wantn, "the address text is converted as it was given");
  kv_assert(s[g_wantn] == 0, "the address text ends where the address ends");
  kv_valid(d, f == AF_INET ? 4 : 16);
  memcpy(d, g_bytes, f == AF_INET ? 4 : 16);
  return kv_bool("is an address") ? 1 : 0;
}
static char *g_shown; static uint64_t g_shownn;   // what inet_ntop writes
static bool nonzero(void *, uint64_t j) { return g_shown[j] != 0; }
char const *inet_ntop(int f, void const *s, char *d, socklen_t n) KANON_NOEXCEPT
{
  kv_assert(f == AF_INET || f == AF_INET6, "the family of the address");
  kv_assert(n >= (f == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN), "there is room for every address");
  kv_valid(d, n);
  kv_assert(!memcmp(s, g_bytes, f == AF_INET ? 4 : 16) && g_family == (unsigned)f, "the address that is shown is the right one");
  g_pton++;
  memcpy(d, g_shown, f == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN);
  return d;
}
int isalpha(int c) KANON_NOEXCEPT { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) KANON_NOEXCEPT { return c >= '0' && c <= '9'; }
int isalnum(int c) KANON_NOEXCEPT { return isalpha(c) || isdigit(c); }
char const *gai_strerror(int) KANON_NOEXCEPT { return ""; }
}
// ---- resolving: a list of up to three entries
static addrinfo g_ai[3]; static sockaddr_in6 g_sa[3]; static unsigned g_ain, g_freed, g_asked;
static char const *g_service; static uint64_t g_servicen;
static bool sames(void *c, uint64_t j) { return ((char const *)c)[j] == g_service[j]; }
static int g_flags;
extern "C" int getaddrinfo(char const *h, char const *s, addrinfo const *hint, addrinfo **out)
{
  kv_assert(g_asked == 0, "the name is looked up once");
  g_asked++;
  kv_valid(h, g_wantn + 1);
  kv_check_forall(same, (void *)h, 0, g_wantn, "the name is looked up as it was given");
  kv_assert(h[g_wantn] == 0, "the name ends where it ends");
  kv_valid(s, g_servicen + 1);
  kv_check_forall(sames, (void *)s, 0, g_servicen, "the service is looked up as it was given");
  kv_assert(s[g_servicen] == 0, "the service ends where it ends");
  kv_assert(hint->ai_family == AF_UNSPEC && hint->ai_socktype == SOCK_STREAM, "both kinds of addresses, for TCP");
  kv_assert(!hint->ai_addr && !hint->ai_next && !hint->ai_addrlen && !hint->ai_canonname, "nothing else is asked for");
  g_flags = hint->ai_flags;
  if (kv_bool("not found")) { g_ain = 0; return EAI_NONAME; }
  *out = g_ain ? &g_ai[0] : nullptr;
  return 0;
}
extern "C" void freeaddrinfo(addrinfo *a) KANON_NOEXCEPT { kv_assert(g_freed == 0 && a == &g_ai[0], "the result is freed once, whole"); g_freed++; }
// ---- contract of the conversion of the port (C08)
static char const *g_port; static uint64_t g_portn, g_ports; static bool g_isnum; static uint16_t g_num;
static optional<uint16_t> port_of(StringView v)
{
  kv_assert(v.size() == g_portn, "the text behind the colon is the port");
  kv_valid(v.data(), v.size());
  uint64_t k = kv_u64("k");
  if (k < g_portn) kv_assert(v.data()[k] == g_port[k], "the text behind the colon is the port");
  g_ports++;
  return g_isnum ? optional<uint16_t>(g_num) : optional<uint16_t>();
}
namespace kanon {
optional<uint32_t> StringViewToU32(StringView const &v, int base) KANON_NOEXCEPT
{
  kv_assert(base == 10, "the port is a decimal number");
  auto o = port_of(v);
  return o ? optional<uint32_t>((uint32_t)*o) : optional<uint32_t>();
}
}
#include "kanon/net/sock_api.cc"
#include "kanon/net/inet_addr.cc"

static void init()
{
  for (int i = 0; i < 16; i++) g_bytes[i] = kv_u8("byte");
  g_num = kv_u16("port");
  g_isnum = kv_bool("is a port");
}
static bool has_addr(InetAddr const &a, unsigned f)
{
  return a.GetFamily() == f && (f == AF_INET ? a.IsIpv4() && !memcmp(&a.addr_.sin_addr, g_bytes, 4)
                                             : !a.IsIpv4() && !memcmp(&a.addr6_.sin6_addr, g_bytes, 16) && a.addr6_.sin6_scope_id == 0 && a.addr6_.sin6_flowinfo == 0);
}
HARNESS(ad_port)
{
  uint16_t p = kv_u16("port");
  bool lo = kv_bool("loopback"), v6 = kv_bool("v6");
  KvRaw<InetAddr> r;
  memset(r.b, kv_u8("old"), sizeof r.b);
  InetAddr *a = new (&r) InetAddr(p, lo, v6);
  kv_assert(a->GetPort() == p, "the port is the one that was given");
  unsigned char const *b = (unsigned char const *)a->ToSockaddr();
  kv_assert(b[2] == (p >> 8) && b[3] == (p & 255), "the port is in network byte order");
  kv_assert(a->IsIpv4() == !v6 && a->GetFamily() == (v6 ? AF_INET6 : AF_INET), "the family is the one that was asked for");
  if (v6) {
    for (int i = 0; i < 16; i++) kv_assert(a->ToIpv6()->sin6_addr.s6_addr[i] == (lo && i == 15), "any or the loopback address");
    kv_assert(a->ToIpv6()->sin6_scope_id == 0 && a->ToIpv6()->sin6_flowinfo == 0, "no scope and no flow");
    kv_cover("v6");
  } else {
    kv_assert(b[4] == (lo ? 127 : 0) && b[5] == 0 && b[6] == 0 && b[7] == lo, "any or the loopback address");
    kv_cover("v4");
  }
}
static char const *g_t;
static bool nocolon(void *, uint64_t j) { return g_t[j] != ':'; }
static bool nodot(void *, uint64_t j) { return g_t[j] != '.'; }
static bool nobracket(void *, uint64_t j) { return g_t[j] != ']'; }
static uint64_t text(char const *name)
{
  uint64_t n = kv_fit(kv_size(name), 40);
  kv_assume(n < (1ull << 30));
  g_t = (char const *)kv_bytes(name, n);
  return n;
}
// native runs: random texts rarely have a shape; the character is put there
static void put(uint64_t i, char c) { if (kv_mode()) ((char *)g_t)[i] = c; }
static void scrub(char c, uint64_t lo, uint64_t hi) { if (kv_mode()) for (uint64_t i = lo; i < hi; i++) if (g_t[i] == c) ((char *)g_t)[i] = 'x'; }
HARNESS(ad_ip_port)
{
  init();
  uint64_t n = text("ip"), d = kv_u64("k_dot"), c = kv_u64("k_colon");
  bool v6 = kv_bool("v6");
  uint64_t m = v6 ? c : d;
  if (n) m = kv_fit(m, n - 1);
  kv_assume(m < n);
  put(m, v6 ? ':' : '.');
  kv_assume(g_t[m] == (v6 ? ':' : '.'));
  if (!v6) { scrub(':', 0, n); kv_forall(nocolon, nullptr, 0, n); }   // an IPv6 address may hold dots, an IPv4 address no colon
  g_want = g_t; g_wantn = n;
  KvRaw<InetAddr> r;
  memset(r.b, kv_u8("old"), sizeof r.b);
  InetAddr *a = new (&r) InetAddr(StringView(g_t, n), g_num);
  kv_assert(g_pton == 1 && g_family == (v6 ? AF_INET6 : AF_INET), "the text is taken for the kind of address it is");
  kv_assert(has_addr(*a, g_family) && a->GetPort() == g_num, "the address and the port are those that were given");
  kv_cover("made");
}
HARNESS(ad_ip_invalid)
{
  init();
  uint64_t n = text("ip");
  scrub(':', 0, n); scrub('.', 0, n);
  kv_forall(nocolon, nullptr, 0, n);
  kv_forall(nodot, nullptr, 0, n);
  g_want = g_t; g_wantn = n;
  bool thrown = false;
  try { InetAddr a(StringView(g_t, n), g_num); } catch (InetAddrException const &) { thrown = true; }
  kv_assert(thrown && g_pton == 0, "a text that is no address is reported");
  kv_cover("reported");
}
// n characters, the first colon at c
static void address4(bool star, bool any)
{
  init();
  uint64_t n = text("address"), c = kv_u64("k_colon"), d = kv_u64("k_dot");
  if (n > 4) c = 2 + (kv_mode() ? kv_fit(c, n - 4) : c);
  if (any) c = 1;
  kv_assume((n > 2) & (c < n));
  if (!any) kv_assume(c > (star ? 1 : 0));
  put(0, star ? '*' : '1'); put(c, ':'); scrub(':', 0, c);
  kv_assume(star ? g_t[0] == '*' : (g_t[0] >= '0') & (g_t[0] <= '9'));
  kv_assume(g_t[c] == ':');
  kv_forall(nocolon, nullptr, 0, c);
  if (!star) {
    if (kv_mode()) { d = kv_fit(d, n - 1); if (d != c && d) put(d, '.'); }
    kv_assume((d < n) & (d != c));
    kv_assume(g_t[d] == '.');
  }
  if (any) { g_want = "0.0.0.0"; g_wantn = 7; kv_cover("star"); }
  else { g_want = g_t; g_wantn = c; }
  g_port = g_t + c + 1; g_portn = n - c - 1;
  KvRaw<InetAddr> r;
  memset(r.b, kv_u8("old"), sizeof r.b);
  bool thrown = false;
  InetAddr *a = &r.r();
  try { new (&r) InetAddr(StringView(g_t, n)); } catch (InetAddrException const &) { thrown = true; }
  kv_assert(g_ports == 1 && thrown == !g_isnum, "an address without a port number is reported");
  if (!thrown) {
    kv_assert(g_pton == 1 && g_family == AF_INET, "it is an IPv4 address");
    kv_assert(has_addr(*a, AF_INET) && a->GetPort() == g_num, "the address and the port are those that were given");
    kv_cover("made");
  } else kv_assert(g_pton == 0, "nothing else is done");
}
HARNESS(ad_text4)
{
  address4(false, false);
}
HARNESS(ad_text_any)
{
  address4(true, true);
}
HARNESS(ad_text_star)
{
  address4(true, false);
}
HARNESS(ad_text6)
{
  init();
  uint64_t n = text("address"), c = kv_u64("k_bracket");
  bool ok = kv_bool("has a port");
  if (n > 1) c = 1 + (kv_mode() ? kv_fit(c, n - 2) : c);
  kv_assume((n > 1) & (c > 0) & (c < n));
  put(0, '['); put(c, ']'); scrub(']', 0, c);
  kv_assume((g_t[0] == '[') & (g_t[c] == ']'));
  kv_forall(nobracket, nullptr, 0, c);
  if (ok) { if (c + 1 < n) put(c + 1, ':'); kv_assume(c + 1 < n); kv_assume(g_t[c + 1] == ':'); g_port = g_t + c + 2; g_portn = n - c - 2; }
  else { if (c + 1 < n) kv_assume(g_t[c + 1] != ':'); g_portn = ~0ull; }
  g_want = g_t + 1; g_wantn = c - 1;
  KvRaw<InetAddr> r;
  memset(r.b, kv_u8("old"), sizeof r.b);
  bool thrown = false;
  InetAddr *a = &r.r();
  try { new (&r) InetAddr(StringView(g_t, n)); } catch (InetAddrException const &) { thrown = true; }
  kv_assert(thrown == !(ok & g_isnum), "an address without a port number is reported");
  if (!thrown) {
    kv_assert(g_pton == 1 && g_family == AF_INET6, "it is an IPv6 address");
    kv_assert(has_addr(*a, AF_INET6) && a->GetPort() == g_num, "the address and the port are those that were given");
    kv_cover("made");
  } else { kv_assert(g_pton == 0, "nothing else is done"); kv_cover("reported"); }
}
static void entries(unsigned most)
{
  g_ain = kv_u8("entries");
  if (kv_mode()) g_ain %= most + 1;
  kv_assume(g_ain <= most);
  for (int i = 0; i < 3; i++) {
    bool v6 = kv_bool("v6");
    memset(&g_sa[i], 0, sizeof g_sa[i]);
    g_sa[i].sin6_family = v6 ? AF_INET6 : AF_INET;
    g_sa[i].sin6_port = kv_u16("port");
    g_sa[i].sin6_addr.s6_addr[3] = kv_u8("byte");
    ((unsigned char *)&g_sa[i])[4] = kv_u8("byte");
    g_ai[i].ai_family = v6 ? AF_INET6 : AF_INET;
    g_ai[i].ai_addrlen = v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
    g_ai[i].ai_addr = (sockaddr *)&g_sa[i];
    g_ai[i].ai_next = i + 1 < (int)g_ain ? &g_ai[i + 1] : nullptr;
  }
}
static bool is_entry(InetAddr const &a, int i)
{
  return g_ai[i].ai_family == AF_INET ? !memcmp(&a.addr_, &g_sa[i], sizeof(sockaddr_in)) : !memcmp(&a.addr6_, &g_sa[i], sizeof(sockaddr_in6));
}
HARNESS(ad_resolve)
{
  entries(3);
  kv_unroll(4);
  bool server = kv_bool("server");
  g_want = "example.org"; g_wantn = 11; g_service = "http"; g_servicen = 4;
  std::vector<InetAddr> v = InetAddr::Resolve("example.org", "http", server);
  kv_assert(g_asked == 1 && ((g_flags & AI_PASSIVE) != 0) == server, "addresses to bind are asked for by servers only");
  kv_assert(v.size() == g_ain, "every address that was found is given");
  for (unsigned i = 0; i < 3; i++) if (i < g_ain) kv_assert(is_entry(v[i], i), "the addresses are given as they were found");
  if (g_ain) kv_assert(g_freed == 1, "the result is freed");
  kv_cover("resolved");
}
HARNESS(ad_host)
{
  entries(3);
  kv_unroll(4);
  g_want = "example.org"; g_wantn = 11; g_service = "http"; g_servicen = 4;
  KvRaw<InetAddr> r;
  bool thrown = false;
  try { new (&r) InetAddr("example.org", "http"); } catch (InetAddrException const &) { thrown = true; }
  kv_assert(g_asked == 1 && thrown == (g_ain == 0), "a name without an address is reported");
  if (!thrown) { kv_assert(is_entry(r.r(), 0) && !(g_flags & AI_PASSIVE), "the first address that was found is taken"); kv_cover("made"); }
}
HARNESS(ad_text_name)
{
  entries(1);
  kv_unroll_in("Resolve", 3);
  uint64_t n = text("address"), c = kv_u64("k_colon");
  if (n > 3) c = 1 + (kv_mode() ? kv_fit(c, n - 3) : c);
  kv_assume((n > 1) & (c > 0) & (c < n));
  put(0, 'h'); put(c, ':'); scrub(':', 0, c);
  kv_assume(((g_t[0] >= 'a') & (g_t[0] <= 'z')) | ((g_t[0] >= 'A') & (g_t[0] <= 'Z')));
  kv_assume(g_t[c] == ':');
  kv_forall(nocolon, nullptr, 0, c);
  g_want = g_t; g_wantn = c;
  g_service = g_t + c + 1; g_servicen = n - c - 1;
  KvRaw<InetAddr> r;
  bool thrown = false;
  InetAddr *a = &r.r();
  try { new (&r) InetAddr(StringView(g_t, n)); } catch (InetAddrException const &) { thrown = true; }
  kv_assert(g_asked == 1 && g_pton == 0, "the name is looked up");
  kv_assert(thrown == (g_ain == 0), "a name without an address is reported");
  if (!thrown) { kv_assert(is_entry(*a, 0) && !(g_flags & AI_PASSIVE), "the first address that was found is taken"); kv_cover("made"); }
}
HARNESS(ad_text_invalid)
{
  init();
  uint64_t n = text("address");
  bool first = kv_bool("wrong start");
  if (!first) { scrub(':', 0, n); scrub(']', 0, n); kv_forall(nocolon, nullptr, 0, n); kv_forall(nobracket, nullptr, 0, n); }
  else if (n) { put(0, '-'); char c = g_t[0]; kv_assume(!isalnum(c) && c != '*' && c != '['); }
  g_portn = ~0ull;
  bool thrown = false;
  try { InetAddr a(StringView(g_t, n)); } catch (InetAddrException const &) { thrown = true; }
  kv_assert(thrown && !g_pton && !g_asked, "a text that is no address is reported");
  kv_cover("reported");
}
HARNESS(ad_show)
{
  init();
  bool v6 = kv_bool("v6");
  uint64_t n = kv_fit(kv_u8("shown"), 45);
  kv_assume((n > 0) & (n < (v6 ? INET6_ADDRSTRLEN : INET_ADDRSTRLEN)));
  g_shown = (char *)kv_bytes("shown", 46);
  g_shownn = n;
  if (kv_mode()) for (int i = 0; i < 46; i++) if (!g_shown[i]) g_shown[i] = '1';
  kv_forall(nonzero, nullptr, 0, n);
  if (kv_mode()) g_shown[n] = 0;
  kv_assume(g_shown[n] == 0);
  InetAddr a(g_num, false, v6);
  if (v6) memcpy(&a.addr6_.sin6_addr, g_bytes, 16); else memcpy(&a.addr_.sin_addr, g_bytes, 4);
  g_family = v6 ? AF_INET6 : AF_INET;
  std::string ip = a.ToIp();
  uint64_t k = kv_u64("k_char");
  kv_assert(ip.size() == n, "the text of the address is given");
  if (k < n) kv_assert(ip[k] == g_shown[k], "the text of the address is given");
  kv_cover("ip");
}
HARNESS(ad_show_port)
{
  init();
  bool v6 = kv_bool("v6");
  uint64_t n = kv_fit(kv_u8("shown"), 45);
  kv_assume((n > 0) & (n < (v6 ? INET6_ADDRSTRLEN : INET_ADDRSTRLEN)));
  g_shown = (char *)kv_bytes("shown", 46);
  g_shownn = n;
  if (kv_mode()) for (int i = 0; i < 46; i++) if (!g_shown[i]) g_shown[i] = '1';
  kv_forall(nonzero, nullptr, 0, n);
  if (kv_mode()) g_shown[n] = 0;
  kv_assume(g_shown[n] == 0);
  InetAddr a(g_num, false, v6);
  if (v6) memcpy(&a.addr6_.sin6_addr, g_bytes, 16); else memcpy(&a.addr_.sin_addr, g_bytes, 4);
  g_family = v6 ? AF_INET6 : AF_INET;
  char buf[64];
  kv_unroll(6);
  sock::ToIpPort(buf, sizeof buf, a.ToSockaddr());
  uint64_t k = kv_u64("k_char");
  if (k < n) kv_assert(buf[k + v6] == g_shown[k], "the address is shown");
  if (v6) kv_assert(buf[0] == '[' && buf[n + 1] == ']', "an IPv6 address is shown in brackets");
  KvWant w(buf + n + 2 * v6, 64);
  w.ch(':');
  w.number(g_num);
  w.ch(0);
  kv_assert(w.ok, "the port follows a colon");
  kv_cover("shown");
}
// ---- self connections
static sockaddr_in6 g_local, g_peer; static bool g_lok, g_pok;
extern "C" int getsockname(int fd, sockaddr *a, socklen_t *n) KANON_NOEXCEPT
{
  kv_assert(fd == 5 && *n == sizeof(sockaddr_in6), "the name of the descriptor");
  if (!g_lok) return -1;
  memcpy(a, &g_local, g_local.sin6_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6));
  return 0;
}
extern "C" int getpeername(int fd, sockaddr *a, socklen_t *n) KANON_NOEXCEPT
{
  kv_assert(fd == 5 && *n == sizeof(sockaddr_in6), "the name of the descriptor");
  if (!g_pok) return -1;
  memcpy(a, &g_peer, g_peer.sin6_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6));
  return 0;
}
HARNESS(ad_self)
{
  bool v6 = kv_bool("v6");
  sockaddr_in6 *s[2] = {&g_local, &g_peer};
  for (int i = 0; i < 2; i++) {
    unsigned char *b = (unsigned char *)s[i];
    for (unsigned j = 0; j < sizeof(sockaddr_in6); j++) b[j] = kv_u8("byte");
    s[i]->sin6_family = v6 ? AF_INET6 : AF_INET;
  }
  if (kv_mode() == 1) {                  // native runs: the same name, or nearly the same
    uint64_t w = kv_fix(3);
    if (w) g_peer = g_local;
    if (w == 2) ((unsigned char *)&g_peer)[2 + kv_fix(v6 ? 22 : 6)] ^= 1;
  }
  g_lok = kv_bool("local known"); g_pok = kv_bool("peer known");
  bool self = sock::IsSelfConnect(5), eq = g_local.sin6_port == g_peer.sin6_port;
  for (int i = 0; i < 16; i++) eq &= v6 ? g_local.sin6_addr.s6_addr[i] == g_peer.sin6_addr.s6_addr[i]
                                      : i >= 4 || ((unsigned char *)&g_local)[4 + i] == ((unsigned char *)&g_peer)[4 + i];
  kv_assert(self == (g_lok & g_pok & eq), "a connection is a self connection exactly if both ends have the same address and port");
  sockaddr_in6 l = sock::GetLocalAddr(5), p = sock::GetPeerAddr(5);
  if (g_lok) kv_assert(!memcmp(&l, &g_local, v6 ? sizeof l : sizeof(sockaddr_in)), "the local address is the name of the socket");
  if (g_pok) kv_assert(!memcmp(&p, &g_peer, v6 ? sizeof p : sizeof(sockaddr_in)), "the peer address is the name of the peer");
  kv_cover("asked");
}
