// C21: the rolling log file.  Real LogFile and AppendFile against the contracts of the stdio
// functions, the clock, the thread and the pthread functions.
#include "kv.h"
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "kanon/thread/thread.h"
namespace kanon { namespace CurrentThread { KANON_TLS int t_tid; KANON_TLS char t_tidString[32]; KANON_TLS int t_tidLength; KANON_TLS char const *t_name; } }

// ---- the names of the files: file i is called <prefix/>b.<i>.P.H.log; i is written as 5 letters
static char const *g_pre;                // the part before base
static uint32_t g_stamp;                 // what the next time stamp says
static void put_index(char *s, uint32_t i) { for (int k = 0; k < 5; k++) s[k] = 'A' + ((i >> (6 * k)) & 63); }
static uint64_t g_prelen;
static uint32_t index_of(char const *s)
{
  char const *p = s + g_prelen + 2;      // after base and '.'
  uint32_t v = 0;
  for (int k = 0; k < 5; k++) v |= (uint32_t)(uint8_t)(p[k] - 'A') << (6 * k);
  return v;
}
static bool named(char const *s)
{
  bool r = true;
  for (uint64_t k = 0; k < g_prelen; k++) r &= s[k] == g_pre[k];
  s += g_prelen;
  return r & (s[0] == 'b') & (s[1] == '.') & (s[7] == '.') & (s[8] == 'P') & (s[9] == '.') & (s[10] == 'H') & (s[11] == '.') & (s[12] == 'l') & (s[13] == 'o') & (s[14] == 'g') & (s[15] == 0);
}
static void make_name(char *s, uint32_t i)
{
  for (uint64_t k = 0; k < g_prelen; k++) s[k] = g_pre[k];
  s += g_prelen;
  s[0] = 'b'; s[1] = '.';
  put_index(s + 2, i);
  s[7] = '.'; s[8] = 'P'; s[9] = '.'; s[10] = 'H'; s[11] = '.'; s[12] = 'l'; s[13] = 'o'; s[14] = 'g'; s[15] = 0;
}
// ---- library contract: a list of file names that follow each other, the files [lo,hi)
static KvRaw<std::string> *g_str[4];     // names handed out
static bool g_held, g_monitor;
static void kv_access(void const *);
static std::string &name_of(uint64_t i, int k)
{
  char b[32];
  make_name(b, (uint32_t)i);
  return *new (g_str[k]) std::string(b);
}
template <> class std::vector<std::string> {
 public:
  uint64_t lo, hi;
  struct iterator {
    typedef std::string value_type; typedef std::string &reference; typedef std::string *pointer; typedef long difference_type; typedef std::random_access_iterator_tag iterator_category;
    uint64_t i;
    std::string &operator*() const { return name_of(i, 0); }
    std::string *operator->() const { return &name_of(i, 0); }
    iterator &operator++() { i++; return *this; }
    bool operator!=(iterator o) const { return i != o.i; }
    bool operator==(iterator o) const { return i == o.i; }
    iterator operator+(size_t n) const { return {i + n}; }
    iterator operator-(size_t n) const { return {i - n}; }
    uint64_t operator-(iterator o) const { return i - o.i; }
  };
  typedef iterator const_iterator;
  typedef std::string value_type;
  vector() : lo(0), hi(0) {}
  ~vector() {}
  vector(vector &&o) : lo(0), hi(0) { swap(o); }
  vector &operator=(vector &&o) { kv_access(this); kv_access(&o); lo = o.lo; hi = o.hi; o.lo = o.hi = 0; return *this; }
  bool empty() const { kv_access(this); return lo == hi; }
  size_t size() const { kv_access(this); return hi - lo; }
  void clear() { kv_access(this); lo = hi = 0; }
  void reserve(size_t) {}
  void swap(vector &o) { kv_access(this); kv_access(&o); uint64_t a = lo, b = hi; lo = o.lo; hi = o.hi; o.lo = a; o.hi = b; }
  void emplace_back(std::string const &s)
  {
    kv_access(this);
    kv_assert(named(s.c_str()), "the list holds the names of log files");
    uint64_t i = index_of(s.c_str());
    if (lo == hi) lo = hi = i;
    kv_assert(i == hi, "the files are listed in the order they were created");
    hi++;
  }
  void push_back(std::string const &s) { emplace_back(s); }
  std::string &back() { kv_access(this); kv_assert(lo < hi, "the last of some files"); return name_of(hi - 1, 1); }
  std::string &front() { kv_access(this); kv_assert(lo < hi, "the first of some files"); return name_of(lo, 2); }
  std::string &operator[](size_t i) { kv_access(this); kv_assert(i < hi - lo, "an existing file"); return name_of(lo + i, 3); }
  void pop_back() { kv_access(this); kv_assert(lo < hi, "the last of some files"); hi--; }
  iterator begin() { kv_access(this); return {lo}; }
  iterator end() { kv_access(this); return {hi}; }
  iterator erase(iterator a, iterator b)
  {
    kv_access(this);
    kv_assert((a.i == lo) & (lo <= b.i) & (b.i <= hi), "the first files are taken from the list");
    lo = b.i;
    return {lo};
  }
  iterator erase(iterator a) { return erase(a, a + 1); }
  template <class I> void insert(iterator at, I a, I b)
  {
    kv_access(this);
    kv_assert(at.i == hi, "files are added at the end");
    auto x = kv_base(a), y = kv_base(b);
    if (x.i == y.i) return;
    if (lo == hi) lo = hi = x.i;
    kv_assert(x.i == hi, "the files are listed in the order they were created");
    hi = y.i;
  }
  static iterator kv_base(iterator i) { return i; }
  static iterator kv_base(std::move_iterator<iterator> i) { return i.base(); }
};

// ---- contract of the stdio functions: the files 0, 1, ... ; at most two are open
static uint64_t g_next;                  // files created so far
static FILE *g_fp;                       // the open file
static uint64_t g_cur;                   // its number
static FILE *g_tok[2];
static int g_opens, g_closes, g_flushes, g_setvbufs, g_mkdirs, g_writes;
static bool g_mkfail, g_hasdir;
static char const *g_data; static uint64_t g_len, g_done;    // what is appended
static bool g_full;                      // the device takes no more bytes
static int g_open_order;
static time_t g_now, g_named = -1, g_first;
static uint64_t g_calls;
static void stamp(time_t t) { g_stamp = t == g_named ? g_cur : g_next; g_named = t; }
static bool g_ioerr;
extern "C" {
FILE *kv_fopen(char const *n, char const *mode)
{
  kv_assert(mode[0] == 'a' && !mode[1], "a log file is appended to");
  kv_assert(named(n), "the name of a log file: directory, base name, time, process, host");
  kv_assert(index_of(n) == g_stamp, "the name tells the time");
  kv_assert(g_stamp == g_next, "a new file has a new name");
  if (!g_hasdir) { errno = ENOENT; return nullptr; }
  g_opens++;
  g_cur = g_stamp;
  g_next = g_stamp + 1;
  g_fp = g_tok[g_opens & 1];
  return g_fp;
}
int kv_fclose(FILE *f)
{
  kv_assert(f == g_tok[(g_opens - 1) & 1] || (f == g_fp && g_closes == g_opens - 1), "an open file is closed");
  g_closes++;
  kv_assert(g_closes <= g_opens, "a file is closed once");
  return 0;
}
int kv_setvbuf(FILE *f, char *b, int mode, size_t n) noexcept
{
  kv_assert(f == g_fp && mode == _IOFBF, "the new file is buffered");
  if (b) kv_valid(b, n);
  g_setvbufs++;
  return 0;
}
int kv_fflush(FILE *f) { if (f == stderr) return 0; kv_assert(f == g_fp && g_opens == g_closes + 1 || g_closes == g_opens - 2, "an open file is flushed"); g_flushes++; return 0; }
int kv_fflush_unlocked(FILE *f) { return kv_fflush(f); }
size_t kv_fwrite(void const *p, size_t sz, size_t n, FILE *f)
{
  kv_assert(f == g_fp, "bytes go to the current file");
  kv_assert(!g_full, "nothing is written after an error");
  kv_assert(sz == 1 || n == 1, "bytes are counted");
  uint64_t want = sz * n;
  kv_assert(want <= g_len - g_done, "only the appended bytes are written");
  if (want) kv_assert((char const *)p == g_data + g_done, "the appended bytes are written in order");
  if (g_ioerr) { uint64_t k = kv_u64("accepted"); kv_assume(k < want); g_done += k; g_full = true; return k; }
  g_done += want;
  return n;
}
size_t kv_fwrite_unlocked(void const *p, size_t sz, size_t n, FILE *f) { return kv_fwrite(p, sz, n, f); }
int kv_ferror(FILE *) noexcept { return g_full; }
int kv_fprintf(FILE *, char const *, ...) { return 0; }
int kv_mkdir(char const *d, mode_t m) noexcept
{
  g_mkdirs++;
  kv_assert(!g_hasdir, "only a missing directory is created");
  bool same = true;
  uint64_t k = 0;
  for (; k + 1 < g_prelen; k++) same &= d[k] == g_pre[k];
  kv_assert(same && d[k] == 0, "the directory of the log files is created");
  kv_assert((m & 0700) == 0700, "the owner can create files in the new directory");
  if (kv_bool("mkdir_fails")) { g_mkfail = true; return -1; }
  g_hasdir = true;
  return 0;
}
void kv_abort() { kv_assert(g_mkfail, "the process ends only when the directory cannot be created"); kv_pathend(); }
time_t kv_time(time_t *t) noexcept
{
  time_t n = (time_t)kv_u64("now");
  kv_assume((n >= g_now) & (n < 4000000000ll));
  if (!g_calls) g_first = n;
  g_calls |= 1;
  g_now = n;
  if (t) *t = n;
  return n;
}
void kv_tzset() noexcept {}
static struct tm g_tm;
struct tm *kv_localtime(time_t const *t) noexcept { stamp(*t); return &g_tm; }
struct tm *kv_localtime_r(time_t const *t, struct tm *o) noexcept { stamp(*t); *o = g_tm; return o; }
size_t kv_strftime(char *b, size_t n, char const *, struct tm const *) noexcept
{
  kv_assert(n > 7, "room for the time");
  b[0] = '.';
  put_index(b + 1, g_stamp);
  b[6] = '.';
  b[7] = 0;
  return 7;
}
static bool g_quitflag();
}
namespace std { using ::kv_fopen; using ::kv_fclose; using ::kv_setvbuf; using ::kv_fflush; using ::kv_fwrite; using ::kv_ferror; using ::kv_fprintf; using ::kv_time; using ::kv_localtime; using ::kv_strftime; }
// the calls of the code under contract go to the contracts
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <iostream>
#include <limits.h>
#include <unistd.h>
#include "kanon/log/logger.h"
#include "kanon/thread/condition.h"
#include "kanon/util/measure_time.h"
#include "kanon/process/process_info.h"
#define fopen(...) kv_fopen(__VA_ARGS__)
#define fclose(...) kv_fclose(__VA_ARGS__)
#define setvbuf(...) kv_setvbuf(__VA_ARGS__)
#define fflush(...) kv_fflush(__VA_ARGS__)
#define fflush_unlocked(...) kv_fflush_unlocked(__VA_ARGS__)
#define fwrite(...) kv_fwrite(__VA_ARGS__)
#define fwrite_unlocked(...) kv_fwrite_unlocked(__VA_ARGS__)
#define ferror(...) kv_ferror(__VA_ARGS__)
#define fprintf(...) kv_fprintf(__VA_ARGS__)
#define mkdir(...) kv_mkdir(__VA_ARGS__)
#define time(...) kv_time(__VA_ARGS__)
#define tzset(...) kv_tzset(__VA_ARGS__)
#define localtime(...) kv_localtime(__VA_ARGS__)
#define localtime_r(...) kv_localtime_r(__VA_ARGS__)
#define strftime(...) kv_strftime(__VA_ARGS__)
#define remove(...) kv_remove(__VA_ARGS__)
#define unlink(...) kv_unlink(__VA_ARGS__)
#include "kanon/log/log_file.h"
using namespace kanon;
static uint64_t g_removed;               // the files removed so far are the files < g_removed
static void (*g_env)();
static void (*g_leave)();
static int g_signals;
static pthread_mutex_t *g_mon;           // the lock between the writer and the remover
static bool g_locked;                    // the lock of the log file
extern "C" {
int kv_remove(char const *n) noexcept
{
  kv_assert(named(n), "only log files are removed");
  kv_assert(index_of(n) == g_removed, "old files are removed once, the oldest first");
  g_removed++;
  return 0;
}
int kv_unlink(char const *n) noexcept { return kv_remove(n); }
int pthread_mutex_init(pthread_mutex_t *, pthread_mutexattr_t const *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
  if (m != g_mon) { kv_assert(!g_locked, "the log file is not locked twice"); g_locked = true; return 0; }
  kv_assert(!g_held, "the mutex is not locked twice");
  if (g_env) g_env();
  g_held = true;
  g_signals = 0;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  if (m != g_mon) { kv_assert(g_locked, "unlock: a held mutex"); g_locked = false; return 0; }
  kv_assert(g_held, "unlock: a held mutex");
  if (g_leave) g_leave();
  g_held = false;
  return 0;
}
int pthread_cond_init(pthread_cond_t *, pthread_condattr_t const *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_signal(pthread_cond_t *) { g_signals |= 1; return 0; }
int pthread_cond_broadcast(pthread_cond_t *) { g_signals |= 1; return 0; }
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, timespec const *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
}
static int g_threads, g_joins;
static std::function<void()> *g_fn;
Thread::Thread(std::string const &) : is_started_(false), is_joined_(false), pthreadId_(0) {}
Thread::~Thread() { kv_assert(g_threads == g_joins, "a thread is joined before its object is gone"); }
void Thread::StartRun(std::function<void()> f) { kv_assert(!g_threads, "the thread is started once"); g_threads++; *g_fn = std::move(f); }
void Thread::StartRun() { kv_assert(false, "the thread has something to run"); }
static void gone();
void Thread::Join() { kv_assert(g_threads == 1 && !g_joins && !g_held, "a started thread is joined once, without the lock"); gone(); g_joins++; }
static Logger::OutputCallback *g_out;
static Logger::FlushCallback *g_fl;
void Logger::SetColor(bool) {}
void Logger::SetOutputCallback(OutputCallback o) { *g_out = std::move(o); }
void Logger::SetFlushCallback(FlushCallback o) { *g_fl = std::move(o); }
namespace kanon { namespace process { StringView PidString() KANON_NOEXCEPT { return "P"; } StringView Hostname() KANON_NOEXCEPT { return "H"; } } }
#define abort kv_abort
#include "kanon/log/append_file.cc"
#undef abort
#include "kanon/log/log_file.cc"

static std::vector<std::string> *g_list, *g_dup;     // the two lists of the log file that is used
static bool *g_quit;
static void kv_access(void const *v) { if (g_monitor && v == (void const *)g_dup) kv_assert(g_held, "the files to remove are accessed only with the lock held"); }
static bool g_ts;                        // the thread safe kind
static LogFile<true> *g_t;
static LogFile<false> *g_f;
static void set_prefix(int k) { g_pre = k == 0 ? "" : k == 1 ? "d/" : "d/e/"; g_prelen = k == 0 ? 0 : k == 1 ? 2 : 4; }
template <class L> static void remember(L *l) { g_list = &l->log_files_; g_dup = &l->log_files_dup_; g_quit = &l->quit_remove_thr_; g_mon = &l->remove_mtx_.GetMutex(); g_monitor = true; }
static uint64_t g_roll, g_num;
static time_t g_interval, g_flush;
static FILE *token() { return (FILE *)kv_bytes("file", 8); }
static void init()
{
  kv_unroll(48);
  CurrentThread::t_tid = 100;
  g_fn = new std::function<void()>;
  g_out = new Logger::OutputCallback;
  g_fl = new Logger::FlushCallback;
  for (int i = 0; i < 4; i++) { g_str[i] = new KvRaw<std::string>; new (g_str[i]) std::string; }
  g_tok[0] = token();
  g_tok[1] = token();
}
static StringView prefix(int k) { return k == 0 ? StringView("") : k == 1 ? StringView("d/") : k == 2 ? StringView("d") : k == 3 ? StringView("d/e") : StringView("d/e/"); }
template <class L> static L *make(bool remover, bool any = false)
{
  init();
  uint32_t k = 0;
  if (any) k = kv_u32("prefix");
  kv_assume(k < 5);
  set_prefix(k == 0 ? 0 : k < 3 ? 1 : 2);
  g_hasdir = kv_bool("hasdir") | (k == 0);
  g_roll = kv_u64("roll");
  g_num = remover ? kv_u64("num") : (uint64_t)UINT_MAX;
  if (remover) kv_assume((g_num >= 1) & (g_num < 1000000));
  g_interval = (time_t)kv_u64("interval");
  g_flush = (time_t)kv_u64("flush");
  kv_assume((g_interval > 0) & (g_interval < 4000000000ll) & (g_flush >= 0) & (g_flush < 4000000000ll));
  g_now = 1;
  auto raw = new KvRaw<L>;
  L *l = new (raw) L("b", g_roll, prefix(k), g_num, g_interval, g_flush);
  kv_assert(g_opens == 1 && !g_closes && l->file_ && l->file_->fp() == g_fp, "a new log file is open");
  kv_assert(g_setvbufs == 1 && l->file_->writtenBytes() == 0, "the new log file is empty and buffered");
  kv_assert(l->log_files_.hi == g_cur + 1 && l->log_files_.lo == g_cur, "the new log file is known by its name");
  kv_assert(g_threads == (remover ? 1 : 0) && (remover == (bool)*g_fn), "old files are removed by a thread");
  remember(l);
  return l;
}
HARNESS(lf_new)
{
  if (kv_bool("ts")) make<LogFile<true>>(kv_bool("remover"), true); else make<LogFile<false>>(kv_bool("remover"), true);
  kv_cover("made");
}
// ---- an arbitrary state in the middle of a life
static uint64_t g_lo, g_dlo, g_dhi;
static bool g_rq;
static void w_env()                      // the remover takes the files to remove
{
  if (kv_bool("taken")) g_dup->lo = g_dup->hi = 0;
  g_dlo = g_dup->lo; g_dhi = g_dup->hi;
}
static void w_leave()
{
  bool more = !((g_dup->lo == g_dlo) & (g_dup->hi == g_dhi)) & (g_dup->lo != g_dup->hi);
  if (more) kv_assert(g_signals == 1, "the remover is woken when there are files to remove");
  if ((g_dlo != g_dhi) & (g_dup->lo != g_dup->hi)) kv_assert((g_dup->lo == g_dlo) & (g_dup->hi >= g_dhi), "no file to remove is forgotten");
  kv_assert(!((g_dlo != g_dhi) & (g_dup->lo == g_dup->hi)), "no file to remove is forgotten");
}
extern "C" int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *m)
{
  kv_assert(m == g_mon && g_held, "waiting: the lock is held");
  kv_assert(!*g_quit, "the remover does not wait when it is told to end");
  kv_assert(g_dup->lo == g_dup->hi, "the remover waits only when there is nothing to remove");
  if (g_env) g_env();
  return 0;
}
template <class L> static void append()
{
  L *l = make<L>(kv_bool("remover"));
  // the state: files [g_lo, cur] are known, the last one is current; some are still to be removed
  g_removed = 0;
  uint64_t cur = kv_u64("cur");
  kv_assume((cur >= 2) & (cur < 1000000000u));
  g_lo = kv_u64("lo");
  kv_assume(g_lo <= cur);
  if (g_num == UINT_MAX) g_lo = cur;
  g_dhi = kv_bool("pending") ? g_lo : 0;
  g_dlo = kv_u64("dlo");
  kv_assume((g_dhi == 0) | (g_dlo < g_dhi));
  if (g_dhi == 0) g_dlo = 0;
  l->log_files_.lo = g_lo;
  l->log_files_.hi = cur + 1;
  g_dup->lo = g_dlo;
  g_dup->hi = g_dhi;
  g_cur = cur;
  g_next = cur + 1;
  g_calls = 0;
  time_t lr = g_named, lf = (time_t)kv_u64("last_flush"), sp;
  kv_assume((lf >= lr) & (lf <= 4000000000ll));
  if (lf > g_now) g_now = lf;
  kv_assume(g_now < 4000000000ll);
  sp = lr / g_interval;
  l->last_roll_ = lr;
  l->last_flush_ = lf;
  l->start_of_period_ = sp;
  uint64_t w = kv_u64("written");
  kv_assume(w < (1ull << 60));
  l->file_->writtenBytes_ = w;
  g_env = w_env;
  g_leave = w_leave;
  g_len = kv_size("len");
  kv_assume(g_len > 0 && g_len < (1ull << 40));
  g_data = (char const *)kv_bytes("data", g_len);
  g_ioerr = kv_bool("ioerr");
  g_writes = 0;
  int f0 = g_flushes;
  uint64_t how = kv_u32("how");
  kv_assume(how < 2);
  if (how == 1) {
    l->Flush();
    kv_assert(g_flushes == f0 + 1 && !g_held && !g_locked && g_done == 0, "Flush flushes the current file");
    kv_cover("flushed");
    return;
  }
  l->Append(g_data, g_len);
  kv_assert(!g_held && !g_locked, "no lock is left");
  kv_assert((g_done == g_len) | g_ioerr, "all appended bytes are written unless the device fails");
  bool rolled = g_opens == 2;
  kv_assert(g_opens == 1 || rolled, "at most one file is started");
  uint64_t total = w + g_done;
  if (!rolled) {
    if (g_ioerr) kv_assert(l->file_->writtenBytes() <= total, "the size of the file");
    else kv_assert(l->file_->writtenBytes() == total, "the size of the file");
    kv_assert((l->file_->writtenBytes() <= g_roll) | (g_now == lr), "a file beyond the limit is replaced (once per second)");
    kv_assert((g_now / g_interval <= sp) | (g_now == lr) | (l->file_->writtenBytes() > g_roll), "every period has its own file");
    kv_assert((g_now - lf <= g_flush) | (g_flushes == f0 + 1) | (g_now == lr) , "the file is flushed when it is time");
    kv_assert(!g_closes && l->file_->fp() == g_fp && g_cur == cur, "the file stays open");
    kv_cover("same");
  } else {
    kv_assert(((g_ioerr & (total > g_roll)) | (!g_ioerr & (total > g_roll))) | (g_first / g_interval > sp) | (g_named / g_interval > sp), "a file is replaced only when it is full or its period is over");
    kv_assert(g_closes == 1 && g_setvbufs == 2 && l->file_->fp() == g_fp && l->file_->writtenBytes() == 0, "the old file is closed, the new one is empty");
    kv_assert(g_cur > cur, "the new file has a new name");
    kv_cover("rolled");
  }
  // the lists
  kv_assert(g_list->hi == g_cur + 1 && g_list->lo <= g_cur, "the current file is known and is not to be removed");
  if (g_num != UINT_MAX) {
    kv_assert((g_list->hi - g_list->lo < g_num) | (g_num == 1) , "fewer files than the given number are kept");
    if (g_list->lo != g_lo) {
      kv_assert(g_list->lo == g_cur && g_dup->hi == g_list->lo, "the older files are handed to the remover");
      kv_cover("handed");
    }
  }
}
HARNESS(lf_append) { append<LogFile<false>>(); }
HARNESS(lf_append_ts) { append<LogFile<true>>(); }
// ---- the thread that removes old files
static uint64_t g_handed;                // the files handed over so far are the files < g_handed
static bool g_asked;
static void r_env()
{
  uint64_t more = kv_u64("more");
  kv_assume(more < 1000000 && g_handed < 1000000000u);
  if (g_asked) more = 0;
  if (more) { if (g_dup->lo == g_dup->hi) g_dup->lo = g_dup->hi = g_handed; g_dup->hi += more; g_handed += more; }
  if (kv_bool("quit")) { *g_quit = true; g_asked = true; }
}
static bool t_r0(void *) { return (g_dup->lo == g_dup->hi) & (g_removed == g_handed) & !g_held; }
static bool t_r1(void *) { return (g_dup->lo <= g_dup->hi) & ((g_dup->lo == g_dup->hi) ? (g_removed == g_handed) : ((g_removed == g_dup->lo) & (g_dup->hi == g_handed))) & (g_handed < 1073741824u) & g_held; }
static bool t_r2(void *) { return !g_held; }
static bool t_r3(void *) { return *g_quit == g_asked; }
static bool t_rem(void *, uint64_t i) { return g_removed == i; }
HARNESS(lf_remover)
{
  LogFile<false> *l = make<LogFile<false>>(true);
  g_removed = g_handed = kv_u64("first");
  kv_assume(g_handed < 1000000000u);
  g_env = r_env;
  kv_unroll(0);
  kv_template0(t_r0, nullptr);
  kv_template0(t_r1, nullptr);
  kv_template0(t_r2, nullptr);
  kv_template0(t_r3, nullptr);
  kv_template_at(t_rem, nullptr);
  (*g_fn)();
  kv_assert(g_asked && !g_held, "the remover ends only when it is told to");
  kv_assert(g_removed == g_handed, "every file handed to the remover was removed");
  kv_cover("ended");
}
static void gone()
{
  if (g_t) kv_assert(*g_quit && g_signals, "the remover is told to end and woken before it is joined");
}
HARNESS(lf_gone)
{
  bool remover = kv_bool("remover");
  g_t = make<LogFile<true>>(remover);
  LogFile<true> *l = g_t;
  g_monitor = false;
  l->~LogFile<true>();
  kv_assert(g_joins == (remover ? 1 : 0) && !g_held, "the remover is joined");
  kv_assert(g_closes == 1, "the current file is closed");
  kv_cover("gone");
}
HARNESS(lf_setup)
{
  LogFile<false> *l = make<LogFile<false>>(false);
  SetupLogFile(*l);
  kv_assert((bool)*g_out && (bool)*g_fl, "the logger writes to the file");
  g_roll = ~0ull;
  l->roll_size_ = g_roll;
  g_len = kv_size("len");
  kv_assume(g_len > 0 && g_len < (1ull << 40));
  g_data = (char const *)kv_bytes("data", g_len);
  (*g_out)(g_data, g_len);
  kv_assert(g_done == g_len, "what is logged is written to the file");
  int f = g_flushes;
  (*g_fl)();
  kv_assert(g_flushes == f + 1, "a flush of the logger flushes the file");
  kv_cover("setup");
}
