// Native meaning of the contract language: replay of recorded inputs and bounded random runs.
#include "kv.h"
#include <map>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:exitcode=1:handle_abort=0"; }
static jmp_buf rej;
static bool replay;
static std::vector<std::string> *lines;
static size_t pos;
static std::string *logtxt;
static std::map<void *, size_t> *fams, *famcnt;
static std::vector<void *> *owned;
static char const *outpath;
static char const *why = "crash";
static uint64_t rs;
static int style;
static long live;
// deleting an element of a family is a ghost event of the contract
extern "C" void kv_delete_element(void *) __attribute__((weak));
static struct { char *b; size_t n; } ranges[64];
static int nranges;
void *operator new(size_t n) { return malloc(n ? n : 1); }
void *operator new[](size_t n) { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept
{
  for (int i = 0; i < nranges; ++i)
    if ((char *)p >= ranges[i].b && (char *)p < ranges[i].b + ranges[i].n) {
      if (kv_delete_element) { kv_delete_element(p); return; }
      break;
    }
  free(p);
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
static void on_malloc(const volatile void *, size_t) { ++live; }
static void on_free(const volatile void *p) { if (p) --live; }
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static void dump() {
  if (!outpath) return;
  FILE *f = fopen(outpath, "w");
  if (!f) return;
  fprintf(f, "# %s\n", why);
  fwrite(logtxt->data(), 1, logtxt->size(), f);
  fclose(f);
}
static void die(char const *m) {
  why = m;
  printf("FAILED %s\n", m);
  fflush(stdout);
  dump();
  _exit(1);
}
static void on_sig(int s) {
  die(s == SIGALRM ? "does not terminate" : s == SIGABRT ? "abort (source assertion or terminate)" : "fatal signal");
}
static void on_death() { if (strcmp(why, "crash") == 0) why = "memory error reported by AddressSanitizer"; printf("FAILED %s\n", why); fflush(stdout); dump(); }
static bool next(char const *kind, char const *name, std::string &rest) {
  if (pos >= lines->size()) { printf("REJECT: inputs exhausted at %s\n", name); fflush(stdout); _exit(77); }
  std::string &l = (*lines)[pos++];
  size_t a = l.find(' '), b = l.find(' ', a + 1);
  std::string k = l.substr(0, a), n = l.substr(a + 1, b - a - 1);
  if (k != kind || n != name) { printf("REJECT: expected %s %s got %s\n", kind, name, l.c_str()); fflush(stdout); _exit(77); }
  rest = b == std::string::npos ? "" : l.substr(b + 1);
  return true;
}
static void rec(char const *kind, char const *name, std::string const &v) {
  long l = live;  // the record of the inputs is not part of the heap
  *logtxt += std::string(kind) + " " + name + " " + v + "\n";
  live = l;
}
static uint64_t pick(int w, bool size) {
  uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1, r = rnd() % 100;
  if (size) {
    if (r < 60) return rnd() % 9;
    if (r < 90) return rnd() % 40;
    if (style % 4) return rnd() % 80;
    static const int B[] = {127, 255, 256, 1015, 1016, 1023, 1024, 1025, 1032, 4000, 4095, 4096, 4097, 8192, 65535, 65536};
    return B[rnd() % 16] + rnd() % 3 - 1;
  }
  if (w == 1) return rnd() & 1;
  if (w == 8) {
    static const char A[] = "ab01\n\r\0 -+.9zAZ\xff\x80";
    return r < 70 ? (uint8_t)A[rnd() % (style % 3 == 0 ? 3 : sizeof A - 1)] : rnd() & m;
  }
  if (r < 40) return rnd() % 12;
  if (r < 60) return rnd() % 64;
  if (r < 70) return (m >> (rnd() % w)) + rnd() % 3 - 1 & m;
  if (r < 80) return (m - rnd() % 4) & m;
  if (r < 85) return ((1ull << (w - 1)) + rnd() % 3 - 1) & m;
  if (r < 90) return rnd() % 100000 & m;
  return (rnd() >> (rnd() % w)) & m;
}
static uint64_t val(char const *kind, char const *name, int w, bool size) {
  uint64_t v;
  if (replay) { std::string r; next(kind, name, r); v = strtoull(r.c_str(), 0, 10); }
  else v = pick(w, size);
  rec(kind, name, std::to_string(v));
  return v;
}
extern "C" {
uint64_t kv_u64(char const *n) { return val("u64", n, 64, false); }
uint32_t kv_u32(char const *n) { return val("u32", n, 32, false); }
uint16_t kv_u16(char const *n) { return val("u16", n, 16, false); }
uint8_t kv_u8(char const *n) { return val("u8", n, 8, false); }
bool kv_bool(char const *n) { return val("bool", n, 1, false); }
uint64_t kv_size(char const *n) { return val("size", n, 64, true); }
void kv_assume(bool c) { if (!c) { if (replay) { printf("REJECT: precondition\n"); fflush(stdout); _exit(77); } longjmp(rej, 1); } }
void kv_assert(bool c, char const *m) { if (!c) die(m); }
void kv_cover(char const *) {}
static std::string hex(unsigned char const *p, size_t n) {
  static const char H[] = "0123456789abcdef";
  std::string s(2 * n, '0');
  for (size_t i = 0; i < n; ++i) { s[2 * i] = H[p[i] >> 4]; s[2 * i + 1] = H[p[i] & 15]; }
  return s;
}
void *kv_bytes(char const *name, size_t n) {
  if (n > (64u << 20)) { kv_assume(false); }
  unsigned char *p = (unsigned char *)malloc(n ? n : 1);
  owned->push_back(p);
  if (replay) {
    std::string r; next("bytes", name, r);
    size_t sp = r.find(' ');
    std::string h = sp == std::string::npos ? "" : r.substr(sp + 1);
    auto d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i < n; ++i) p[i] = 2 * i + 1 < h.size() ? d(h[2 * i]) * 16 + d(h[2 * i + 1]) : 0;
  } else if (n > 65536) {
    unsigned x = pick(32, false);
    for (size_t i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; p[i] = x >> 24; }
  } else for (size_t i = 0; i < n; ++i) p[i] = pick(8, false);
  rec("bytes", name, std::to_string(n) + " " + hex(p, n));
  return p;
}
void *kv_family(char const *name, size_t stride, size_t count, size_t payload) {
  if (count * stride > (64u << 20)) kv_assume(false);
  char *p = (char *)calloc(count ? count : 1, stride);
  owned->push_back(p);
  (*fams)[p] = stride; (*famcnt)[p] = count;
  if (nranges < 64) { ranges[nranges].b = p; ranges[nranges++].n = count * stride; }
  if (payload < stride)
    for (size_t i = 0; i < count; ++i)
      for (size_t j = payload; j < stride; ++j) p[i * stride + j] = rnd();
  return p;
}
void kv_field_int(void *base, size_t off, size_t size) {
  char *p = (char *)base; size_t st = (*fams)[base], n = (*famcnt)[base];
  std::string r, o;
  char const *c = 0;
  if (replay) { next("field", std::to_string(off).c_str(), r); c = r.c_str(); }
  for (size_t i = 0; i < n; ++i) {
    uint64_t v = 0;
    if (replay) { char *e; v = strtoull(c, &e, 10); c = e; } else v = pick(8 * size, false);
    memcpy(p + i * st + off, &v, size);
    o += std::to_string(v) + " ";
  }
  rec("field", std::to_string(off).c_str(), o);
}
void kv_field_fn(void *base, size_t off, size_t size, int isptr, void *fn, void *ctx) {
  char *p = (char *)base; size_t st = (*fams)[base], n = (*famcnt)[base];
  for (size_t i = 0; i < n; ++i) {
    uint64_t v = isptr ? (uint64_t)((kv_pfn)fn)(ctx, i) : ((kv_ifn)fn)(ctx, i);
    memcpy(p + i * st + off, &v, size);
  }
}
void kv_template(kv_pred, void *) {}
void kv_template_at(kv_pred, void *) {}
void kv_template_all(kv_pred, void *) {}
bool kv_eval(kv_pred p, void *ctx, uint64_t i) { return p(ctx, i); }
void *kv_select(bool c, void *a, void *b) { return c ? a : b; }
void kv_template0(kv_pred0, void *) {}
void kv_template_clear() {}
void kv_term(uint64_t) {}
void kv_unroll(int) {}
void kv_template_pv(kv_predpv, void *) {}
void kv_template_only(bool) {}
void kv_unroll_in(char const *, int) {}
void kv_total(bool) {}
void kv_readonly(void const *, bool) {}
void kv_forall(kv_pred p, void *ctx, uint64_t lo, uint64_t hi) { for (uint64_t j = lo; j < hi; ++j) kv_assume(p(ctx, j)); }
void kv_check_forall(kv_pred p, void *ctx, uint64_t lo, uint64_t hi, char const *m) { for (uint64_t j = lo; j < hi; ++j) kv_assert(p(ctx, j), m); }
uint64_t kv_index(void const *q) {
  for (auto &f : *fams) { char *b = (char *)f.first; if (b <= (char *)q && (char *)q < b + f.second * (*famcnt)[f.first]) return ((char *)q - b) / f.second; }
  return ~0ull;
}
bool kv_is_elem(void const *q, void const *base) {
  char *b = (char *)base; return b <= (char *)q && (char *)q < b + (*fams)[(void *)base] * (*famcnt)[(void *)base];
}
void kv_valid(void const *p, size_t n) { volatile char s = 0; for (size_t i = 0; i < n; ++i) s += ((char const *)p)[i]; (void)s; }
uint64_t kv_live_heap() { return live; }
int kv_mode() { return 1; }
// a choice made only in native runs, to build states that satisfy the preconditions; 0 when an input found by the verifier is replayed
uint64_t kv_fix(uint64_t n) {
  uint64_t v = 0;
  if (replay) {
    if (pos < lines->size() && (*lines)[pos].compare(0, 4, "fix ") == 0) { std::string r; next("fix", "k", r); v = strtoull(r.c_str(), 0, 10); }
  } else v = n ? rnd() % n : 0;
  rec("fix", "k", std::to_string(v));
  return v;
}
void kv_ub(bool) {}
void kv_pathend() { kv_assume(false); }
void kv_note(char const *) {}
}
#include KV_TABLE_H   // generated: declarations of the harnesses and the table T
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// usage: prog HARNESS replay FILE   |  prog HARNESS random SECONDS SEED OUTFILE
int main(int c, char **v) {
  lines = new std::vector<std::string>; logtxt = new std::string; fams = new std::map<void *, size_t>; famcnt = new std::map<void *, size_t>; owned = new std::vector<void *>;
  void (*f)() = 0;
  for (auto *t = T; t->n; ++t) if (!strcmp(t->n, v[1])) f = t->f;
  if (!f) { printf("no harness\n"); return 2; }
  if (&__asan_set_death_callback && __asan_set_death_callback) __asan_set_death_callback(on_death);
  if (&__sanitizer_install_malloc_and_free_hooks && __sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); signal(SIGALRM, on_sig);
  if (!strcmp(v[2], "replay")) {
    replay = true;
    if (FILE *fp = fopen(v[3], "r")) {
      std::string l; int ch;
      while ((ch = fgetc(fp)) != EOF) { if (ch == '\n') { if (!l.empty() && l[0] != '#') lines->push_back(l); l.clear(); } else l += (char)ch; }
      fclose(fp);
    }
    alarm(20);
    f();
    printf("PASSED\n");
    return 0;
  }
  double end = now() + atof(v[3]);
  rs = strtoull(v[4], 0, 10) * 0x9E3779B97F4A7C15ull + 0x1234567;
  outpath = c > 5 ? v[5] : 0;
  long batch = c > 6 ? atol(v[6]) : 400;   // 1: fresh globals in every run
  static volatile long *ran = (volatile long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static volatile long it = 0;
  while (now() < end) {
    pid_t pid = fork();   // batches in child processes: memory leaked by abandoned runs is returned
    if (pid == 0) {
      long last = ran[2] + batch;
      rs += ran[2] * 0x9E3779B97F4A7C15ull; rnd(); rnd();
      static volatile long lst; lst = last;
      while (now() < end && ran[2] < lst) {
        style = ran[2]; ran[2] = ran[2] + 1;
        logtxt->clear(); pos = 0;
        owned->clear(); fams->clear(); famcnt->clear(); nranges = 0;
        alarm(10);
        if (setjmp(rej) == 0) { f(); ran[0] = ran[0] + 1; } else ran[1] = ran[1] + 1;
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      if (!WIFEXITED(st)) printf("FAILED crashed by a signal\n");
      fflush(stdout);
      _exit(1);
    }
  }
  printf("PASSED runs=%ld rejected=%ld\n", (long)ran[0], (long)ran[1]);
  return 0;
}
