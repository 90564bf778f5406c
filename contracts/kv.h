// Contract language of kvc.  In the proof every function below is interpreted by
// kvc/models.py; natively (replay of a counterexample, bounded runs) by kv_native.cc.
#ifndef KV_H
#define KV_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t kv_u64(char const *name);   // arbitrary value; a name starting with 'k' is an index the quantified facts are instantiated at
uint32_t kv_u32(char const *name);
uint16_t kv_u16(char const *name);
uint8_t kv_u8(char const *name);
bool kv_bool(char const *name);
uint64_t kv_size(char const *name);  // arbitrary size; bounded only in counterexample search
void kv_assume(bool c);              // precondition
void kv_assert(bool c, char const *msg);  // postcondition
void kv_cover(char const *msg);      // must be reachable
void *kv_bytes(char const *name, size_t n);  // fresh storage with arbitrary contents
void *kv_family(char const *name, size_t stride, size_t count, size_t payload);
void kv_field_int(void *base, size_t off, size_t size);
typedef uint64_t (*kv_ifn)(void *ctx, uint64_t i);
typedef void *(*kv_pfn)(void *ctx, uint64_t i);
void kv_field_fn(void *base, size_t off, size_t size, int isptr, void *fn, void *ctx);
typedef bool (*kv_pred)(void *ctx, uint64_t j);
typedef bool (*kv_pred0)(void *ctx);
void kv_template(kv_pred p, void *ctx);      // candidate loop invariant: forall j in some range of p
void kv_template_at(kv_pred p, void *ctx);   // candidate loop invariant: p of some loop variable
void kv_template_all(kv_pred p, void *ctx);  // candidate loop invariant: forall j of p
void kv_template0(kv_pred0 p, void *ctx);    // candidate loop invariant
typedef bool (*kv_predpv)(void *ctx, void *p, uint64_t j);
void kv_template_pv(kv_predpv p, void *ctx); // candidate loop invariant: p of a pointer and a number that vary
void kv_template_only(bool on);              // only the candidates given by the contract (and linear equations)
void kv_template_clear();
void kv_term(uint64_t);                      // extra term for candidate invariants
void kv_unroll(int k);
void kv_unroll_in(char const *fn, int k);     // the loops of the functions with this name in theirs
void kv_total(bool on);                      // loops must terminate
void kv_readonly(void const *p, bool on);    // frame condition
void kv_forall(kv_pred p, void *ctx, uint64_t lo, uint64_t hi);   // assume
void kv_check_forall(kv_pred p, void *ctx, uint64_t lo, uint64_t hi, char const *msg);
bool kv_eval(kv_pred p, void *ctx, uint64_t i);   // p(ctx, i); the proof does not split on the paths through p
void *kv_select(bool c, void *a, void *b);       // c ? a : b without splitting the proof
uint64_t kv_index(void const *p);
bool kv_is_elem(void const *p, void const *base);
void kv_valid(void const *p, size_t n);
uint64_t kv_live_heap();
int kv_mode();                               // 0 proof, 1 native
uint64_t kv_fix(uint64_t n);                 // native runs: a choice below n
void kv_ub(bool on);
void kv_pathend();
void kv_note(char const *);
}
// a raw object of type T whose fields the harness sets
template <class T> struct KvRaw { alignas(T) unsigned char b[sizeof(T)]; T &r() { return *reinterpret_cast<T *>(b); } };
// native runs: brings a random value into [0, hi] (a value that is there stays); proofs: the value
template <class T> static inline T kv_fit(T v, uint64_t hi) { return kv_mode() == 1 && (uint64_t)v > hi ? (T)((uint64_t)v % (hi + 1)) : v; }
#define HARNESS(n) extern "C" void H_##n()
#endif
