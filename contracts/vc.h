// Contract language: the same file is translated to proof obligations (vc/) and compiled natively to replay a
// counterexample on the real code.
#ifndef VC_H
#define VC_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <climits>
#include <cerrno>

extern "C"
{
// arbitrary values
long vc_int(const char *name, long lo, long hi) noexcept;
long vc_len(const char *name, long lo, long hi) noexcept;     // same, a size (natively sampled small)
bool vc_bool(const char *name) noexcept;
void vc_bytes(const char *name, void *p, long n) noexcept;    // arbitrary contents
void *vc_alloc(const char *name, long n) noexcept;            // fresh block of n arbitrary bytes
char *vc_cstr(const char *name, long n) noexcept;             // n arbitrary non-zero bytes and NUL
// contracts
void vc_assume(bool) noexcept;                                // precondition
void vc_assert(bool, const char *id) noexcept;                // postcondition
void vc_reach(const char *id) noexcept;                       // must be reachable (guards against vacuous contracts)
void vc_assert_eq_bytes(const void *a, const void *b, long n, const char *id) noexcept;
void vc_assert_all(const void *p, long n, int byte, const char *id) noexcept;
void vc_assume_all(const void *p, long n, int byte) noexcept;
void vc_fill(void *p, int byte, long n) noexcept;
void *vc_snapshot(const void *p, long n) noexcept;            // ghost copy
long vc_origin(const void *p) noexcept;                       // witness: where the bytes at p were copied from (natively: -1)
bool vc_symbolic() noexcept;
bool vc_bounded() noexcept;
void vc_stop() noexcept;                                      // end of this history
void vc_protect(const void *p, long n, bool accessible, const char *what) noexcept;
bool vc_freed(const void *p) noexcept;
bool vc_same_obj(const void *p, const void *q) noexcept;
long vc_live_heap() noexcept;                              // number of live heap blocks (natively: not observed)
bool vc_held(const void *mutex) noexcept;
// ghost state: specification-only array; kind 0: predicate over positions (holds where the entry is 1), kind 1: sequence.
// Loop invariants "predicate holds at this position" / "this variable is the sequence's element" are inferred from it.
long *vc_ghost_array(const char *name, long n, int kind) noexcept;
void vc_assume_forall(long lo, long hi, bool (*fn)(void *, long), void *ctx) noexcept;
void vc_longs(const char *name, long *p, long n, long lo, long hi) noexcept;   // arbitrary contents of block p
void vc_ints(const char *name, int *p, long n, int lo, int hi) noexcept;
long vc_lcm(long a, long b) noexcept;
long vc_gcd(long a, long b) noexcept;                      // mathematical greatest common divisor (lemmas.lean)
void vc_note(const char *) noexcept;
// loop invariant offered to the verifier: proved inductive like the inferred ones, or dropped
void vc_invariant(bool (*fn)(void *), void *ctx) noexcept;
// the loop iteration that executes this ends a phase: the loop is verified phase by phase, each with its own invariant
void vc_phase() noexcept;
// threads of control of a simulated schedule: resume runs the thread until it yields (0) or ends (1)
int vc_co_new(void (*fn)(void *), void *arg);
int vc_co_resume(int);
void vc_co_yield();
}
#define CONTRACT(name) extern "C" void contract_##name()
#endif
