// Harness-side interface of the symbolic engine. The same harness source is linked
// against runtime.cpp (symbolic exploration) and native.cpp (concrete replay).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// fresh symbolic bytes
void sym_make(void* p, size_t n);
// a symbolic value in [0,n), decided per path (all n values are explored)
uint64_t sym_choice(uint64_t n);
// end the path unless c
void sym_assume_(int c);
// report a violation on this path and end it
void sym_fail_(const char* msg);
// reachability witness
void sym_cover(const char* label);
// digest of observable outcome of this path (validated against the native build)
void sym_output(uint64_t v);
// memory for n bytes whose surroundings are inaccessible (reported when touched); freed at path end
unsigned char* sym_guarded(size_t n);
// is this instance to be set up and explored in this process?
int sym_want(const char* instance);
// explore f over all inputs
typedef void (*sym_fn)(void*);
void sym_explore(const char* instance, sym_fn f, void* arg);
// number of live allocations / bytes allocated by instrumented code since path start (engine only; 0 natively)
uint64_t sym_alloc_count(void);
uint64_t sym_alloc_live(void);
int sym_is_native(void);
// note text carried into the violation report
void sym_note(const char* text);
// the wanted instance is not explored, and why
void sym_skip(const char* why);
// a failure that is listed as a known finding (ids in LG_KNOWN): reported as such and the path ends; else sym_fail_
void sym_known(const char* id, const char* msg);
// the wanted instance fails before there is anything to explore
void sym_setup_fail(const char* instance, const char* msg);
void sym_pin_bytes(const void* p, size_t n);
#ifdef __cplusplus
}
#endif
static inline void sym_assume(bool c) { if (!c) sym_assume_(0); }
// decide c on this path (forks), so that later values do not depend on it symbolically
static inline bool sym_decide(bool c) { if (c) { __asm__ volatile("# yes"); return true; } __asm__ volatile("# no"); return false; }
#define sym_check(c, msg) do { if (!(c)) sym_fail_(msg); } while (0)
