// The harness interface. The same harness runs inside the symbolic executor and, compiled natively with
// replay_rt.cc, on the concrete inputs of a counterexample.
#pragma once
extern "C" {
long long symx_range(const char * name, long long lo, long long hi); // an arbitrary value in [lo, hi]
void symx_assume(long long);
void symx_assert(long long, const char * msg);
void symx_reach(const char * tag);                 // this point is reached by some path: vacuity witness
void symx_reach_if(long long, const char * tag);   // ... with this condition
void symx_note(const char * name, long long v);
void symx_stop() __attribute__((noreturn));
long long symx_concretize(long long);
long long symx_ite(long long c, long long t, long long f); // no fork
long long symx_and(long long, long long);
long long symx_or(long long, long long);
bool symx_branch(long long);
bool symx_possible(long long);
void symx_print(const char *, long long);
}
// Fails on an input that known-findings.txt lists under this text; anything else about that input is not asserted
#define symx_known(c, what) symx_assert(c, "known: " what)
