// Native implementation of the harness interface: replays one counterexample.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <utility>
#include <vector>
static std::vector<std::pair<std::string, long long>> in;
static size_t at = 0;
extern "C" {
long long symx_range(const char * name, long long lo, long long hi)
{
    long long v = lo;
    std::string n = name;
    for (auto & c : n)
        if (c == ' ')
            c = '_';
    if (at < in.size()) {
        if (in[at].first != n) {
            fprintf(stderr, "replay: input %zu is %s, harness asks for %s\n", at, in[at].first.c_str(), name);
            _Exit(4);
        }
        v = in[at].second;
    }
    ++at;
    if (v < lo || v > hi) {
        fprintf(stderr, "replay: %s out of range\n", name);
        _Exit(4);
    }
    fprintf(stderr, "replay: %s = %lld\n", name, v);
    return v;
}
void symx_assume(long long c)
{
    if (! c) {
        fprintf(stderr, "replay: assumption is false\n");
        _Exit(4);
    }
}
void symx_assert(long long c, const char * m)
{
    if (! c) {
        fprintf(stderr, "REPLAY-VIOLATION assert %s\n", m);
        _Exit(1);
    }
}
void symx_reach(const char *) {}
void symx_reach_if(long long, const char *) {}
void symx_note(const char * n, long long v) { fprintf(stderr, "replay: note %s = %lld\n", n, v); }
void symx_stop() { _Exit(0); }
long long symx_concretize(long long v) { return v; }
long long symx_ite(long long c, long long t, long long f) { return c ? t : f; }
long long symx_and(long long a, long long b) { return a && b; }
long long symx_or(long long a, long long b) { return a || b; }
bool symx_branch(long long c) { return c; }
bool symx_possible(long long c) { return c; }
bool symx_is_symbolic(long long) { return false; }
void symx_print(const char * m, long long v) { fprintf(stderr, "replay: %s %lld\n", m, v); }
void harness_main();
}
int main(int argc, char ** argv)
{
    if (argc > 1)
        if (FILE * f = fopen(argv[1], "r")) {
            char name[512];
            long long v;
            while (fscanf(f, "%511s %lld", name, &v) == 2)
                in.emplace_back(name, v);
            fclose(f);
        }
    std::set_terminate([] {
        fprintf(stderr, "REPLAY-VIOLATION fault std::terminate\n");
        _Exit(1);
    });
    harness_main();
    return 0;
}
