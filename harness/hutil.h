#pragma once
#include "symx.h"
#include <exception>
typedef long long ll;
typedef __int128 i128;
static const ll LMIN = -9223372036854775807ll - 1, LMAX = 9223372036854775807ll;
static inline bool fits(i128 v) { return v >= (i128)LMIN && v <= (i128)LMAX; }
static inline ll any(const char * n) { return symx_range(n, LMIN, LMAX); }
// Which alternative a unit exercises: an input, but one that is enumerated
static inline int choice(const char * n, int lo, int hi) { return (int)symx_concretize(symx_range(n, lo, hi)); }
#define SIZEOF(a) (sizeof(a) / sizeof(*(a)))
#include <string>
// A text of a given length whose bytes are arbitrary
static inline std::string anytext(const char * n, int len, int lo = 0, int hi = 255)
{
    std::string s(len, ' ');
    for (int i = 0; i < len; ++i)
        s[i] = (char)symx_range(n, lo, hi);
    return s;
}
template <typename E_, typename F_>
static bool throws(F_ f)
{
    try {
        f();
    }
    catch (const E_ &) {
        return true;
    }
    return false;
}
