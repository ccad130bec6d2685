// Stand-ins for the standard input and string streams, which live in a library the engine has no bitcode of. They do what
// the standard says for the operations the readers use. Include before the headers under test.
#pragma once
#include "hutil.h"
#include <algorithm>
#include <any>
#include <array>
#include <cctype>
#include <charconv>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <ranges>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
namespace std
{
    struct symx_is
    {
        std::string s;
        size_t p = 0;
        bool e = false, f = false;
        symx_is() = default;
        explicit symx_is(std::string t) : s(std::move(t)) {}
        explicit operator bool() const { return ! f; }
        bool operator!() const { return f; }
        bool good() const { return ! e && ! f; }
        bool eof() const { return e; }
        bool fail() const { return f; }
        bool bad() const { return false; }
        void clear() { e = f = false; }
        static bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
        bool sentry(bool skip)
        {
            if (! good()) {
                f = true;
                return false;
            }
            if (skip) {
                while (p < s.size() && space(s[p]))
                    ++p;
                if (p == s.size()) {
                    e = f = true;
                    return false;
                }
            }
            return true;
        }
        int peek()
        {
            if (! good())
                return -1;
            if (p == s.size()) {
                e = true;
                return -1;
            }
            return (unsigned char)s[p];
        }
        int get()
        {
            if (! sentry(false))
                return -1;
            if (p == s.size()) {
                e = f = true;
                return -1;
            }
            return (unsigned char)s[p++];
        }
        symx_is & get(char & c)
        {
            int r = get();
            if (! f)
                c = (char)r;
            return *this;
        }
        symx_is & ignore()
        {
            if (sentry(false)) {
                if (p == s.size())
                    e = true;
                else
                    ++p;
            }
            return *this;
        }
        template <typename T_>
        symx_is & number(T_ & v)
        {
            if (! sentry(true))
                return *this;
            bool neg = false, digits = false, over = false;
            if (s[p] == '-' || s[p] == '+')
                neg = s[p++] == '-';
            i128 x = 0;
            for (; p < s.size() && s[p] >= '0' && s[p] <= '9'; ++p) {
                digits = true;
                if (! over)
                    x = x * 10 + (s[p] - '0');
                if (x > ((i128)1 << 64))
                    over = true;
            }
            if (p == s.size())
                e = true;
            if (neg)
                x = -x;
            i128 lo = std::numeric_limits<T_>::min(), hi = std::numeric_limits<T_>::max();
            if (! digits) {
                v = 0;
                f = true;
            }
            else if (x < lo || x > hi) {
                v = x < lo ? (T_)lo : (T_)hi;
                f = true;
            }
            else
                v = (T_)x;
            return *this;
        }
        symx_is & operator>>(long long & v) { return number(v); }
        symx_is & operator>>(long & v) { return number(v); }
        symx_is & operator>>(int & v) { return number(v); }
        symx_is & operator>>(double & v) // whole numbers only
        {
            long long x = 0;
            number(x);
            v = (double)symx_concretize(x);
            return *this;
        }
        symx_is & operator>>(char & c)
        {
            if (sentry(true))
                c = s[p++];
            return *this;
        }
        symx_is & operator>>(std::string & t)
        {
            if (! sentry(true))
                return *this;
            t.clear();
            while (p < s.size() && ! space(s[p]))
                t += s[p++];
            if (p == s.size())
                e = true;
            return *this;
        }
        template <typename T_>
        symx_is & operator>>(T_ & (*m)(T_ &)) // std::ws
        {
            while (p < s.size() && space(s[p]))
                ++p;
            if (p == s.size())
                e = true;
            return *this;
        }
        std::string str() const { return s; }
        void str(std::string t)
        {
            s = std::move(t);
            p = 0;
        }
    };
    inline symx_is & getline(symx_is & in, std::string & t, char delim = '\n')
    {
        if (! in.sentry(false))
            return in;
        t.clear();
        bool any = false;
        while (in.p < in.s.size()) {
            any = true;
            if (in.s[in.p] == delim) {
                ++in.p;
                return in;
            }
            t += in.s[in.p++];
        }
        in.e = true;
        if (! any)
            in.f = true;
        return in;
    }
    inline std::string symx_file;
    inline bool symx_file_there = true;
    struct symx_iss : symx_is
    {
        using symx_is::symx_is;
    };
    struct symx_ifs : symx_is
    {
        explicit symx_ifs(const std::string &) : symx_is(symx_file) { f = ! symx_file_there; }
        bool is_open() const { return symx_file_there; }
    };
    struct symx_oss
    {
        std::string s;
        symx_oss & operator<<(const char * t) { s += t; return *this; }
        symx_oss & operator<<(const std::string & t) { s += t; return *this; }
        symx_oss & operator<<(char c) { s += c; return *this; }
        template <typename T_> requires std::is_integral_v<T_> symx_oss & operator<<(T_ v) { s += std::to_string(symx_concretize((ll)v)); return *this; }
        std::string str() const { return s; }
    };
}
#define istream symx_is
#define istringstream symx_iss
#define stringstream symx_iss
#define ifstream symx_ifs
#define ostringstream symx_oss
