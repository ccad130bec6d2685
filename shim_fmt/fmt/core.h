// A small stand-in for {fmt}, used when the library is compiled for symbolic execution: formatting is not the
// subject of the properties that are decided there. Symbolic integers are written as "?".
#pragma once
#include <cstdint>
#include <cstdio>
#include <iterator>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" bool symx_is_symbolic(long long);

namespace fmt
{
    struct format_error : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };
    struct format_parse_context
    {
        const char *b, *e;
        constexpr auto begin() const -> const char * { return b; }
        constexpr auto end() const -> const char * { return e; }
    };
    struct format_context
    {
        std::string * s;
        auto out() const -> std::back_insert_iterator<std::string> { return std::back_inserter(*s); }
    };
    template <typename T>
    struct formatter;
    struct ostream_formatter
    {
    };
    template <>
    struct formatter<std::string>
    {
        constexpr auto parse(format_parse_context & ctx) { return ctx.begin(); }
        auto format(const std::string & t, format_context & ctx) const
        {
            ctx.s->append(t);
            return ctx.out();
        }
    };

    template <typename R>
    struct join_view
    {
        const R & r;
        std::string_view sep;
    };
    template <typename R>
    auto join(const R & r, std::string_view sep) -> join_view<R> { return {r, sep}; }

    namespace detail
    {
        template <typename T>
        concept HasFormatter = requires(const T & t, format_context & c) { formatter<T>{}.format(t, c); };
        template <typename T>
        concept Streamable = requires(std::ostream & o, const T & t) { o << t; };
        template <typename T>
        concept Rangey = requires(const T & t) { t.begin(); t.end(); };

        inline void num(std::string & out, long long v, bool neg)
        {
            if (symx_is_symbolic(v)) {
                out += '?';
                return;
            }
            unsigned long long u = (unsigned long long) v;
            if (neg && v < 0) {
                out += '-';
                u = -u;
            }
            char b[24];
            int n = 0;
            do
                b[n++] = (char) ('0' + u % 10);
            while (u /= 10);
            while (n)
                out += b[--n];
        }
        template <typename T>
        void arg(std::string & out, std::string_view spec, const T & t);
        template <typename R>
        void arg1(std::string & out, std::string_view spec, const join_view<R> & j)
        {
            bool first = true;
            for (const auto & x : j.r) {
                if (! first)
                    out += j.sep;
                first = false;
                arg(out, spec, x);
            }
        }
        template <typename T>
        void arg1(std::string & out, std::string_view spec, const T & t)
        {
            if constexpr (std::is_same_v<T, bool>)
                out += t ? "true" : "false";
            else if constexpr (std::is_same_v<T, char>)
                out += t;
            else if constexpr (std::is_integral_v<T>)
                num(out, (long long) t, std::is_signed_v<T>);
            else if constexpr (std::is_floating_point_v<T>)
                out += "<float>";
            else if constexpr (std::is_convertible_v<const T &, std::string_view>)
                out += std::string_view(t);
            else if constexpr (HasFormatter<T>) {
                formatter<T> f;
                format_parse_context p{spec.data(), spec.data() + spec.size()};
                f.parse(p);
                format_context c{&out};
                f.format(t, c);
            }
            else if constexpr (requires { t.raw_value; })
                num(out, (long long) t.raw_value, true);
            else if constexpr (Rangey<T>) {
                out += '[';
                bool first = true;
                for (const auto & x : t) {
                    if (! first)
                        out += ", ";
                    first = false;
                    arg(out, spec, x);
                }
                out += ']';
            }
            else
                out += "<value>";
        }
        template <typename T>
        void arg(std::string & out, std::string_view spec, const T & t) { arg1(out, spec, t); }

        inline auto upto(std::string & out, std::string_view & f, std::string_view & spec) -> bool
        {
            while (! f.empty()) {
                char c = f.front();
                f.remove_prefix(1);
                if (c == '{') {
                    if (! f.empty() && f.front() == '{') {
                        out += '{';
                        f.remove_prefix(1);
                        continue;
                    }
                    std::size_t e = 0;
                    while (f[e] != '}')
                        ++e;
                    spec = f.substr(0, e);
                    if (! spec.empty() && spec.front() == ':')
                        spec.remove_prefix(1);
                    f.remove_prefix(e + 1);
                    return true;
                }
                if (c == '}' && ! f.empty() && f.front() == '}')
                    f.remove_prefix(1);
                out += c;
            }
            return false;
        }
        inline void all(std::string & out, std::string_view f)
        {
            std::string_view spec;
            if (upto(out, f, spec))
                throw format_error{"too few arguments"};
        }
        template <typename A, typename... R>
        void all(std::string & out, std::string_view f, const A & a, const R &... r)
        {
            std::string_view spec;
            if (! upto(out, f, spec))
                return;
            arg(out, spec, a);
            all(out, f, r...);
        }
    }

    // String literals are taken by reference so that these beat the std:: functions that argument-dependent lookup finds.
    template <std::size_t N, typename... A>
    auto format(const char (&f)[N], A &&... a) -> std::string
    {
        std::string s;
        detail::all(s, std::string_view{f, N - 1}, a...);
        return s;
    }
    template <typename It, std::size_t N, typename... A>
    auto format_to(It it, const char (&f)[N], A &&... a) -> It
    {
        std::string s = format(f, a...);
        for (char c : s)
            *it++ = c;
        return it;
    }
    // Output goes nowhere, unless the harness provides a sink.
    [[gnu::weak]] void symx_sink(std::ostream *, const std::string &);
    template <typename S, std::size_t N, typename... A>
    requires std::is_base_of_v<std::ostream, S>
    auto print(S & o, const char (&f)[N], A &&... a) -> void
    {
        if (&symx_sink)
            symx_sink(&o, format(f, a...));
    }
    template <typename S, std::size_t N, typename... A>
    requires std::is_base_of_v<std::ostream, S>
    auto println(S & o, const char (&f)[N], A &&... a) -> void
    {
        if (&symx_sink)
            symx_sink(&o, format(f, a...) + "\n");
    }
    template <typename S>
    requires std::is_base_of_v<std::ostream, S>
    auto println(S & o) -> void
    {
        if (&symx_sink)
            symx_sink(&o, "\n");
    }
    template <std::size_t N, typename... A>
    auto print(FILE *, const char (&)[N], A &&...) -> void {}
    template <std::size_t N, typename... A>
    auto println(FILE *, const char (&)[N], A &&...) -> void {}
    template <std::size_t N, typename... A>
    auto print(const char (&)[N], A &&...) -> void {}
    template <std::size_t N, typename... A>
    auto println(const char (&)[N], A &&...) -> void {}
}
