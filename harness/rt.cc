// Bitcode definitions of the parts of libc and libstdc++ that live in shared libraries. Compiled for the symbolic
// executor only. Semantics follow the documented contracts; container internals need not be balanced.
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <chrono>

extern "C" {
void * malloc(size_t);
int memcmp(const void * a, const void * b, size_t n)
{
    auto *x = (const unsigned char *) a, *y = (const unsigned char *) b;
    for (; n; --n, ++x, ++y)
        if (*x != *y)
            return *x < *y ? -1 : 1;
    return 0;
}
int bcmp(const void * a, const void * b, size_t n) { return memcmp(a, b, n); }
void * memchr(const void * a, int c, size_t n)
{
    auto * x = (const unsigned char *) a;
    for (; n; --n, ++x)
        if (*x == (unsigned char) c)
            return (void *) x;
    return nullptr;
}
size_t strlen(const char * s)
{
    size_t n = 0;
    while (s[n])
        ++n;
    return n;
}
int strcmp(const char * a, const char * b)
{
    while (*a && *a == *b)
        ++a, ++b;
    return *a == *b ? 0 : (unsigned char) *a < (unsigned char) *b ? -1 : 1;
}
long long llround(double d) // halves away from zero; the engine's own arithmetic rounds to nearest even only beyond 2^52
{
    long long i = (long long) d;
    double f = d - (double) i;
    return f >= 0.5 ? i + 1 : f <= -0.5 ? i - 1 : i;
}
long lround(double d) { return (long) llround(d); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c | 32) >= 'a' && (c | 32) <= 'z'; }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}

extern "C" char __libc_single_threaded = 1;

namespace std
{
    exception::~exception() noexcept {}
    const char * exception::what() const noexcept { return "std::exception"; }
    bad_exception::~bad_exception() noexcept {}
    const char * bad_exception::what() const noexcept { return "std::bad_exception"; }
    bad_alloc::~bad_alloc() noexcept {}
    const char * bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {}
    const char * bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {}
    const char * bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_typeid::~bad_typeid() noexcept {}
    const char * bad_typeid::what() const noexcept { return "std::bad_typeid"; }
    bad_function_call::~bad_function_call() noexcept {}
    const char * bad_function_call::what() const noexcept { return "bad_function_call"; }

    static const char * keep(const char * s, size_t n)
    {
        char * p = (char *) malloc(n + 1);
        for (size_t i = 0; i < n; ++i)
            p[i] = s[i];
        p[n] = 0;
        return p;
    }
    __cow_string::__cow_string(const std::string & s) : _M_p(keep(s.data(), s.size())) {}
    __cow_string::__cow_string(const char * s, size_t n) : _M_p(keep(s, n)) {}
    __cow_string::__cow_string(const __cow_string & s) noexcept : _M_p(s._M_p) {}
    __cow_string & __cow_string::operator=(const __cow_string & s) noexcept
    {
        _M_p = s._M_p;
        return *this;
    }
    __cow_string::~__cow_string() {}

    logic_error::logic_error(const string & s) : _M_msg(s) {}
    logic_error::logic_error(const char * s) : _M_msg(s, strlen(s)) {}
    logic_error::logic_error(const logic_error & o) noexcept : exception(o), _M_msg(o._M_msg) {}
    logic_error & logic_error::operator=(const logic_error & o) noexcept { _M_msg = o._M_msg; return *this; }
    logic_error::~logic_error() noexcept {}
    const char * logic_error::what() const noexcept { return _M_msg._M_p; }
    domain_error::domain_error(const string & s) : logic_error(s) {}
    domain_error::domain_error(const char * s) : logic_error(s) {}
    domain_error::~domain_error() noexcept {}
    invalid_argument::invalid_argument(const string & s) : logic_error(s) {}
    invalid_argument::invalid_argument(const char * s) : logic_error(s) {}
    invalid_argument::~invalid_argument() noexcept {}
    length_error::length_error(const string & s) : logic_error(s) {}
    length_error::length_error(const char * s) : logic_error(s) {}
    length_error::~length_error() noexcept {}
    out_of_range::out_of_range(const string & s) : logic_error(s) {}
    out_of_range::out_of_range(const char * s) : logic_error(s) {}
    out_of_range::~out_of_range() noexcept {}
    runtime_error::runtime_error(const string & s) : _M_msg(s) {}
    runtime_error::runtime_error(const char * s) : _M_msg(s, strlen(s)) {}
    runtime_error::runtime_error(const runtime_error & o) noexcept : exception(o), _M_msg(o._M_msg) {}
    runtime_error & runtime_error::operator=(const runtime_error & o) noexcept { _M_msg = o._M_msg; return *this; }
    runtime_error::~runtime_error() noexcept {}
    const char * runtime_error::what() const noexcept { return _M_msg._M_p; }
    range_error::range_error(const string & s) : runtime_error(s) {}
    range_error::range_error(const char * s) : runtime_error(s) {}
    range_error::~range_error() noexcept {}
    overflow_error::overflow_error(const string & s) : runtime_error(s) {}
    overflow_error::overflow_error(const char * s) : runtime_error(s) {}
    overflow_error::~overflow_error() noexcept {}
    underflow_error::underflow_error(const string & s) : runtime_error(s) {}
    underflow_error::underflow_error(const char * s) : runtime_error(s) {}
    underflow_error::~underflow_error() noexcept {}

    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_logic_error(const char * s) { throw logic_error(s); }
    void __throw_invalid_argument(const char * s) { throw invalid_argument(s); }
    void __throw_length_error(const char * s) { throw length_error(s); }
    void __throw_out_of_range(const char * s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(const char * s, ...) { throw out_of_range(s); }
    void __throw_runtime_error(const char * s) { throw runtime_error(s); }
    void __throw_domain_error(const char * s) { throw domain_error(s); }

    // ---- red-black trees, without the rebalancing
    _Rb_tree_node_base * _Rb_tree_increment(_Rb_tree_node_base * x) throw()
    {
        if (x->_M_right) {
            x = x->_M_right;
            while (x->_M_left)
                x = x->_M_left;
            return x;
        }
        auto * y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        return x->_M_right != y ? y : x;
    }
    const _Rb_tree_node_base * _Rb_tree_increment(const _Rb_tree_node_base * x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
    _Rb_tree_node_base * _Rb_tree_decrement(_Rb_tree_node_base * x) throw()
    {
        if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
            return x->_M_right; // the header
        if (x->_M_left) {
            x = x->_M_left;
            while (x->_M_right)
                x = x->_M_right;
            return x;
        }
        auto * y = x->_M_parent;
        while (x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        return y;
    }
    const _Rb_tree_node_base * _Rb_tree_decrement(const _Rb_tree_node_base * x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base * x, _Rb_tree_node_base * p, _Rb_tree_node_base & h) throw()
    {
        // every node is black and only the header is red
        x->_M_parent = p;
        x->_M_left = x->_M_right = nullptr;
        x->_M_color = _S_black;
        if (left) {
            p->_M_left = x;
            if (p == &h) {
                h._M_parent = x;
                h._M_right = x;
            }
            else if (p == h._M_left)
                h._M_left = x;
        }
        else {
            p->_M_right = x;
            if (p == h._M_right)
                h._M_right = x;
        }
    }
    _Rb_tree_node_base * _Rb_tree_rebalance_for_erase(_Rb_tree_node_base * const z, _Rb_tree_node_base & h) throw()
    {
        auto replace = [&](_Rb_tree_node_base * n) {
            if (h._M_parent == z)
                h._M_parent = n;
            else if (z->_M_parent->_M_left == z)
                z->_M_parent->_M_left = n;
            else
                z->_M_parent->_M_right = n;
            if (n)
                n->_M_parent = z->_M_parent;
        };
        auto * leftmost = h._M_left == z ? (z->_M_right ? nullptr : z->_M_parent) : h._M_left;
        auto * rightmost = h._M_right == z ? (z->_M_left ? nullptr : z->_M_parent) : h._M_right;
        if (! leftmost) {
            leftmost = z->_M_right;
            while (leftmost->_M_left)
                leftmost = leftmost->_M_left;
        }
        if (! rightmost) {
            rightmost = z->_M_left;
            while (rightmost->_M_right)
                rightmost = rightmost->_M_right;
        }
        if (! z->_M_left)
            replace(z->_M_right);
        else if (! z->_M_right)
            replace(z->_M_left);
        else {
            auto * y = z->_M_right; // the successor takes z's place
            while (y->_M_left)
                y = y->_M_left;
            if (y->_M_parent != z) {
                y->_M_parent->_M_left = y->_M_right;
                if (y->_M_right)
                    y->_M_right->_M_parent = y->_M_parent;
                y->_M_right = z->_M_right;
                y->_M_right->_M_parent = y;
            }
            replace(y);
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
        }
        h._M_left = leftmost;
        h._M_right = rightmost;
        return z;
    }

    namespace __detail
    {
        void _List_node_base::_M_hook(_List_node_base * const p) noexcept
        {
            _M_next = p;
            _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept
        {
            _M_next->_M_prev = _M_prev;
            _M_prev->_M_next = _M_next;
        }
        void _List_node_base::_M_transfer(_List_node_base * const first, _List_node_base * const last) noexcept
        {
            if (this != last) {
                last->_M_prev->_M_next = this;
                first->_M_prev->_M_next = last;
                _M_prev->_M_next = first;
                auto * const tmp = _M_prev;
                _M_prev = last->_M_prev;
                last->_M_prev = first->_M_prev;
                first->_M_prev = tmp;
            }
        }
        void _List_node_base::_M_reverse() noexcept
        {
            auto * t = this;
            do {
                auto * n = t->_M_next;
                t->_M_next = t->_M_prev;
                t->_M_prev = n;
                t = n;
            } while (t != this);
        }
        void _List_node_base::swap(_List_node_base & x, _List_node_base & y) noexcept
        {
            bool xe = x._M_next == &x, ye = y._M_next == &y;
            _List_node_base a = x, b = y;
            if (ye)
                x._M_next = x._M_prev = &x;
            else {
                x = b;
                x._M_next->_M_prev = x._M_prev->_M_next = &x;
            }
            if (xe)
                y._M_next = y._M_prev = &y;
            else {
                y = a;
                y._M_next->_M_prev = y._M_prev->_M_next = &y;
            }
        }
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
        {
            // few buckets: lookups on symbolic keys then have few chains to consider
            size_t r = 1;
            while (r < n)
                r = r * 2 + 1;
            _M_next_resize = (size_t) -1;
            return r;
        }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
    }

    size_t _Hash_bytes(const void * p, size_t n, size_t seed)
    {
        auto * x = (const unsigned char *) p;
        size_t h = seed;
        for (; n; --n, ++x)
            h = h * 31 + *x;
        return h;
    }

    namespace chrono
    {
        inline namespace _V2
        {
            steady_clock::time_point steady_clock::now() noexcept { return {}; }
            system_clock::time_point system_clock::now() noexcept { return {}; }
        }
    }
    template class basic_string<char>;
}
