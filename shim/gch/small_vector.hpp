// Stand-in for the third-party gch::small_vector (not available offline): the same
// interface on top of std::vector. The container itself is trusted, not verified.
#ifndef VERIF_SHIM_GCH_SMALL_VECTOR_HPP
#define VERIF_SHIM_GCH_SMALL_VECTOR_HPP
#include <cstddef>
#include <vector>
namespace gch
{
    template <typename T, unsigned N = 4, typename A = std::allocator<T>>
    struct small_vector : std::vector<T, A>
    {
        using base = std::vector<T, A>;
        using base::base;
        small_vector() = default;
        small_vector(const small_vector &) = default;
        small_vector(small_vector &&) = default;
        small_vector & operator=(const small_vector &) = default;
        small_vector & operator=(small_vector &&) = default;
        using base::operator=;
        auto append(const small_vector & o) -> small_vector & { this->insert(this->end(), o.begin(), o.end()); return *this; }
    };
}
#endif
