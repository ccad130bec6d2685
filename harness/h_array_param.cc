// Array parameters: what is given by value is the parameter's own, what is shared or borrowed is the giver's.
#include "hutil.h"
#include <gcs/array_param.hh>
#include <optional>
#include <vector>
using namespace gcs;
typedef std::vector<ll> V;
extern "C" void harness_main()
{
    ll a = any("a"), b = any("b"), c = any("c");
    auto is = [&](const VectorArrayParam<ll> & p, ll x, ll y, const char * m) { symx_assert((*p).size() == 2 && (*p)[0] == x && (*p)[1] == y && p->size() == 2 && p->at(0) == x && p->at(1) == y && &*p == p.operator->(), m); };
    switch (choice("kind", 0, 5)) {
    case 0: {
        V v{a, b};
        VectorArrayParam<ll> p{v};
        v[0] = c;
        v.push_back(1);
        is(p, a, b, "an array given by value is unaffected by its giver");
        symx_assert(&*p != &v, "an array given by value is a copy");
        auto q = p;
        is(q, a, b, "a copied parameter holds the same array");
        symx_assert(&*p == &*q, "copying a parameter does not copy the array");
        break;
    }
    case 1: {
        VectorArrayParam<ll> p{a, b};
        auto q = p;
        is(p, a, b, "a listed array holds its elements");
        is(q, a, b, "a listed array holds its elements");
        break;
    }
    case 2: {
        auto s = std::make_shared<V>(V{a, b});
        std::shared_ptr<const V> sc = s;
        std::optional<VectorArrayParam<ll>> p{VectorArrayParam<ll>{sc}};
        is(*p, a, b, "a shared array is the giver's");
        symx_assert(&**p == s.get() && sc.use_count() == 3, "a shared array is shared, not copied");
        auto raw = s.get();
        s.reset();
        sc.reset();
        is(*p, a, b, "a shared array lives as long as the parameter");
        symx_assert(&**p == raw, "a shared array is shared, not copied");
        break;
    }
    case 3: {
        V v{a, b};
        VectorArrayParam<ll> p{&v};
        symx_assert(&*p == &v, "a borrowed array is not copied");
        v[1] = c;
        is(p, a, c, "a borrowed array is the giver's");
        break;
    }
    case 4: {
        V v{a, b};
        auto d = v.data();
        VectorArrayParam<ll> p{std::move(v)};
        is(p, a, b, "a moved-in array holds its elements");
        symx_assert(p->data() == d, "moving an array in does not copy it");
        break;
    }
    case 5: {
        V v{a, b};
        VectorArrayParam<ll> p{a, a}, q{&v};
        p = q;
        is(p, a, b, "an assigned parameter holds the assigned array");
        p = VectorArrayParam<ll>{b, c};
        is(p, b, c, "an assigned parameter holds the assigned array");
        is(q, a, b, "assigning a parameter leaves others alone");
        break;
    }
    }
    symx_reach("done");
}
