// The restart schedule: the Luby sequence, scaled.
#include "hutil.h"
#include <gcs/restarts.hh>
#include <vector>
using namespace gcs;
extern "C" void harness_main()
{
    auto scale = (unsigned long long)any("scale");
    // the sequence by its other definition: S(1) = 1; S(k+1) = S(k) S(k) 2^k
    std::vector<unsigned long long> s{1};
    for (unsigned k = 1; s.size() < TERMS; ++k) {
        auto t = s;
        s.insert(s.end(), t.begin(), t.end());
        s.push_back(1ull << k);
    }
    auto r = RestartSchedule::luby(scale), other = RestartSchedule::luby();
    for (unsigned i = 0; i < TERMS; ++i) {
        symx_assert(r.current_cutoff() == s[i] * scale, "each cutoff is the next Luby term, scaled");
        symx_assert(r.current_cutoff() == s[i] * scale, "asking for a cutoff does not advance");
        r.advance();
    }
    symx_assert(other.current_cutoff() == 100, "schedules are independent, with a default scale of 100");
    symx_reach("done");
}
