// The instance readers of the examples: the instance the file describes, or an error.
#include "streams.h"
#include <examples/p_dispersion/p_dispersion_instance.hh>
#include <examples/rcpsp/rcpsp_instance.hh>
#include <examples/table_layout/table_layout_instance.hh>
typedef std::vector<ll> V;
namespace
{
    struct Text
    {
        std::string s;
        V vals;
        bool sep = false;
        void num(const char * name, bool signs = false, int lo = 0, int hi = 9) // one arbitrary digit, perhaps negated
        {
            if (sep)
                s += ' ';
            sep = true;
            ll neg = signs ? choice("negative", 0, 1) : 0;
            ll d = symx_range(name, lo, hi);
            if (neg)
                s += '-';
            s += (char)('0' + d);
            vals.push_back(neg ? -d : d);
        }
        void lit(const char * t, ll v)
        {
            if (sep)
                s += ' ';
            sep = true;
            s += t;
            vals.push_back(v);
        }
    };
    struct Bad
    {
    };
    struct Reader
    {
        const V & v;
        size_t at = 0;
        ll next()
        {
            if (at >= v.size())
                throw Bad{};
            return v[at++];
        }
    };
    void need(bool c)
    {
        if (! c)
            throw Bad{};
    }
    static const char * big[] = {"1", "2", "4294967298", "-4294967294", "99999999999999999999"};
    static const ll bigv[] = {1, 2, 4294967298ll, -4294967294ll, 0};
    bool beyond(int b) { return b == 2 || b == 3; }
}
extern "C" void harness_main()
{
#if MODE == 0 // .sch
    using namespace rcpsp;
    // the header: activities, resources, perhaps more
    static const char * counts[] = {"1", "0", "-1", "1000001", "x"};
    static const ll countv[] = {1, 0, -1, 1000001, 0};
    int nk = choice("activities", 0, 4);
    int g = choice("resources", 0, 1);
    std::string head = choice("blank", 0, 1) ? "\n \t\n" : "";
    head += counts[nk];
    head += g ? "\t1" : "  0";
    int extra = choice("extra", 0, 3);
    V ex;
    for (int i = 0; i < extra; ++i) {
        ll d = symx_range("field", 0, 9);
        ex.push_back(d);
        head += ' ';
        head += (char)('0' + d);
    }
    Text t;
    const int n = 3;
    int oddtarget = nk || extra ? 0 : choice("odd", 0, 8); // one number out of the ordinary, somewhere
    int arcs = 0;
    bool truncated = false;
    auto index = [&](const char * what, int i) {
        if (oddtarget == 1)
            t.num(what);
        else
            t.lit(i == 0 ? "0" : i == 1 ? "1" : "2", i);
    };
    auto mode = [&]() {
        if (oddtarget == 2)
            t.num("modes");
        else
            t.lit("1", 1);
    };
    for (int i = 0; i < n; ++i) {
        index("index", i);
        mode();
        int s = nk ? 0 : choice("arcs", 0, i == 0 ? 2 : 1);
        static const char * sn[] = {"0", "1", "2"};
        if (oddtarget == 3 && i == 2)
            t.lit(choice("count", 0, 1) ? "-1" : "4", LMIN), t.vals.back() = t.s.back() == '4' ? 4 : -1;
        else
            t.lit(sn[s], s);
        for (int k = 0; k < s; ++k) {
            ++arcs;
            if (oddtarget == 4 && arcs == 1) {
                int b = choice("target", 0, 4);
                if (b == 4)
                    t.lit(big[4], 0), t.vals.resize(t.vals.size() - 1), t.vals.push_back(LMIN);
                else
                    t.lit(big[b], bigv[b]);
                truncated = beyond(b);
            }
            else if (oddtarget == 5)
                t.num("target", true);
            else
                t.lit(k ? "0" : "2", k ? 0 : 2);
        }
        for (int k = 0; k < s; ++k) {
            t.s += choice("tight", 0, 1) ? " [" : "[ ";
            t.sep = false;
            t.num("weight", true);
            t.s += ']';
            t.sep = false;
        }
        t.sep = true;
        t.s += '\n';
        t.sep = false;
    }
    for (int i = 0; i < n; ++i) {
        index("index", i);
        mode();
        t.num("duration", oddtarget == 6);
        for (int k = 0; k < g; ++k)
            t.num("demand");
        t.s += '\n';
        t.sep = false;
    }
    for (int k = 0; k < g; ++k)
        t.num("capacity", oddtarget == 7);
    if (oddtarget == 8) { // cut short
        size_t p = t.s.size();
        while (p && (t.s[p - 1] < '0' || t.s[p - 1] > '9'))
            --p;
        if (p) {
            t.s = t.s.substr(0, p - 1) + (choice("junk", 0, 1) ? "x" : "");
            t.vals.pop_back();
        }
    }
    // the meaning
    bool ok = true;
    struct L { ll f, t, d; };
    std::vector<L> lags;
    V dur, dem, cap;
    try {
        need(nk != 4 && countv[nk] > 0 && countv[nk] <= 1000000 && extra <= 2);
        for (ll e : ex)
            need(e == 0);
        Reader r{t.vals};
        for (int i = 0; i < n; ++i) {
            need(r.next() == i && r.next() == 1);
            ll s = r.next();
            need(s >= 0 && s <= n);
            V to;
            for (ll k = 0; k < s; ++k) {
                to.push_back(r.next());
                need(to.back() >= 0 && to.back() < n);
            }
            for (ll k = 0; k < s; ++k)
                lags.push_back({i, to[k], r.next()});
        }
        for (int i = 0; i < n; ++i) {
            need(r.next() == i && r.next() == 1);
            dur.push_back(r.next());
            for (int k = 0; k < g; ++k)
                dem.push_back(r.next());
        }
        for (int k = 0; k < g; ++k)
            cap.push_back(r.next());
        for (ll d : dur)
            need(d >= 0);
        for (ll c : cap)
            need(c >= 0);
    }
    catch (const Bad &) {
        ok = false;
    }
    std::istream in{head + "\n" + t.s};
    Instance inst;
    bool refused = throws<std::runtime_error>([&] { inst = read_sch_stream(in, "d"); });
    if (truncated) {
        symx_known(refused, "an activity number beyond the range of int in a .sch file is truncated");
        symx_stop();
    }
    symx_assert(refused == ! ok, "a file is refused exactly when it is malformed");
    if (refused)
        symx_stop();
    symx_reach("read");
    symx_assert(inst.n_tasks == n && inst.source_task && *inst.source_task == 0 && inst.precedences.empty() && inst.machine_tasks.empty() && inst.description == "d", "the activities are there");
    symx_assert(inst.durations.size() == n && inst.capacities.size() == (size_t)g && inst.demands.size() == (size_t)g && inst.lags.size() == lags.size(), "everything in the file is there");
    for (int i = 0; i < n; ++i) {
        symx_assert(inst.durations[i].raw_value == dur[i], "durations are as written");
        if (g)
            symx_assert(inst.demands[0].size() == n && inst.demands[0][i].raw_value == dem[i], "demands are as written");
    }
    if (g)
        symx_assert(inst.capacities[0].raw_value == cap[0], "capacities are as written");
    bool anyneg = false;
    for (size_t i = 0; i < lags.size(); ++i) {
        symx_assert((inst.lags[i].from == lags[i].f) & (inst.lags[i].to == lags[i].t) & (inst.lags[i].d.raw_value == lags[i].d), "time lags are as written");
        anyneg |= lags[i].d < 0;
    }
    symx_assert(has_maximum_lags(inst) == anyneg, "maximum lags are noticed");
#elif MODE == 1 // rcpsp .dzn
    using namespace rcpsp;
    int odd = choice("odd", 0, 10);
    int n = 2, nres = choice("resources", 1, 2);
    std::string f;
    bool ok = true;
    int bn = odd == 1 ? choice("tasks", 0, 3) : 1;
    f += std::string("n_tasks = ") + big[bn] + ";\n";
    ok &= bigv[bn] == n;
    bool truncated = beyond(bn);
    int bnr = odd == 2 ? choice("resource count", 0, 3) : nres - 1;
    f += std::string("n_res=") + big[bnr] + ";";
    ok &= bigv[bnr] == nres;
    V rc, d, rr;
    auto list = [&](const char * name, V & out, int size, bool neg, ll least) {
        f += std::string(name) + " = [";
        for (int i = 0; i < size; ++i) {
            ll ng = neg ? choice("negative", 0, 1) : 0, x = symx_range(name, 0, 9);
            f += i ? ", " : "";
            f += ng ? "-" : "";
            f += (char)('0' + x);
            out.push_back(ng ? -x : x);
            if (out.back() < least)
                ok = false;
        }
        f += "];\n";
    };
    list("rc", rc, odd == 3 ? choice("caps", 0, 3) : nres, false, -100);
    ok &= (int)rc.size() == nres;
    list("d", d, odd == 4 ? choice("durs", 1, 3) : n, odd == 4, 1);
    ok &= (int)d.size() == n;
    f += "rr = [|";
    int rows = odd == 5 ? choice("rows", 0, 3) : nres, cols = odd == 6 ? choice("cols", 1, 3) : n;
    for (int r = 0; r < rows; ++r) {
        for (int i = 0; i < cols; ++i) {
            ll ng = odd == 7 ? choice("negative", 0, 1) : 0, x = symx_range("demand", 0, 9);
            f += i ? "," : " ";
            f += ng ? "-" : "";
            f += (char)('0' + x);
            rr.push_back(ng ? -x : x);
            if (ng && x)
                ok = false;
        }
        f += " |";
    }
    f += "];\n";
    ok &= rows == nres && cols == n;
    f += "suc = [";
    int sets = odd == 8 ? choice("sets", 1, 3) : n;
    ok &= sets == n;
    std::vector<std::pair<ll, ll>> prec;
    for (int i = 0; i < sets; ++i) {
        f += i ? ", {" : "{";
        int k = choice("successors", 0, i ? 1 : 2);
        for (int j = 0; j < k; ++j) {
            f += j ? "," : "";
            ll v;
            if (odd == 9 && j == 0) {
                int b = choice("successor", 0, 3); // one too large for a long long is A16's
                f += big[b];
                truncated |= beyond(b);
                v = bigv[b];
            }
            else {
                v = symx_range("successor", 0, 9);
                f += (char)('0' + v);
            }
            prec.push_back({i, v - 1});
            if (v - 1 <= i || v > n || v < 1)
                ok = false;
        }
        f += "}";
    }
    f += "];";
    if (odd == 10) { // something missing
        static const char * names[] = {"n_tasks", "n_res", "rc", "d ", "rr", "suc"};
        std::string w = names[choice("missing", 0, 5)];
        f.replace(f.find(w), 1, "q");
        ok = false;
    }
    std::symx_file = f;
    Instance inst;
    bool refused = throws<std::runtime_error>([&] { inst = read_dzn_file("p"); });
    if (truncated) {
        symx_known(refused, "a task count or successor beyond the range of int in an rcpsp data file is truncated");
        symx_stop();
    }
    symx_assert(refused == ! ok, "a file is refused exactly when it is malformed");
    if (refused)
        symx_stop();
    symx_reach("read");
    symx_assert(inst.n_tasks == n && ! inst.source_task && inst.machine_tasks.empty() && inst.lags.empty(), "the tasks are there");
    symx_assert(inst.durations.size() == (size_t)n && inst.capacities.size() == (size_t)nres && inst.demands.size() == (size_t)nres && inst.precedences.size() == prec.size(), "everything in the file is there");
    for (int i = 0; i < n; ++i) {
        symx_assert(inst.durations[i].raw_value == d[i], "durations are as written");
        for (int r = 0; r < nres; ++r)
            symx_assert(inst.demands[r].size() == (size_t)n && inst.demands[r][i].raw_value == rr[r * n + i], "demands are as written");
    }
    for (int r = 0; r < nres; ++r)
        symx_assert(inst.capacities[r].raw_value == rc[r], "capacities are as written");
    for (size_t i = 0; i < prec.size(); ++i)
        symx_assert((inst.precedences[i].first == prec[i].first) & (inst.precedences[i].second == prec[i].second), "precedences are as written");
#elif MODE == 2 // table layout
    using namespace table_layout;
    int odd = choice("odd", 0, 4);
    int dims[3] = {choice("rows", 1, 2), choice("cols", 1, 2), choice("configurations", 1, 2)};
    std::string f;
    bool ok = true;
    bool truncated = false;
    static const char * names[] = {"rows", "cols", "maxconfig"};
    for (int i = 0; i < 3; ++i) {
        int b = odd == i + 1 ? choice("dimension", 0, 3) : dims[i] - 1;
        f += std::string(names[i]) + " = " + big[b] + ";\n";
        ok &= bigv[b] == dims[i];
        truncated |= beyond(b);
    }
    ll pw = symx_range("pixelwidth", 0, 9);
    f += std::string("pixelwidth=") + (char)('0' + pw) + ";";
    V val[2];
    size_t total = dims[0] * dims[1] * dims[2];
    for (int k = 0; k < 2; ++k) {
        f += std::string(k ? "height" : "width") + " = array3d(ROWS,COLS,CONFIGS,[";
        size_t m = odd == 4 ? total - 1 + choice("entries", 0, 2) : total;
        ok &= m == total;
        for (size_t i = 0; i < m; ++i) {
            ll x = symx_range("pixels", 0, 8);
            bool neg = i + 1 == total && choice("padding", 0, 1);
            f += i ? ", " : "";
            f += neg ? "-" : "";
            f += (char)('1' + x);
            val[k].push_back(neg ? -x - 1 : x + 1);
        }
        f += "]);\n";
    }
    std::symx_file = f;
    Instance inst;
    bool refused = throws<std::runtime_error>([&] { inst = read_dzn("p"); });
    if (truncated) {
        symx_known(refused, "a dimension beyond the range of int in a table layout file is truncated");
        symx_stop();
    }
    symx_assert(refused == ! ok, "a file is refused exactly when it is malformed");
    if (refused)
        symx_stop();
    symx_reach("read");
    symx_assert(inst.rows == dims[0] && inst.cols == dims[1] && inst.maxconfig == dims[2] && inst.pixelwidth == pw, "dimensions are as written");
    bool empty = false;
    ll minw = 100, maxw = -1, minh = 100, maxh = -1;
    size_t at = 0;
    for (int r = 0; r < dims[0]; ++r)
        for (int c = 0; c < dims[1]; ++c) {
            std::vector<std::tuple<long, long, long>> want;
            for (int l = 0; l < dims[2]; ++l, ++at) {
                symx_assert((inst.width[r][c][l] == val[0][at]) & (inst.height[r][c][l] == val[1][at]), "cell sizes are as written");
                if (val[0][at] >= 0 && val[1][at] >= 0) {
                    want.emplace_back(l + 1, val[0][at], val[1][at]);
                    minw = std::min(minw, val[0][at]);
                    maxw = std::max(maxw, val[0][at]);
                    minh = std::min(minh, val[1][at]);
                    maxh = std::max(maxh, val[1][at]);
                }
            }
            symx_assert(legal_configurations(inst, r, c) == want, "exactly the unpadded configurations are legal");
            empty |= want.empty();
        }
    Extents e;
    bool none = throws<std::runtime_error>([&] { e = extents(inst); });
    symx_assert(none == empty, "a cell without configurations is refused");
    if (! none)
        symx_assert(e.min_width == minw && e.max_width == maxw && e.min_height == minh && e.max_height == maxh, "the extents are the smallest and largest sizes");
#else // p-dispersion
    using namespace p_dispersion;
    int odd = choice("odd", 0, 5);
    static const char * heads[] = {"3 2", "3", "3 3", "2 2", "1 5", "0 1", "-2 1", "x", "100000 2", "3 4294967"};
    static const ll hn[] = {3, 3, 3, 2, 1, 0, -2, 0, 100000, 3}, hp[] = {2, -1, 3, 2, 5, 1, 1, 0, 2, 4294967};
    int h = choice("header", 0, 9);
    ll n = hn[h], p = hp[h];
    bool ok = n > 0 && n < 1000;
    Text t;
    int sites = ok ? n : 2;
    ll ids[3];
    bool free = odd == 1;
    for (int i = 0; i < 3; ++i)
        ids[i] = free ? 0 : i * 3 + 1; // scattered
    std::vector<std::array<ll, 3>> tri;
    for (int i = 0; i < sites; ++i)
        for (int j = i + 1; j < sites; ++j) {
            bool flip = choice("flip", 0, odd == 0 ? 1 : 0);
            if (free) {
                t.num("site", false, 1, 3);
                t.num("site", false, 1, 3);
            }
            else {
                static const char * idn[] = {"1", "4", "7"};
                t.lit(idn[flip ? j : i], ids[flip ? j : i]);
                t.lit(idn[flip ? i : j], ids[flip ? i : j]);
            }
            if (odd == 5)
                t.num("distance", false, 7, 8);
            else
                t.lit("8", 8);
            t.s += '\n';
            t.sep = false;
            size_t s = t.vals.size();
            tri.push_back({t.vals[s - 3], t.vals[s - 2], t.vals[s - 1]});
        }
    // then perhaps requirements or coordinates
    int blocks = choice("blocks", 0, free ? 0 : 3); // 0, 1, 2 or 3 triples
    for (int b = 0; b < blocks; ++b) {
        if (odd == 2) {
            t.num("position", true, 0, 3);
            t.num("position", false, 0, 3);
        }
        else {
            t.lit(b == 2 ? "1" : "0", b == 2);
            t.lit(b ? "2" : "1", b ? 2 : 1);
        }
        t.num("requirement", false, 1, b ? 1 : 2);
        t.s += '\n';
        t.sep = false;
    }
    if (odd == 3)
        t.num("more", false, 1, 2);
    if (odd == 4 && ! t.s.empty()) {
        size_t q = t.s.size();
        while (q && (t.s[q - 1] < '0' || t.s[q - 1] > '9'))
            --q;
        if (q) {
            t.s = t.s.substr(0, q - 1);
            t.vals.pop_back();
        }
    }
    std::vector<ll> seen;
    std::vector<std::pair<ll, ll>> pairs;
    size_t np = ok ? n * (n - 1) / 2 : 0;
    ok = ok && t.vals.size() >= np * 3;
    if (ok) {
        for (size_t k = 0; k < np; ++k) {
            ll a = tri[k][0], b = tri[k][1];
            if (a == b) {
                ok = false;
                break;
            }
            if (std::find(seen.begin(), seen.end(), a) == seen.end())
                seen.push_back(a);
            if (std::find(seen.begin(), seen.end(), b) == seen.end())
                seen.push_back(b);
            std::pair<ll, ll> pr{a < b ? a : b, a < b ? b : a};
            if (std::find(pairs.begin(), pairs.end(), pr) == pairs.end())
                pairs.push_back(pr);
        }
        ok = ok && (ll)seen.size() == n && pairs.size() == np;
    }
    bool reqs = false;
    if (ok && p >= 2 && p < 1000 && t.vals.size() == np * 3 + p * (p - 1) / 2 * 3) {
        reqs = true;
        for (ll k = 0; k < p * (p - 1) / 2; ++k)
            for (int e = 0; e < 2; ++e)
                if (t.vals[np * 3 + 3 * k + e] < 0 || t.vals[np * 3 + 3 * k + e] >= p)
                    ok = false;
    }
    std::istream in{std::string(choice("blank", 0, odd == 5) ? "  \n" : "") + heads[h] + "\n" + t.s};
    Instance inst;
    bool refused = throws<std::runtime_error>([&] { inst = read_instance_stream(in, "d"); });
    symx_assert(refused == ! ok, "a file is refused exactly when it is malformed");
    if (refused)
        symx_stop();
    symx_reach("read");
    symx_assert(inst.n == n && inst.distance.size() == (size_t)n, "the sites are there");
    std::sort(seen.begin(), seen.end());
    auto at = [&](ll id) { return std::find(seen.begin(), seen.end(), id) - seen.begin(); };
    ll most = 0;
    for (size_t k = 0; k < np; ++k) {
        ll d = tri[k][2];
        most = std::max(most, d);
        symx_assert((inst.distance[at(tri[k][0])][at(tri[k][1])].raw_value == d) & (inst.distance[at(tri[k][1])][at(tri[k][0])].raw_value == d), "distances are as written, and symmetric");
    }
    for (ll i = 0; i < n; ++i)
        symx_assert(inst.distance[i].size() == (size_t)n && inst.distance[i][i].raw_value == 0, "a site is at no distance from itself");
    symx_assert(max_distance(inst).raw_value == most, "the largest distance is found");
    symx_assert(inst.p.has_value() == reqs && (! reqs || *inst.p == p), "requirements are there exactly when the file has them");
    if (reqs) {
        symx_reach("requirements");
        std::vector<V> want(p, V(p, -1));
        for (ll k = 0; k < p * (p - 1) / 2; ++k) {
            ll i = symx_concretize(t.vals[np * 3 + 3 * k]), j = symx_concretize(t.vals[np * 3 + 3 * k + 1]);
            want[i][j] = want[j][i] = t.vals[np * 3 + 3 * k + 2];
        }
        for (ll i = 0; i < p; ++i)
            for (ll j = 0; j < p; ++j)
                symx_assert(inst.reqs[i][j] == want[i][j], "requirements are as written");
    }
    else
        symx_assert(inst.reqs.empty(), "no requirements are invented");
#endif
}
