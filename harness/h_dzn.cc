// The dzn reader: what the text says, or an error.
#include "streams.h"
#include <examples/dzn.hh>
typedef std::vector<ll> V;
namespace
{
    bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
    // the text as an integer: an optional sign and digits
    bool number(const std::string & t, ll & v)
    {
        size_t i = ! t.empty() && (t[0] == '-' || t[0] == '+');
        if (i == t.size())
            return false;
        i128 x = 0;
        for (size_t k = i; k < t.size(); ++k) {
            if (t[k] < '0' || t[k] > '9')
                return false;
            x = x * 10 + (t[k] - '0');
            if (x > ((i128)1 << 70))
                return false;
        }
        if (t[0] == '-')
            x = -x;
        v = (ll)x;
        return fits(x);
    }
    // How a list of numbers reads: 0 when it must be refused, 1 when it is fine, and otherwise it is malformed in a way the
    // reader is known to let through: 2, fine but for a last number that is a lone sign or too large; 4, fine but for
    // numbers run together, such as 1-2; 6, both.
    int numbers(const std::string & t, const std::string & separators, V & out)
    {
        int r = 1;
        bool last = false;
        for (size_t i = 0; i < t.size();) {
            if (space(t[i]) || separators.find(t[i]) != std::string::npos) {
                ++i;
                continue;
            }
            if (last)
                return 0; // there is something after the number that was not one
            if (i && ! space(t[i - 1]) && separators.find(t[i - 1]) == std::string::npos)
                r |= 4;
            size_t j = i + (t[i] == '-' || t[i] == '+');
            while (j < t.size() && t[j] >= '0' && t[j] <= '9')
                ++j;
            ll v;
            if (j == i)
                return 0;
            if (! number(t.substr(i, j - i), v)) {
                last = true;
                r |= 2;
            }
            else
                out.push_back(v);
            i = j;
        }
        return r > 1 ? r & 6 : 1;
    }
    void listed(int r, bool refused)
    {
        if (r & 4)
            symx_known(refused, "numbers run together in a dzn list are taken apart");
        else
            symx_known(refused, "a lone sign or a number too large at the end of a dzn list is dropped");
        symx_stop();
    }
    // a text of pieces out of an alphabet, with a digit of each number free
    std::string pieces(int len, std::initializer_list<const char *> alphabet)
    {
        std::string r;
        std::vector<const char *> a{alphabet};
        for (int i = 0; i < len; ++i)
            for (const char * p = a[choice("piece", 0, (int)a.size() - 1)]; *p; ++p)
                r += *p == '#' ? (char)symx_range("digit", '0', '9') : *p;
        return r;
    }
    std::string trim(const std::string & s)
    {
        size_t i = 0, j = s.size();
        while (i < j && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r'))
            ++i;
        while (j > i && (s[j - 1] == ' ' || s[j - 1] == '\t' || s[j - 1] == '\n' || s[j - 1] == '\r'))
            --j;
        return s.substr(i, j - i);
    }
}
extern "C" void harness_main()
{
#if MODE == 0 // integers and lists of them
    bool list = choice("list", 0, 1);
    std::string t = list ? (choice("wrapped", 0, 1) ? "array1d(1..2,[" : "[") : "";
    int shape = choice("shape", 0, 2);
    std::string body = shape == 0 ? anytext("c", choice("len", 0, LEN)) : shape == 1 ? pieces(choice("pieces", 0, LEN), {"#", "-", ", ", "1#", "|", "x"}) : "99999999999999999";
    if (shape == 2)
        body = (choice("negative", 0, 1) ? "-92233720368547758" : "92233720368547758") + pieces(choice("digits", 1, 4), {"#"}) + pieces(list ? 1 : 0, {"", " 5"});
    for (char c : body)
        symx_assume((c != '[') & (c != ']'));
    t += body + (list ? "]" : "");
    dzn::Data d{"p", {{"x", t}, {"y", "1"}}};
    symx_assert(d.contains("x") && ! d.contains("z") && d.path() == "p", "a definition is there under its name");
    symx_assert(throws<std::runtime_error>([&] { (void)d.integer("z"); }) && throws<std::runtime_error>([&] { (void)d.integers("z"); }), "asking for what is not defined is an error");
    V want, got;
    int parsed = numbers(body, list ? ",|" : "", want);
    bool ok = parsed == 1 && (list || want.size() == 1);
    bool refused = throws<std::runtime_error>([&] {
        if (list)
            got = d.integers("x");
        else
            got.push_back(d.integer("x"));
    });
    if (list && parsed > 1)
        listed(parsed, refused);
    symx_assert(refused == ! ok, "text is refused exactly when it is not what was asked for");
    if (! refused) {
        symx_reach("read");
        symx_assert(got == want, "every number is read, in order");
    }
    if (! list)
        symx_assert(throws<std::runtime_error>([&] { (void)d.integers("x"); }), "what is not an array is not read as one");
#elif MODE == 1 // Booleans
    std::string body;
    std::vector<bool> want;
    bool ok = true;
    int n = choice("entries", 0, 3);
    for (int i = 0; i < n; ++i) {
        static const char * w[] = {"true", "false", "1", "0", "tru?", "?"};
        int k = choice("word", 0, 5);
        std::string word = w[k];
        for (auto & c : word)
            if (c == '?')
                c = (char)symx_range("c", 33, 126);
        symx_assume((word.find(',') == std::string::npos) & (word.find('[') == std::string::npos) & (word.find(']') == std::string::npos));
        if (word == "true" || word == "1")
            want.push_back(true);
        else if (word == "false" || word == "0")
            want.push_back(false);
        else
            ok = false;
        body += (i ? choice("comma", 0, 1) ? ", " : "\n" : "") + word;
    }
    dzn::Data d{"p", {{"x", "[" + body + "]"}}};
    std::vector<bool> got;
    bool refused = throws<std::runtime_error>([&] { got = d.bools("x"); });
    symx_assert(refused == ! ok, "text is refused exactly when it is not what was asked for");
    if (! refused) {
        symx_reach("read");
        symx_assert(got == want, "every Boolean is read, in order");
    }
#elif MODE == 2 // matrices
    std::string body = choice("bar", 0, 1) ? "|" : " |";
    if (choice("missing", 0, 1))
        body = "";
    std::string rest = choice("raw", 0, 1) ? anytext("c", choice("len", 0, LEN - 1)) : pieces(choice("pieces", 0, LEN), {"#", ",", "|", " ", "-1"});
    for (char c : rest)
        symx_assume((c != '[') & (c != ']'));
    body += rest;
    dzn::Data d{"p", {{"x", "[" + body + "]"}}};
    size_t first = 0;
    while (first < body.size() && (body[first] == ' ' || body[first] == '\t' || body[first] == '\n' || body[first] == '\r'))
        ++first;
    bool ok = first < body.size() && body[first] == '|';
    std::vector<V> want, got;
    int odd = 0;
    if (ok) {
        std::string row;
        for (size_t i = 0; i <= body.size() && ok; ++i)
            if (i == body.size() || body[i] == '|') {
                if (! trim(row).empty()) {
                    want.emplace_back();
                    int r = numbers(row, ",", want.back());
                    odd |= r & 6;
                    ok = r && (odd || want.back().size() == want.front().size());
                }
                row.clear();
            }
            else
                row += body[i];
    }
    bool refused = throws<std::runtime_error>([&] { got = d.matrix("x"); });
    if (ok && odd)
        listed(odd, refused);
    symx_assert(refused == ! ok, "text is refused exactly when it is not what was asked for");
    if (! refused) {
        symx_reach("read");
        symx_assert(got == want, "every row is read, in order");
    }
#elif MODE == 3 // sets
    std::string body = choice("raw", 0, 1) ? anytext("c", choice("len", 0, LEN - 2)) : pieces(choice("pieces", 0, LEN), {"{", "}", "#", ",", "x", "{1, #}"});
    for (char c : body)
        symx_assume((c != '[') & (c != ']'));
    dzn::Data d{"p", {{"x", "[" + body + "]"}}};
    std::vector<V> want, got;
    bool ok = true, in = false;
    int odd = 0;
    std::string cur;
    for (char c : body)
        if (in && c == '}') {
            want.emplace_back();
            int r = numbers(cur, ",", want.back());
            odd |= r & 6;
            ok &= r != 0;
            in = false;
        }
        else if (in)
            cur += c;
        else if (c == '{') {
            in = true;
            cur.clear();
        }
        else
            ok &= c == ',' || space(c);
    ok &= ! in;
    bool refused = throws<std::runtime_error>([&] { got = d.sets("x"); });
    if (ok && odd)
        listed(odd, refused);
    symx_assert(refused == ! ok, "text is refused exactly when it is not what was asked for");
    if (! refused) {
        symx_reach("read");
        symx_assert(got == want, "every set is read, in order");
    }
#else // files
    std::string text = choice("raw", 0, 1) ? anytext("c", choice("len", 0, LEN - 2)) : pieces(choice("pieces", 0, LEN), {"a", "=", ";", "%", "\n", " "});
    std::symx_file = text;
    std::symx_file_there = choice("there", 0, 1);
    std::string clean, st;
    bool comment = false;
    for (char c : text) {
        if (c == '\n')
            comment = false;
        if (c == '%')
            comment = true;
        if (! comment)
            clean += c;
    }
    clean += ';';
    std::map<std::string, std::string> want;
    bool ok = std::symx_file_there;
    for (char c : clean)
        if (c == ';') {
            auto eq = st.find('=');
            if (eq != std::string::npos && ! trim(st.substr(0, eq)).empty())
                ok &= want.emplace(trim(st.substr(0, eq)), trim(st.substr(eq + 1))).second;
            st.clear();
        }
        else
            st += c;
    std::optional<dzn::Data> d;
    bool refused = throws<std::runtime_error>([&] { d = dzn::read("p"); });
    symx_assert(refused == ! ok, "a file is refused exactly when it is missing or defines a name twice");
    if (refused)
        symx_stop();
    symx_reach("read");
    for (auto & [k, v] : want) {
        symx_assert(d->contains(k), "every definition is there");
        V w, g;
        bool num = numbers(v, "", w) == 1 && w.size() == 1;
        bool r = throws<std::runtime_error>([&] { g.push_back(d->integer(k)); });
        symx_assert(r == ! num && (r || g == w), "a definition has its own value");
    }
    if (! want.contains("a"))
        symx_assert(! d->contains("a"), "what is commented out or not defined is not there");
#endif
}
