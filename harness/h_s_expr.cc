// S-expressions: text is parsed or rejected exactly as the grammar says, and what is printed parses back.
#include "hutil.h"
#include <fmt/core.h>
#include <gcs/innards/s_expr.hh>
using namespace gcs::innards;
typedef std::vector<SExpr> L;
static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
// The reference reading: brackets matched with an explicit stack, over characters
static bool reference(const std::string & t, L & out)
{
    std::vector<L> stack(1);
    std::string word;
    auto flush = [&] {
        if (! word.empty())
            stack.back().push_back(SExpr::atom(word));
        word.clear();
    };
    for (char c : t) {
        if (symx_branch(c == '(')) {
            flush();
            stack.emplace_back();
        }
        else if (symx_branch(c == ')')) {
            flush();
            if (stack.size() == 1)
                return false;
            L l = std::move(stack.back());
            stack.pop_back();
            stack.back().push_back(SExpr::list(std::move(l)));
        }
        else if (symx_branch(space(c)))
            flush();
        else
            word += c;
    }
    flush();
    if (stack.size() != 1)
        return false;
    out = std::move(stack.back());
    return true;
}
static bool same(const SExpr & a, const SExpr & b)
{
    if (a.is_atom() != b.is_atom() || a.is_atom() == a.is_list())
        return false;
    if (a.is_atom())
        return a.as_atom().size() == b.as_atom().size() && symx_branch(a.as_atom() == b.as_atom());
    if (a.as_list().size() != b.as_list().size())
        return false;
    for (std::size_t i = 0; i < a.as_list().size(); ++i)
        if (! same(a.as_list()[i], b.as_list()[i]))
            return false;
    return true;
}
static SExpr tree(int depth)
{
    int k = choice("node", 0, depth ? 3 : 1);
    if (k < 2) {
        std::string s = anytext("byte", 1 + k, 33, 126);
        for (char c : s)
            symx_assume((c != '(') & (c != ')'));
        return SExpr::atom(s);
    }
    L l;
    for (int i = 0; i < (k - 2) * 2; ++i)
        l.push_back(tree(depth - 1));
    return SExpr::list(l);
}
extern "C" void harness_main()
{
    if (choice("mode", MODE, MODE) == 0) {
        std::string t = anytext("byte", choice("length", 0, LEN));
        L want, got;
        bool ok = reference(t, want);
        bool refused = throws<SExprParseError>([&] { got = parse_s_expr_seq(t); });
        symx_assert(refused == ! ok, "a text is rejected exactly when its brackets do not match");
        if (! refused) {
            symx_reach("parsed");
            symx_assert(got.size() == want.size(), "the terms of a text are those written");
            for (std::size_t i = 0; i < got.size() && i < want.size(); ++i)
                symx_assert(same(got[i], want[i]), "the terms of a text are those written");
        }
        else
            symx_reach("rejected");
        std::vector<SExpr> one;
        refused = throws<SExprParseError>([&] { one.push_back(parse_s_expr(t)); });
        // a single term: exactly one, although a text with a good first term and unmatched brackets later is bad either way
        symx_assert(refused == ! (ok && want.size() == 1), "a single term is read exactly when there is one");
        if (! refused)
            symx_assert(same(one[0], want[0]), "a single term is the one written");
    }
    else {
        SExpr e = tree(2);
        auto text = fmt::format("{}", e);
        auto back = parse_s_expr(text);
        symx_assert(same(back, e), "what is printed parses back");
        symx_assert(back == e && ! (back == SExpr::list({e})), "equality is structural");
        if (e.is_list()) {
            auto bare = fmt::format("{:#}", e);
            auto seq = parse_s_expr_seq(bare);
            symx_assert(seq.size() == e.as_list().size() && same(SExpr::list(seq), e), "a list printed bare parses back as its elements");
            symx_assert(text == "(" + bare + ")", "bare printing only drops the brackets");
            symx_assert(throws<SExprParseError>([&] { (void)e.as_atom(); }), "a list is not an atom");
        }
        else
            symx_assert(throws<SExprParseError>([&] { (void)e.as_list(); }), "an atom is not a list");
        symx_reach("round trip");
    }
}
