// Optional task presence: absent or constant 1 is always present, constant 0 never, others are refused.
#include "hutil.h"
#include <gcs/constraints/innards/task_presence.hh>
#include <gcs/exception.hh>
using namespace gcs;
using namespace gcs::innards;
extern "C" void harness_main()
{
    ll c = any("c");
    int kind = choice("kind", 0, 3);
    std::optional<IntegerVariableID> given;
    SimpleIntegerVariableID s{(unsigned long long)any("index")};
    if (kind == 1)
        given = s;
    if (kind == 2)
        given = ViewOfIntegerVariableID{s, (bool)choice("negated", 0, 1), Integer{c}};
    if (kind == 3)
        given = ConstantIntegerVariableID{Integer{c}};
    std::optional<TaskPresence> p;
    bool refused = throws<InvalidProblemDefinitionException>([&] { p = task_presence(given, "X"); });
    symx_assert(refused == (kind == 3 && c != 0 && c != 1), "a constant presence outside {0, 1} is refused");
    if (refused)
        symx_stop();
    symx_reach("accepted");
    bool always = kind == 0 || (kind == 3 && c == 1), never = kind == 3 && c == 0;
    symx_assert(p->never_present == never, "a task is never present exactly when its presence is the constant 0");
    symx_assert(p->literal.has_value() == ! always, "a task without a condition is always present");
    if (p->literal)
        symx_assert(*p->literal == *given, "the presence is the one given");
}
