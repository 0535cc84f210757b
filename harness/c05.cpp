// Option operations, constants and initial values.
#include "cmdline.hpp"
using namespace vf;

namespace
{
    void run(Ctx& ctx)
    {
        Profile p;
        p.abbrev = p.ci = 0.05;
        p.ignore_opts = p.ignore_args = 0;
        p.min_opts = 2;
        p.max_opts = 7;
        p.op_none = 0.1;
        p.op_append = 0.35;
        p.op_clear = 0.2;
        p.alias = 0.6;
        p.initial = 0.35;
        p.has_constant = 0.5;
        p.special_type = 0.03;
        p.mandatory = 0.0;
        p.commands = 0.2;
        p.max_optional_uses = 12;
        p.mutate = 0.08;
        p.unknown = 0.02;
        p.count_ok = 0.97;
        CmdCase c;
        CompareFlags f;
        if (model_case(ctx, p, c, f))
        {
            auto& s = c.model.stats;
            int ops = 0;
            for (int i = 0; i < 4; ++i)
                ops += s.contains(cat("op_", i));
            ctx.nontrivial = ops >= 2;
        }
        // History by history: the values after every step
        auto it = run_iterator(c.spec, c.args);
        if (c.model.unspecified)
            return;
        ctx.count("states_compared", it.events.size());
        for (size_t i = 0; i < std::min(it.events.size(), c.model.events.size()); ++i)
        {
            if (c.model.events[i].kind == 'E')
                break;
            ctx.check(it.events[i] == c.model.events[i], "state-after-step", [&]
            {
                return cat("step ", i, "\nexpected:\n", to_string(c.model.events), "got:\n", to_string(it.events));
            });
        }
    }
}

const Property vf::property = {
    "C05",
    "A case is a random parser whose options assign, append, clear or do nothing, with arguments, constants, "
    "initial values and shared values, and a long history of uses of them. The values of every name after the "
    "whole command line, and after every single step, must equal the reference model's. Non-trivial: at least "
    "two different operations took effect.",
    run,
    {"op_0", "op_1", "op_2", "op_3", "outcome_success", "states_compared"}};
