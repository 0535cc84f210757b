// Distribution of positional values.
#include "cmdline.hpp"
#include <algorithm>
#include <climits>
using namespace vf;

namespace
{
    // Arguments with many values, around the limits
    void many_values(Ctx& ctx, const Profile& p, CmdCase& c)
    {
        Rng& rng = ctx.rng;
        c.spec = gen_spec(rng, p);
        c.args = gen_args(rng, c.spec, p);
        auto& args = c.spec.root.args;
        if (args.empty()) return;
        const auto number = [&]
        {
            if (rng.chance(0.4)) return unsigned(rng.range(0, 4));
            const auto n = rng.chance(0.1) ? rng.pick({32768u, 65536u}) : rng.pick({64u, 128u, 256u, 500u, 1000u, 1024u, 4096u});
            return unsigned(int(n) + rng.range(-2, 2));
        };
        size_t lo = 0, hi = 0;
        for (auto& a : args)
        {
            const auto m = number(), n = number();
            a.min = std::min(m, n);
            a.max = std::max({m, n, 1u});
            if (rng.chance(0.15)) a.max = rng.pick({UINT_MAX, UINT_MAX - 1, unsigned(INT_MAX), unsigned(INT_MAX) + 1});
            lo += a.min;
            hi += a.max;
            if (a.min >= 64) ctx.count("large_minimums");
        }
        hi = std::min<size_t>(hi, lo + 5000);
        size_t n = rng.pick({lo, hi, lo + rng.below(hi - lo + 1), lo + args[0].max - args[0].min});
        n = std::min<size_t>(n, 80000) + rng.below(3);
        n -= std::min<size_t>(n, rng.below(4));
        // Some before what's there, between and after
        std::vector<std::string> result;
        size_t used = 0;
        for (auto& a : c.args)
        {
            const size_t k = rng.chance(0.3) ? rng.below(n - used + 1) : 0;
            for (size_t i = 0; i < k; ++i) result.push_back(cat("v", used++));
            result.push_back(a);
        }
        while (used < n) result.push_back(cat("v", used++));
        c.args = std::move(result);
        ctx.count("many_values");
    }

    void run(Ctx& ctx)
    {
        Profile p;
        p.abbrev = p.ci = 0.1;
        p.ignore_opts = 0.1;
        p.ignore_args = 0.15;
        p.min_args = 1;
        p.max_args = 5;
        p.arg_variable = 0.75;
        p.arg_alias = 0.0;
        p.alias = 0;
        p.initial = 0;
        p.mandatory = 0;
        p.commands = 0.2;
        p.special_type = 0.2;
        p.count_ok = 0.75;
        p.mutate = 0.15;
        p.unknown = 0.05;
        CmdCase c;
        if (ctx.rng.chance(0.004))
        {
            p.commands = 0;
            p.max_args = 4;
            p.mutate = 0;
            many_values(ctx, p, c);
            if (!predict(ctx, c))
                return;
            c.real = run_parse(c.spec, c.args);
            expect_outcome(ctx, "outcome", c.model, c.real);
        }
        else if (!model_case(ctx, p, c))
            return;
        // Without the model: on success the values of the arguments are, in
        // order, a partition of the values that weren't ignored, and each
        // argument has a legal number of them.
        if (c.real.root.code != ParserResultCode::SUCCESS)
            return;
        std::function<void(const Node&)> visit = [&](const Node& n)
        {
            auto cmd = find_command_by_id(c.spec.root, n.cmd_id);
            bool partial = false;
            for (auto& a : cmd->args)
            {
                const auto& vals = n.values.at(a.name);
                ctx.check(vals.size() >= a.min && vals.size() <= a.max, "illegal-number-of-values",
                          [&] { return cat(a.name, " has ", vals.size()); });
                if (vals.size() > a.min)
                {
                    ctx.count("arguments_above_minimum");
                    ctx.check(!partial, "later-argument-got-values-first", [&] { return a.name; });
                }
                if (vals.size() < a.max && a.min != a.max)
                    partial = true;
                if (vals.empty())
                    ctx.count("optional_arguments_without_value");
            }
            for (auto& s : n.subs) visit(s);
        };
        visit(c.real.root);
        ctx.nontrivial = c.model.stats.contains("positionals");
    }
}

const Property vf::property = {
    "C07",
    "A case is a random parser with up to five arguments per command, with fixed, optional, bounded and "
    "unbounded counts, and a command line with positional values anywhere among options. Each argument must "
    "get the values the reference model gives it, also if there are thousands; on success each has a legal number of values and no argument "
    "is above its minimum if an earlier one is below its maximum. Non-trivial: positional values were "
    "distributed on an accepted command line.",
    run,
    {"positionals", "arguments_above_minimum", "optional_arguments_without_value", "many_values", "large_minimums", "outcome_success",
     "error_too-few", "error_too-many"}};
