// Slash and dash styles.
#include "cmdline.hpp"
using namespace vf;

namespace
{
    struct Item { const OptSpec* opt; std::string flag; std::string value; bool positional = false; };

    std::vector<std::string> render(Rng& rng, const std::vector<Item>& items)
    {
        std::vector<std::string> out;
        for (auto& it : items)
        {
            if (it.positional)
                out.push_back(it.value);
            else if (it.opt->argument.empty())
                out.push_back(it.flag);
            else if (it.flag.back() == '=')
                out.push_back(it.flag + it.value);
            else if (rng.chance(0.5))
                out.push_back(it.flag + "=" + it.value);
            else
            {
                out.push_back(it.flag);
                out.push_back(it.value);
            }
        }
        return out;
    }

    void spellings(Ctx& ctx, Profile p)
    {
        p.special_type = 0;
        p.min_opts = 2;
        p.ignore_opts = p.ignore_args = 0;
        CmdCase c;
        c.spec = gen_spec(ctx.rng, p);
        // --flag and --flag= are different flags, these aren't spellings of
        // the same thing if there are options for both.
        for (auto& o : c.spec.root.opts)
            for (auto& f : o.flags)
                if (f.size() > 2 && f.back() == '=' && find_option(c.spec.root.opts, f.substr(0, f.size() - 1), false, c.spec.ci))
                    return;
        std::vector<Item> items;
        const int n = ctx.rng.range(1, 7);
        for (int i = 0; i < n; ++i)
        {
            if (ctx.rng.chance(0.2) || c.spec.root.opts.empty())
                items.push_back({nullptr, "", gen_positional(ctx.rng, c.spec.style, true), true});
            else
            {
                auto& o = ctx.rng.pick(c.spec.root.opts);
                auto f = ctx.rng.pick(o.flags);
                if (f.size() == 2 && !o.argument.empty() && f.back() == '=')
                    continue;
                items.push_back({&o, f, o.argument.empty() ? "" : gen_value(ctx.rng, true)});
            }
        }
        c.args = render(ctx.rng, items);
        if (!predict(ctx, c))
            return;
        c.real = run_parse(c.spec, c.args);
        expect_outcome(ctx, "outcome", c.model, c.real);
        for (int i = 0; i < 2; ++i)
        {
            auto other = render(ctx.rng, items);
            ctx.describe(describe(c.spec, c.args) + "\nrespelled: " + join_quoted(other));
            auto r = run_parse(c.spec, other);
            ctx.check(r.root.code == c.real.root.code, "respelling-changes-result-code",
                      [&] { return join_quoted(other); });
            if (r.root.code == ParserResultCode::SUCCESS)
            {
                auto d = compare(c.real.root, r.root, {});
                ctx.check(d.empty(), "respelling-changes-values", [&] { return d; });
                ctx.count("respellings_succeeded");
            }
        }
        ctx.nontrivial = c.model.root.code == ParserResultCode::SUCCESS;
    }

    void run(Ctx& ctx)
    {
        Profile p;
        p.style_standard = 0;
        p.max_opts = 7;
        p.alias = p.initial = p.mandatory = 0;
        p.arg_alias = 0;
        p.abbrev = 0;
        p.ci = 0.1;
        p.special_type = 0.1;
        p.op_clear = 0.05;
        p.equal_flag = 0.25;
        p.max_optional_uses = 7;
        p.mutate = 0.25;
        if (ctx.rng.chance(0.4))
        {
            p.ci = 0;
            return spellings(ctx, p);
        }
        CmdCase c;
        CompareFlags f;
        f.sources = false;
        if (model_case(ctx, p, c, f))
        {
            auto& s = c.model.stats;
            ctx.count(c.spec.style == OptionStyle::SLASH ? "slash_cases" : "dash_cases");
            ctx.nontrivial = s.contains("value_after_equals") || s.contains("value_separate");
        }
    }
}

const Property vf::property = {
    "C03",
    "A case is a random SLASH or DASH style parser and a command line with options spelled in any of the "
    "documented ways, hostile values and mutations; values, result codes and unprocessed arguments must equal "
    "the reference model's, and equivalent spellings must agree with each other. Non-trivial: at least one "
    "option value was consumed.",
    run,
    {"value_after_equals", "value_separate", "outcome_success", "outcome_failure", "outcome_stop",
     "slash_cases", "dash_cases", "respellings_succeeded"}};
