// Standard style: every spelling of options and values is interpreted as
// documented, and equivalent spellings have the same result.
#include "cmdline.hpp"
using namespace vf;

namespace
{
    struct Item { const OptSpec* opt; std::string flag; std::string value; bool positional = false; };

    bool is_short(const std::string& f) { return f.size() == 2 && f[1] != '-'; }

    // One of the spellings of the items
    std::vector<std::string> render(Rng& rng, const std::vector<Item>& items)
    {
        std::vector<std::string> out;
        for (size_t i = 0; i < items.size(); ++i)
        {
            auto& it = items[i];
            if (it.positional)
            {
                out.push_back(it.value);
                continue;
            }
            const auto& f = it.flag;
            if (is_short(f))
            {
                // Join with the previous token, if that was a short flag
                const bool join = i > 0 && !items[i - 1].positional && is_short(items[i - 1].flag)
                    && items[i - 1].opt->argument.empty() && rng.chance(0.5);
                std::string t = join ? out.back() + f[1] : f;
                if (join) out.pop_back();
                if (it.opt->argument.empty())
                    out.push_back(t);
                else if (!it.value.empty() && rng.chance(0.5))
                    out.push_back(t + it.value);
                else
                {
                    out.push_back(t);
                    out.push_back(it.value);
                }
            }
            else if (it.opt->argument.empty())
                out.push_back(f);
            else if (f.back() == '=')
                out.push_back(f + it.value);
            else if (rng.chance(0.5))
                out.push_back(f + "=" + it.value);
            else
            {
                out.push_back(f);
                out.push_back(it.value);
            }
        }
        return out;
    }

    void spellings(Ctx& ctx, Profile p)
    {
        p.special_type = 0;
        p.gen_help = 0.3;
        p.min_opts = 2;
        p.ignore_opts = p.ignore_args = 0;
        p.abbrev = p.ci = 0;
        CmdCase c;
        c.spec = gen_spec(ctx.rng, p);
        // --flag and --flag= are different flags, these aren't spellings of
        // the same thing if there are options for both.
        for (auto& o : c.spec.root.opts)
            for (auto& f : o.flags)
                if (f.size() > 2 && f.back() == '=' && find_option(c.spec.root.opts, f.substr(0, f.size() - 1), false, c.spec.ci))
                    return;
        std::vector<Item> items;
        const int n = ctx.rng.range(1, 7);
        for (int i = 0; i < n; ++i)
        {
            if (ctx.rng.chance(0.2) || c.spec.root.opts.empty())
                items.push_back({nullptr, "", gen_positional(ctx.rng, OptionStyle::STANDARD, true), true});
            else
            {
                auto& o = ctx.rng.pick(c.spec.root.opts);
                items.push_back({&o, ctx.rng.pick(o.flags), o.argument.empty() ? "" : gen_value(ctx.rng, true)});
            }
        }
        c.args = render(ctx.rng, items);
        if (!predict(ctx, c))
            return;
        c.real = run_parse(c.spec, c.args);
        expect_outcome(ctx, "outcome", c.model, c.real);
        for (int i = 0; i < 2; ++i)
        {
            auto other = render(ctx.rng, items);
            ctx.describe(describe(c.spec, c.args) + "\nrespelled: " + join_quoted(other));
            auto r = run_parse(c.spec, other);
            ctx.check(r.root.code == c.real.root.code, "respelling-changes-result-code",
                      [&] { return join_quoted(other); });
            if (r.root.code == ParserResultCode::SUCCESS)
            {
                auto d = compare(c.real.root, r.root, {});
                ctx.check(d.empty(), "respelling-changes-values", [&] { return d; });
                ctx.count("respellings_succeeded");
            }
        }
        ctx.nontrivial = c.model.root.code == ParserResultCode::SUCCESS;
    }

    void run(Ctx& ctx)
    {
        Profile p;
        p.style_slash = p.style_dash = 0;
        p.max_opts = 7;
        p.alias = p.initial = p.mandatory = 0;
        p.arg_alias = 0;
        p.abbrev = 0;
        p.ci = 0;
        p.special_type = 0.1;
        p.op_clear = 0.05;
        p.cluster = 0.7;
        p.max_optional_uses = 7;
        p.mutate = 0.25;
        if (ctx.rng.chance(0.4))
            return spellings(ctx, p);
        CmdCase c;
        CompareFlags f;
        f.sources = false;
        c.spec = gen_spec(ctx.rng, p);
        c.args = gen_args(ctx.rng, c.spec, p);
        // Tokens that almost look like the standard ones
        if (ctx.rng.chance(0.06))
        {
            const auto t = ctx.rng.pick({"---", "----", "---x", "--=", "--=x", "-=", "- ", "-- "});
            c.args.insert(c.args.begin() + std::ptrdiff_t(ctx.rng.below(c.args.size() + 1)), t);
            ctx.count("dashes");
        }
        if (predict(ctx, c))
        {
            c.real = run_parse(c.spec, c.args);
            expect_outcome(ctx, "outcome", c.model, c.real, f);
            auto& s = c.model.stats;
            ctx.nontrivial = s.contains("value_attached") || s.contains("value_after_equals")
                || s.contains("value_separate") || s.contains("clustered_flags");
        }
    }
}

const Property vf::property = {
    "C02",
    "A case is a random STANDARD style parser and a command line with options spelled in any of the "
    "documented ways, hostile values (empty, looking like options, '='...) and mutations; the values of all "
    "names, result codes and unprocessed arguments must equal the reference model's, and equivalent spellings "
    "must agree with each other. Non-trivial: at least one clustered flag or option value was consumed.",
    run,
    {"value_attached", "value_after_equals", "value_separate", "clustered_flags", "outcome_success",
     "outcome_failure", "outcome_stop", "respellings_succeeded", "dashes"}};
