// Abbreviated options and case-insensitive lookup of options and commands.
#include "cmdline.hpp"
#include <algorithm>
using namespace vf;

namespace
{
    // Directly: which option does this token select? A parser where every
    // option has its own value, one token on the command line.
    void lookup(Ctx& ctx)
    {
        Profile p;
        p.abbrev = 0.7;
        p.ci = 0.5;
        p.min_opts = 3;
        p.max_opts = 9;
        p.min_args = p.max_args = 0;
        p.alias = p.initial = p.mandatory = 0;
        p.special_type = 0;
        p.op_none = p.op_clear = p.op_append = 0;
        p.has_argument = 0.4;
        p.has_constant = 0;
        p.equal_flag = 0.3;
        p.ignore_opts = 0;
        CmdCase c;
        c.spec = gen_spec(ctx.rng, p);
        if (c.spec.root.opts.empty())
            return;
        std::vector<std::string> tokens;
        for (auto& o : c.spec.root.opts)
        {
            for (auto& f : o.flags)
            {
                const size_t lo = c.spec.style == OptionStyle::STANDARD && f.size() > 2 ? 3 : 2;
                for (size_t n = lo; n <= f.size(); ++n)
                {
                    auto t = f.substr(0, n);
                    for (auto& ch : t)
                        if (c.spec.ci && ctx.rng.chance(0.3) && std::isalpha(static_cast<unsigned char>(ch)) && (ch & 0x80) == 0)
                            ch = char(ch ^ 32);
                    tokens.push_back(t);
                    if (t.back() != '=')
                        tokens.push_back(t + "=v");
                    else
                        tokens.push_back(t + "v");
                }
            }
        }
        ctx.rng.shuffle(tokens);
        if (tokens.size() > 8)
            tokens.resize(8);
        auto rec = std::make_shared<Recorder>();
        vf::TextStream ss;
        const auto parser = make_parser(c.spec, rec, &ss);
        for (auto& t : tokens)
        {
            c.args = {t};
            if (ctx.rng.chance(0.3))
                c.args.push_back("w");
            ctx.describe(describe(c.spec, c.args));
            ctx.add_sig(ctx.desc);
            auto m = run_model(c.spec, c.args);
            if (m.unspecified)
                continue;
            auto res = parser.parse(views(c.args));
            Outcome r;
            r.root = observe(res, c.spec);
            r.output = ss.str();
            ss.str("");
            expect_outcome(ctx, "lookup", m, r);
            if (m.root.code == ParserResultCode::SUCCESS)
            {
                ctx.count("lookups_found");
                const bool exact = std::any_of(c.spec.root.opts.begin(), c.spec.root.opts.end(), [&](auto& o)
                    { return std::any_of(o.flags.begin(), o.flags.end(), [&](auto& f)
                        { return t == f || t == f + "=v" || t == f + "v"; }); });
                if (!exact)
                    ctx.count("lookups_found_inexact");
            }
            else
            {
                const auto key = t.substr(0, t.find('='));
                const auto fold = [&](std::string s) { return c.spec.ci ? lower_case(s) : s; };
                int n = 0;
                for (auto& o : c.spec.root.opts)
                    for (auto& f : o.flags)
                        n += fold(f).compare(0, key.size(), fold(key)) == 0;
                ctx.count(n > 1 ? "lookups_ambiguous" : "lookups_failed");
            }
            ctx.nontrivial = true;
        }
    }

    // Commands can be named in any case when help is requested for them.
    void help_lookup(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        Profile p;
        p.commands = 1;
        p.ci = 0.7;
        p.max_opts = 3;
        const auto spec = gen_spec(rng, p);
        std::vector<const CmdSpec*> path;
        std::vector<std::string> names, other_names;
        for (auto* c = &spec.root; !c->cmds.empty() && rng.chance(0.9);)
        {
            c = &rng.pick(c->cmds);
            names.push_back(c->name);
            auto s = c->name;
            for (auto& ch : s)
                if (rng.chance(0.3) && ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'))) ch = char(ch ^ 32);
            other_names.push_back(s);
        }
        if (names.empty()) return;
        ctx.describe(describe(spec) + "help of " + join_quoted(other_names));
        ctx.add_sig(ctx.desc);
        vf::TextStream ss;
        auto rec = std::make_shared<Recorder>();
        const auto parser = make_parser(spec, rec, &ss);
        parser.write_subcommand_help_text(names);
        const auto expected = ss.str();
        ss.str("");
        const auto error = exception_of([&] { parser.write_subcommand_help_text(other_names); });
        if (names != other_names && !spec.ci)
        {
            // Unless there are commands with these names, too
            for (const auto* c = &spec.root; auto& n : other_names)
            {
                const CmdSpec* next = nullptr;
                for (auto& d : c->cmds)
                    if (d.name == n) next = &d;
                if (!next)
                {
                    if (error != "argos::ArgosException")
                        ctx.fail("help-of-unknown-command", "help was written for " + join_quoted(other_names));
                    ctx.count("help_of_unknown_command");
                    ctx.nontrivial = true;
                    return;
                }
                c = next;
            }
            return;
        }
        if (!error.empty() || ss.str() != expected)
            ctx.fail("help-of-command", cat("help of ", join_quoted(other_names), ": ", error, "\n", ss.str(), "expected:\n", expected));
        ctx.count("help_of_command");
        ctx.nontrivial = true;
    }

    void run(Ctx& ctx)
    {
        if (ctx.rng.chance(0.07))
            return help_lookup(ctx);
        if (ctx.rng.chance(0.5))
            return lookup(ctx);
        Profile p;
        p.abbrev = 0.75;
        p.ci = 0.6;
        p.min_opts = 2;
        p.max_opts = 8;
        p.commands = 0.35;
        p.alias = 0.1;
        p.mandatory = 0.05;
        p.equal_flag = 0.25;
        p.mutate = 0.2;
        CmdCase c;
        CompareFlags f;
        if (model_case(ctx, p, c, f))
        {
            if (c.spec.ci && c.model.stats.contains("commands"))
                ctx.count("case_insensitive_commands");
            ctx.nontrivial = c.model.events.size() > 1;
        }
    }
}

const Property vf::property = {
    "C04",
    "A case is a random parser with many overlapping flags (prefixes of each other, differing in case, with or "
    "without '='), abbreviations and case-insensitivity switched on or off, and every prefix of its flags (or "
    "whole command lines, with subcommands). The option or command selected must be the one the documentation "
    "gives: exact match first, otherwise the only flag that starts with the text. Non-trivial: at least one "
    "lookup was decided.",
    run,
    {"lookups_found", "lookups_found_inexact", "lookups_ambiguous", "lookups_failed", "case_insensitive_commands",
     "help_of_command", "help_of_unknown_command", "outcome_success", "outcome_failure"}};
