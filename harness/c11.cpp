// Subcommands and multiple subcommands.
#include "cmdline.hpp"
#include <algorithm>
using namespace vf;

namespace
{
    void run(Ctx& ctx)
    {
        Profile p;
        p.abbrev = 0.1;
        p.ci = 0.25;
        p.ignore_opts = 0.1;
        p.ignore_args = 0.15;
        p.commands = 1.0;
        p.multi = 0.6;
        p.mandatory = 0.1;
        p.initial = 0.2;
        p.alias = 0.15;
        p.special_type = 0.15;
        p.max_opts = 3;
        p.max_optional_uses = 2;
        p.mutate = 0.2;
        p.satisfy = 0.95;
        CmdCase c;
        if (!model_case(ctx, p, c))
            return;
        std::function<void(const Node&, int)> visit = [&](const Node& n, int depth)
        {
            auto cmd = find_command_by_id(c.spec.root, n.cmd_id);
            if (n.subs.size() > 1)
            {
                ctx.count("multiple_subcommands");
                ctx.check(cmd->multi, "several-subcommands-not-allowed", [&] { return cmd->name; });
            }
            if (depth >= 2) ctx.count("nested_commands");
            if (depth >= 5) ctx.count("deeply_nested_commands");
            for (auto& s : n.subs) visit(s, depth + 1);
        };
        visit(c.real.root, 0);
        // Each command has its own scope: names of other commands' options
        // aren't known.
        ctx.nontrivial = c.model.stats.contains("commands");
        if (c.spec.root.cmds.empty() || c.real.root.code != ParserResultCode::SUCCESS || !ctx.rng.chance(0.3))
            return;
        auto rec = std::make_shared<Recorder>();
        vf::TextStream ss;
        auto parser = make_parser(c.spec, rec, &ss);
        auto res = parser.parse(views(c.args));
        std::function<void(const argos::ParsedArguments&, const CmdSpec&, bool)> scopes =
            [&](const argos::ParsedArguments& pa, const CmdSpec& cmd, bool root)
        {
            const auto groups = value_groups(cmd, effective_options(c.spec, cmd, root));
            std::function<void(const CmdSpec&)> others = [&](const CmdSpec& o)
            {
                for (auto& opt : o.opts)
                    for (auto& f : opt.flags)
                    {
                        if (groups.contains(f)) continue;
                        ctx.count("foreign_names");
                        auto ex = exception_of([&] { (void)pa.has(f); });
                        ctx.check(ex == "argos::ArgosException", "name-of-another-command-is-known",
                                  [&] { return f + " in " + cmd.name; });
                    }
                for (auto& s : o.cmds) others(s);
            };
            others(c.spec.root);
            ctx.check(pa.all_subcommands().size() == cmd.cmds.size(), "all-subcommands", [&] { return cmd.name; });
            for (auto& s : pa.subcommands())
                scopes(s, *find_command_by_id(c.spec.root, s.command().id()), false);
        };
        scopes(res, c.spec.root, true);
    }
}

const Property vf::property = {
    "C11",
    "A case is a random tree of commands up to three levels deep, some of which allow several subcommands or "
    "don't require one, and a command line that selects from them. The tree of parsed commands, with their "
    "values, result codes and unprocessed arguments must be the reference model's, and each command must have "
    "a scope of its own. Non-trivial: at least one subcommand was selected.",
    run,
    {"commands", "multiple_subcommands", "nested_commands", "deeply_nested_commands", "reactivated_parents", "foreign_names",
     "outcome_success", "outcome_failure", "outcome_stop", "error_no-command", "error_unknown-command"}};
