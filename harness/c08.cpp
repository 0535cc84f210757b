// When is a command line accepted?
#include "cmdline.hpp"
#include <algorithm>
using namespace vf;

namespace
{
    void run(Ctx& ctx)
    {
        Profile p;
        p.abbrev = p.ci = 0.1;
        p.ignore_opts = 0.1;
        p.ignore_args = 0.1;
        p.commands = 0.45;
        p.max_opts = 5;
        p.mandatory = 0.45;
        p.initial = 0.1;
        p.alias = 0.3;
        p.op_clear = 0.15;
        p.special_type = 0.12;
        p.satisfy = ctx.rng.chance(0.5) ? 1.0 : 0.75;
        p.count_ok = ctx.rng.chance(0.5) ? 1.0 : 0.8;
        p.mutate = ctx.rng.chance(0.5) ? 0.0 : 0.3;
        p.unknown = ctx.rng.chance(0.5) ? 0.0 : 0.1;
        CmdCase c;
        CompareFlags f;
        f.values = f.sources = f.unprocessed = false;
        if (!model_case(ctx, p, c, f))
            return;
        if (!c.model.error.empty())
            check_message(ctx, c);
        // Independently of the model: an accepted command line is complete.
        const auto code = c.real.root.code;
        ctx.check(code != ParserResultCode::NONE, "not-finished", [] { return ""; });
        std::function<void(const Node&, bool, bool)> visit = [&](const Node& n, bool root, bool current)
        {
            auto cmd = find_command_by_id(c.spec.root, n.cmd_id);
            ctx.check(n.code == code || n.code == ParserResultCode::SUCCESS, "result-codes-differ",
                      [&] { return cat("#", n.cmd_id); });
            if (code == ParserResultCode::SUCCESS)
            {
                for (auto& o : effective_options(c.spec, *cmd, root))
                {
                    if (!o.mandatory) continue;
                    ctx.count("mandatory_options_present");
                    // A callback or a CLEAR option can't have removed it
                    // without being noticed.
                    ctx.check(!n.values.at(o.flags[0]).empty(), "accepted-without-mandatory-option",
                              [&] { return o.flags[0]; });
                }
                // Values that are shared can be removed by others.
                const auto groups = value_groups(*cmd, cmd->opts);
                for (auto& a : cmd->args)
                    ctx.check(n.values.at(a.name).size() >= a.min
                              || std::any_of(groups.begin(), groups.end(), [&](auto& g)
                                  { return g.first != a.name && g.second == groups.at(a.name); }), "accepted-with-too-few-arguments",
                              [&] { return a.name; });
                if (cmd->require.value_or(!cmd->cmds.empty()))
                    ctx.check(!n.subs.empty(), "accepted-without-command", [&] { return cmd->name; });
            }
            for (auto& s : n.subs) visit(s, false, current);
        };
        visit(c.real.root, true, true);
        ctx.nontrivial = c.model.events.size() > 1 || !c.model.error.empty();
    }
}

const Property vf::property = {
    "C08",
    "A case is a random parser with mandatory options, arguments with different counts and required "
    "subcommands at several levels, and a command line that may lack something, have something in excess or "
    "something unknown. The result code of every command on the command line must be the reference model's "
    "(SUCCESS if and only if nothing is missing, unknown or in excess), and whatever is accepted must be "
    "complete. Non-trivial: something was on the command line or an error was found.",
    run,
    {"outcome_success", "outcome_failure", "outcome_stop", "error_mandatory", "error_too-few", "error_too-many",
     "error_no-command", "error_unknown-command", "error_unknown-option", "error_no-value",
     "mandatory_options_present", "messages_with_counts", "messages_with_subjects"}};
