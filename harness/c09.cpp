// Options that change how the rest of the command line is treated.
#include "cmdline.hpp"
#include <algorithm>
using namespace vf;

namespace
{
    void run(Ctx& ctx)
    {
        Profile p;
        p.abbrev = p.ci = 0.1;
        p.ignore_opts = 0.1;
        p.ignore_args = 0.15;
        p.commands = 0.35;
        p.multi = 0.6;
        p.mandatory = 0.15;
        p.special_type = 0.5;
        p.min_opts = 2;
        p.alias = 0.1;
        p.initial = 0.05;
        p.version = 0.3;
        p.gen_help = 0.7;
        p.terminator = 0.9;
        p.mutate = 0.2;
        p.satisfy = 0.8;
        p.count_ok = 0.75;
        CmdCase c;
        if (!model_case(ctx, p, c))
            return;
        auto& s = c.model.stats;
        for (auto& [k, v] : s)
            if (k.starts_with("type_") && k != "type_0")
                ctx.nontrivial = true;
        if (c.real.root.code == ParserResultCode::STOP)
        {
            ctx.count("unprocessed_after_stop", c.real.root.unprocessed.size());
            const bool help = c.real.root.stop_id == HELP_ID
                || [&] {
                    std::function<const OptSpec*(const CmdSpec&)> find = [&](const CmdSpec& cmd) -> const OptSpec*
                    {
                        for (auto& o : cmd.opts)
                            if (o.id == c.real.root.stop_id) return &o;
                        for (auto& x : cmd.cmds)
                            if (auto r = find(x)) return r;
                        return nullptr;
                    };
                    auto o = find(c.spec.root);
                    return o && o->type == OptionType::HELP;
                }();
            const bool version = c.real.root.stop_id == VERSION_ID;
            if (help)
            {
                ctx.count("help_displayed");
                ctx.check(c.real.output.find("USAGE") != std::string::npos, "help-not-displayed",
                          [&] { return c.real.output; });
            }
            else if (version)
            {
                ctx.count("version_displayed");
                ctx.check(c.real.output == "prog " + c.spec.version + "\n", "version-not-displayed",
                          [&] { return c.real.output; });
            }
            else
            {
                ctx.check(c.real.output.empty(), "unexpected-output", [&] { return c.real.output; });
            }
        }
        else if (c.real.root.code == ParserResultCode::SUCCESS)
        {
            ctx.check(c.real.output.empty(), "unexpected-output", [&] { return c.real.output; });
        }
    }
}

const Property vf::property = {
    "C09",
    "A case is a random parser with options of the types HELP, STOP, EXIT, LAST_ARGUMENT and LAST_OPTION (and "
    "the generated help and version options) at several levels and a command line where they occur anywhere. "
    "Result codes, the stop option, the values, the list of unprocessed arguments and what is displayed must "
    "be what the documentation says. Non-trivial: one of these options was used.",
    run,
    {"type_1", "type_2", "type_3", "type_4", "type_5", "outcome_success", "outcome_failure", "outcome_stop",
     "unprocessed_after_stop", "help_displayed", "version_displayed", "reactivated_parents"}};
