// C20: Help texts describe exactly the visible definitions, under the right
// headings.
#include "cmdline.hpp"
#include "decorate.hpp"
#include <algorithm>
#include <functional>
#include <utility>

using namespace vf;
using namespace argos;

namespace
{
    void run(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        Profile p;
        p.commands = 0.5;
        p.max_opts = 6;
        p.max_args = 4;
        auto spec = gen_spec(rng, p);
        Decoration d;
        d.hidden = rng.pick({0.0, 0.2, 0.5});
        d.section = rng.pick({0.0, 0.4});
        d.text = rng.pick({0.0, 0.3, 0.6});
        decorate(rng, spec, d);
        // Wide enough not to break any words
        spec.line_width = rng.chance(0.5) ? 1000 : unsigned(rng.range(100, 160));
        const auto path = gen_path(rng, spec.root);
        ctx.describe(describe(spec) + "help of " + full_name(path));
        ctx.add_sig(ctx.desc);
        const auto expected = help_words(spec, path);
        ctx.nontrivial = !expected.empty();

        const auto check = [&](const char* how, const std::string& text)
        {
            ctx.count("monitor_checks");
            ctx.count("help_texts");
            const auto diff = compare_words(expected, text, ctx.counters);
            if (!diff.empty())
                ctx.fail(how, diff + "\n" + text);
        };

        vf::TextStream ss;
        auto rec = std::make_shared<Recorder>();
        auto parser = build_parser(&rng, spec, rec, &ss);
        std::vector<std::string> names;
        for (size_t i = 1; i < path.size(); ++i)
            names.push_back(spec.ci && rng.chance(0.5) ? lower_case(path[i]->name) : path[i]->name);
        if (rng.chance(0.3))
        {
            // The texts of functions are those of the moment
            text_change = rng.chance(0.5) ? " CHANGED" : "CHANGED\n\nCHANGED";
            parser.write_subcommand_help_text(names);
            if (ss.str().find("CHANGED") != std::string::npos) ctx.count("changing_texts");
            if (rng.chance(0.3)) exception_of([&] { (void)std::as_const(parser).parse(views(help_args(spec, path))); });
            text_change.clear();
            ss.str({});
        }
        parser.write_subcommand_help_text(names);
        const auto text = ss.str();
        check("help-text", text);
        if (path.size() == 1)
        {
            ss.str({});
            parser.write_help_text();
            if (ss.str() != text) ctx.fail("write_help_text", ss.str());
        }
        else
        {
            ctx.count("subcommands");
            names.back() += "x";
            bool known = false;
            for (auto& c : path[path.size() - 2]->cmds)
                known = known || (spec.ci ? lower_case(c.name) == lower_case(names.back()) : c.name == names.back());
            if (!known && exception_of([&] { parser.write_subcommand_help_text(names); }) != "argos::ArgosException")
                ctx.fail("help-of-unknown-command", names.back());
        }

        // A path that goes on with a name that isn't there, but elsewhere.
        if (rng.chance(0.3))
        {
            names.clear();
            for (size_t i = 1; i < path.size(); ++i) names.push_back(path[i]->name);
            std::vector<std::string> others{"", spec.root.name};
            std::function<void(const CmdSpec&)> collect = [&](const CmdSpec& c)
            {
                for (auto& s : c.cmds)
                {
                    others.push_back(s.name);
                    collect(s);
                }
            };
            collect(spec.root);
            names.push_back(rng.pick(others));
            const auto same = [&](auto& c) { return spec.ci ? lower_case(c.name) == lower_case(names.back()) : c.name == names.back(); };
            if (std::ranges::none_of(path.back()->cmds, same))
            {
                ss.str({});
                if (exception_of([&] { parser.write_subcommand_help_text(names); }) != "argos::ArgosException" || !ss.str().empty())
                    ctx.fail("help-of-unknown-command", join_quoted(names));
                ctx.count("paths_to_commands_elsewhere");
            }
        }

        // With a help option
        const auto args = help_args(spec, path);
        if (!args.empty())
        {
            ss.str({});
            const auto res = parser.parse(views(args));
            if (res.result_code() != ParserResultCode::STOP)
                ctx.fail("help-option-result", ss.str());
            if (ss.str() != text)
            {
                check("help-option", ss.str());
                ctx.fail("help-option-differs", ss.str());
            }
            ctx.count("help_options");
        }
    }
}

namespace vf
{
    const Property property = {
        "C20",
        "a parser with help texts, sections, visibilities and custom texts, and one of its commands; non-trivial: the help text isn't empty",
        run,
        {"help_texts", "help_entries", "help_headings", "subcommands", "help_options", "changing_texts", "paths_to_commands_elsewhere"},
    };
}
