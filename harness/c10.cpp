// Undefined options and arguments that are ignored: nothing is lost, nothing
// is invented.
#include "cmdline.hpp"
#include <algorithm>
using namespace vf;

namespace
{
    void filter(Ctx& ctx, const CmdCase& c)
    {
        // filter_parsed_arguments on a real argv
        auto rec = std::make_shared<Recorder>();
        vf::TextStream ss;
        const auto parser = make_parser(c.spec, rec, &ss);
        std::vector<std::string> store = {"prog"};
        store.insert(store.end(), c.args.begin(), c.args.end());
        for (auto& s : store)
            if (s.find('\0') != std::string::npos) return;
        std::vector<char*> argv;
        for (auto& s : store) argv.push_back(s.data());
        argv.push_back(nullptr);
        const auto original = argv;
        int argc = int(store.size());
        char** av = argv.data();
        auto res = parser.parse(argc, av);
        auto unprocessed = res.unprocessed_arguments();
        res.filter_parsed_arguments(argc, av);
        ctx.check(av == argv.data(), "filter-moved-argv", [] { return ""; });
        ctx.check(argc == int(unprocessed.size()) + 1, "filter-wrong-argc",
                  [&] { return cat(argc, " with ", join_quoted(unprocessed)); });
        ctx.check(av[0] == original[0], "filter-changed-program-name", [&] { return std::string(av[0]); });
        // The remaining pointers are a subsequence of the original ones
        size_t j = 1;
        for (int i = 1; i < argc; ++i)
        {
            ctx.check(unprocessed[size_t(i) - 1] == av[i], "filter-wrong-argument",
                      [&] { return cat(i, ": ", quote(av[i])); });
            while (j + 1 < original.size() && original[j] != av[i]) ++j;
            ctx.check(j + 1 < original.size(), "filter-not-a-subsequence", [&] { return std::string(av[i]); });
            ++j;
        }
        ctx.count("filtered_command_lines");
    }

    void run(Ctx& ctx)
    {
        Profile p;
        p.abbrev = p.ci = 0.1;
        const auto mode = ctx.rng.weighted({0.5, 0.2, 0.2, 0.1});
        p.ignore_opts = mode == 0 || mode == 1;
        p.ignore_args = mode == 0 || mode == 2;
        p.commands = 0.25;
        p.mandatory = 0.05;
        p.alias = 0.1;
        p.initial = 0;
        p.special_type = 0.1;
        p.mutate = 0.3;
        p.unknown = 0.9;
        p.count_ok = 0.5;
        p.max_optional_uses = 4;
        CmdCase c;
        c.spec = gen_spec(ctx.rng, p);
        c.args = gen_args(ctx.rng, c.spec, p);
        // Several unknown ones, duplicates of things that are known
        const int n = ctx.rng.range(0, 3);
        for (int i = 0; i < n; ++i)
        {
            auto t = ctx.rng.chance(0.4) && !c.args.empty() ? ctx.rng.pick(c.args)
                : ctx.rng.pick({"--unknown", "--unknown=x", "/unknown", "/unknown=x", "-unknown", "-unknown=x",
                                "-U", "/U", "spare", "", "-", "--U=", "---", "----", "---x", "//", "//x", "--=", "-="});
            c.args.insert(c.args.begin() + std::ptrdiff_t(ctx.rng.below(c.args.size() + 1)), t);
        }
        if (!predict(ctx, c))
            return;
        c.real = run_parse(c.spec, c.args);
        CompareFlags f;
        f.sources = false;
        expect_outcome(ctx, "outcome", c.model, c.real, f);
        const auto& m = c.model;
        if (!m.error.empty())
            check_message(ctx, c);
        if (m.root.code != ParserResultCode::SUCCESS)
            return;
        if (!c.spec.ignore_opts && !c.spec.ignore_args)
        {
            const bool last = m.stats.contains(cat("type_", int(OptionType::LAST_ARGUMENT)));
            if (!last)
                ctx.check(c.real.root.unprocessed.empty(), "unprocessed-without-reason",
                          [&] { return join_quoted(c.real.root.unprocessed); });
        }
        // Conservation: each ignored token is on the command line, in order.
        std::function<void(const Node&)> visit = [&](const Node& node)
        {
            size_t j = 0;
            for (auto& u : node.unprocessed)
            {
                while (j < c.args.size() && c.args[j] != u) ++j;
                ctx.check(j < c.args.size(), "unprocessed-not-on-command-line", [&] { return u; });
                ++j;
                ctx.count("unprocessed_tokens");
            }
            for (auto& s : node.subs) visit(s);
        };
        visit(c.real.root);
        if (c.spec.root.cmds.empty())
            filter(ctx, c);
        ctx.nontrivial = m.stats.contains("unknown_options") || m.stats.contains("unknown_arguments");
    }
}

const Property vf::property = {
    "C10",
    "A case is a random parser that ignores undefined options, arguments, both or none, and a command line with "
    "unknown options, excess arguments and duplicates anywhere. The list of unprocessed arguments must be the "
    "reference model's and consist of tokens from the command line, in order; filtering a real argv must leave "
    "exactly the program name and those tokens, with the original pointers. The message about a rejected token must name it. Non-trivial: something was ignored.",
    run,
    {"unknown_options", "unknown_arguments", "unprocessed_tokens", "filtered_command_lines",
     "error_unknown-option", "error_too-many",
     "messages_with_subjects"}};
