// C25: The two-file version of the library does what the library does.
// The check runs the same cases with the library, with the two-file version
// the repository's tool makes from the same sources, and with the one in the
// repository. What was observed is written to a log, and check.py compares
// the first two logs. What the one in the repository does is compared with
// the model.
#include "cmdline.hpp"
#include "convert.hpp"
#include "decorate.hpp"
#include "terminal.hpp"
#include "views.hpp"
#include <cmath>
#include <regex>

using namespace vf;
using namespace argos;

namespace
{
    // Messages of exceptions start with the place they were thrown from.
    std::string without_place(const std::string& s)
    {
        static const std::regex re(R"(^[^\n]*?\.[ch]pp:\d+: )");
        return std::regex_replace(s, re, "");
    }

    std::string tried(const std::function<std::string()>& fn)
    {
        std::string result, what;
        const auto ex = exception_of([&] { result = fn(); }, &what);
        return ex.empty() ? result : ex + ": " + without_place(what);
    }

    void parsing(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        Profile p;
        p.commands = 0.4;
        p.callbacks = 0.5;
        p.actions = 0.3;
        p.parser_actions = 0.2;
        p.max_opts = 7;
        CmdCase c;
        c.spec = gen_spec(rng, p);
        c.args = gen_args(rng, c.spec, p);
        if (!predict(ctx, c))
            return;
        c.real = run_parse(c.spec, c.args);
        ctx.log(tried([&] { return to_string(c.real.root) + to_string(c.real.callbacks) + c.real.output; }));
#ifdef VF_MODEL
        expect_outcome(ctx, "outcome", c.model, c.real);
#endif
        ctx.log(tried([&]
        {
            const auto o = run_iterator(c.spec, c.args);
            return to_string(o.root) + to_string(o.events) + to_string(o.callbacks) + o.output;
        }));
        ctx.count("parsings");
        ctx.nontrivial = true;
    }

    void help(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        Profile p;
        p.commands = 0.5;
        p.max_opts = 6;
        p.max_args = 4;
        auto spec = gen_spec(rng, p);
        Decoration d;
        decorate(rng, spec, d);
        spec.line_width = unsigned(rng.range(36, 130));
        std::unique_ptr<Terminal> terminal;
        if (rng.chance(0.2))
        {
            terminal = std::make_unique<Terminal>(unsigned(rng.range(0, 150)));
            if (rng.chance(0.7)) spec.line_width = 0;
        }
        if (rng.chance(0.3)) spec.split_rules = {rng.pick({"charac ter ist ic al ly", "direc tory", "we ll"}), "beh av iour"};
        const auto path = gen_path(rng, spec.root);
        ctx.describe(describe(spec) + "help of " + full_name(path));
        ctx.add_sig(ctx.desc);
        vf::TextStream ss;
        auto parser = build_parser(&rng, spec, std::make_shared<Recorder>(), &ss);
        std::vector<std::string> names;
        for (size_t i = 1; i < path.size(); ++i)
            names.push_back(path[i]->name);
        parser.write_subcommand_help_text(names);
#ifdef VF_MODEL
        const auto diff = compare_words(help_words(spec, path), ss.str(), nullptr);
        if (!diff.empty() && spec.line_width >= 100 && spec.split_rules.empty())
            ctx.fail("help-text", diff + "\n" + ss.str());
#endif
        ctx.log(ss.str());
        names.push_back("no-such-command");
        ctx.log(tried([&] { parser.write_subcommand_help_text(names); return std::string("written"); }));
        const auto args = help_args(spec, path);
        if (!args.empty())
        {
            ss.str({});
            const auto res = parser.parse(views(args));
            ctx.log(cat(int(res.result_code()), ss.str(), dump_tree(res.command())));
        }
        ctx.count("help_texts");
        ctx.nontrivial = true;
    }

    template <typename One, typename All>
    void convert(Ctx& ctx, Converted& c, One one, All all)
    {
        ctx.log(tried([&] { return show(all(c.values)); }));
        for (size_t i = 0; i < c.texts.size(); ++i)
            ctx.log(tried([&] { return show(one(c.values.value(i))); }));
        ctx.log(tried([&] { return show(one(c.missing)); }));
        ctx.log(c.stream->str());
        c.stream->str({});
    }

#define CONVERT(type, ...) \
    convert(ctx, c, [&](const ArgumentValue& v) { return v.as_##type(__VA_ARGS__); }, \
            [&](const ArgumentValues& v) { return v.as_##type##s(__VA_ARGS__); })

    void conversions(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        std::vector<std::string> texts;
        const int n = rng.range(0, 4);
        for (int i = 0; i < n; ++i)
        {
            switch (rng.below(4))
            {
            case 0: texts.push_back(gen_value(rng, true)); break;
            case 1: texts.push_back(cat(rng.pick({"", "-", "+"}), rng.next() >> rng.below(64))); break;
            case 2: texts.push_back(cat("0x", std::hex, rng.next() >> rng.below(64))); break;
            default: texts.push_back(cat(double(rng.next() >> rng.below(64)) / 1024, rng.pick({"", "e3", "e-5", "x"})));
            }
        }
        Converted c(ctx, texts, "conversion");
        const int base = rng.pick({0, 10, 16});
        CONVERT(int, {}, base);
        CONVERT(uint, {}, base);
        CONVERT(long, {}, base);
        CONVERT(ulong, {}, base);
        CONVERT(llong, {}, base);
        CONVERT(ullong, {}, base);
        CONVERT(float);
        CONVERT(double);
        CONVERT(string);
        convert(ctx, c, [](const ArgumentValue& v) { return v.as_bool(); }, [](const ArgumentValues&) { return 0; });
        const auto sep = rng.pick({',', ':', '1'});
        const auto min = rng.below(3), max = min + rng.below(3);
        ctx.log(tried([&]
        {
            std::vector<std::string> r;
            for (auto v : c.values.split(sep, min, max).raw_values()) r.emplace_back(v);
            return join_quoted(r);
        }));
        ctx.log(c.stream->str());
#ifdef VF_MODEL
        for (size_t i = 0; i < c.texts.size(); ++i)
        {
            const bool integer = texts[i].size() < 9 && texts[i].find_first_not_of("0123456789") == std::string::npos
                && !texts[i].empty() && texts[i][0] != '0';
            if (integer && c.values.value(i).as_int() != std::stoi(texts[i]))
                ctx.fail("wrong-value", texts[i]);
        }
#endif
        c.finish(ctx);
        ctx.count("conversions");
        ctx.nontrivial = true;
    }

    void run(Ctx& ctx)
    {
        switch (ctx.rng.below(4))
        {
        case 0: return help(ctx);
        case 1: return conversions(ctx);
        default: return parsing(ctx);
        }
    }
}

namespace vf
{
    const Property property = {
        "C25",
        "a parser with a command line, a parser whose help texts are written, or a list of texts to convert, executed with the library and with "
        "the two-file versions; everything observed must be equal for the library and the two-file version made from the same sources, and "
        "the outcome in the model for the one in the repository; non-trivial: something was observed",
        run,
        {"parsings", "help_texts", "conversions", "outcome_success", "outcome_failure", "outcome_stop", "logged"},
    };
}
