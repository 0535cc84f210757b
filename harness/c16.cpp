// C16: Copies and moves of definitions are complete and independent.
#include "cmdline.hpp"
#include "decorate.hpp"
#include "views.hpp"
#include <utility>

using namespace vf;
using namespace argos;

namespace
{
    std::vector<std::vector<const CmdSpec*>> all_paths(const CmdSpec& root)
    {
        std::vector<std::vector<const CmdSpec*>> r{{&root}};
        for (size_t i = 0; i < r.size(); ++i)
        {
            for (auto& c : r[i].back()->cmds)
            {
                auto p = r[i];
                p.push_back(&c);
                r.push_back(std::move(p));
            }
        }
        return r;
    }

    // Everything that can be observed of a parser
    std::string fingerprint(const ArgumentParser& p, const ParserSpec& spec, Recorder& rec, vf::TextStream& ss,
                            const std::vector<std::vector<std::string>>& lines)
    {
        std::string r;
        const auto attempt = [&](const std::string& what, const std::function<void()>& fn)
        {
            ss.str({});
            std::string msg;
            const auto ex = exception_of(fn, &msg);
            r += "=== " + what + "\n" + ss.str();
            // The line number isn't interesting
            if (!ex.empty()) r += ex + msg.substr(std::min(msg.size(), msg.find(": "))) + "\n";
        };
        for (auto& path : all_paths(spec.root))
        {
            std::vector<std::string> names;
            for (size_t i = 1; i < path.size(); ++i) names.push_back(path[i]->name);
            attempt("help of " + full_name(path), [&] { p.write_subcommand_help_text(names); });
        }
        bool first = true;
        for (auto& line : lines)
        {
            rec.callbacks.clear();
            attempt(join_quoted(line), [&]
            {
                const auto res = p.parse(views(line));
                if (first) ss << dump_tree(res.command());
                first = false;
                ss << to_string(observe(res, spec));
            });
            r += to_string(rec.callbacks);
        }
        r += cat("settings ", p.allow_abbreviated_options(), p.auto_exit(), p.case_insensitive(), p.generate_help_option(),
                 int(p.option_style()), int(p.require_subcommand().value_or(2)), p.allow_multiple_subcommands(),
                 p.ignore_undefined_arguments(), p.ignore_undefined_options(), bool(p.argument_callback()),
                 bool(p.option_callback()), p.stream() == &ss, p.program_name());
        return r;
    }

    std::string difference(const std::string& a, const std::string& b)
    {
        std::istringstream x(a), y(b);
        std::string s, t, heading;
        while (true)
        {
            const bool more_a = bool(std::getline(x, s)), more_b = bool(std::getline(y, t));
            if (!more_a && !more_b) return {};
            if (!more_a) s = "(end)";
            if (!more_b) t = "(end)";
            if (s != t) return heading + "\nexpected: " + s + "\ngot:      " + t;
            if (s.compare(0, 3, "===") == 0) heading = s;
        }
    }

    [[noreturn]] void bomb()
    {
        throw Failure{"wrong-callback", "The callback of a changed copy was called"};
    }

    struct CopyBuilder
    {
        Ctx& ctx;
        Rng& rng;
        std::shared_ptr<Recorder> rec;
        // Copies that have been changed, but that live on
        std::vector<Option> options;
        std::vector<Argument> arguments;
        std::vector<Command> commands;

        void spoil(Option& o)
        {
            for (int i = 0; i < 3; ++i)
            {
                switch (rng.below(11))
                {
                case 0: o.flag("--spoiled"); break;
                case 1: o.help("SPOILED"); break;
                case 2: o.section("SPOILED"); break;
                case 3: o.alias("--spoiled-alias"); break;
                case 4: o.callback([](OptionCallbackArguments&) { bomb(); }); break;
                case 5: o.visibility(rng.pick({Visibility::HIDDEN, Visibility::USAGE})); break;
                case 6: o.id(4711); break;
                case 7: o.argument("SPOILED"); break;
                case 8: o.initial_value("spoiled"); break;
                case 9: o.constant("spoiled"); break;
                case 10: o.mandatory(rng.chance(0.5)).type(OptionType::STOP); break;
                }
            }
        }

        void spoil(Argument& a)
        {
            for (int i = 0; i < 3; ++i)
            {
                switch (rng.below(8))
                {
                case 0: a.name("spoiled"); break;
                case 1: a.help("SPOILED"); break;
                case 2: a.section("SPOILED"); break;
                case 3: a.alias("--spoiled-alias"); break;
                case 4: a.callback([](ArgumentCallbackArguments&) { bomb(); }); break;
                case 5: a.visibility(rng.pick({Visibility::HIDDEN, Visibility::USAGE})); break;
                case 6: a.id(4711); break;
                case 7: a.count(0, 7); break;
                }
            }
        }

        void spoil(Command& c)
        {
            for (int i = 0; i < 3; ++i)
            {
                switch (rng.below(11))
                {
                case 0: c.name("spoiled"); break;
                case 1: c.help("SPOILED"); break;
                case 2: c.section("SPOILED"); break;
                case 3: c.current_section("SPOILED"); break;
                case 4: c.about("SPOILED"); break;
                case 5: c.visibility(rng.pick({Visibility::HIDDEN, Visibility::USAGE})); break;
                case 6: c.id(4711); break;
                case 7: c.add(Option("--spoiled")); break;
                case 8: (void)exception_of([&] { c.add(Argument("spoiled")); }); break;
                case 9: (void)exception_of([&] { c.add(Command("spoiled")); }); break;
                case 10: c.allow_multiple_subcommands(rng.chance(0.5)).require_subcommand(rng.chance(0.5)); break;
                }
            }
        }

        Option other(const Option*) { return Option("--other").help("OTHER").id(99).section("OTHER").initial_value("x").alias("-q"); }
        Argument other(const Argument*) { return Argument("other").help("OTHER").id(99).section("OTHER").count(0, 2); }
        Command other(const Command*)
        {
            Command c("other");
            c.help("OTHER").id(99).section("OTHER").current_section("OTHER").add(Option("--other"));
            c.allow_multiple_subcommands(true).require_subcommand(true).text(TextId::USAGE, "OTHER");
            return c;
        }

        // Use up an object
        void use(Option&& o) { Command("user").add(std::move(o)); }
        void use(Argument&& a) { Command("user").add(std::move(a)); }
        void use(Command&& c) { Command("user").add(std::move(c)); }

        void keep(Option o) { options.push_back(std::move(o)); }
        void keep(Argument a) { arguments.push_back(std::move(a)); }
        void keep(Command c) { commands.push_back(std::move(c)); }

        template <typename T>
        static T through(T t) { return t; }

        // Copies and moves that shouldn't make any difference
        template <typename T>
        void churn(T& t)
        {
            while (rng.chance(0.35))
            {
                switch (rng.below(9))
                {
                case 0: // changes to the copy
                {
                    T copy(t);
                    spoil(copy);
                    if (rng.chance(0.5)) keep(std::move(copy));
                    ctx.count("changed_copies");
                    break;
                }
                case 1: // changes to the original
                {
                    T copy(t);
                    spoil(t);
                    T old(std::move(t));
                    t = std::move(copy);
                    if (rng.chance(0.5)) keep(std::move(old));
                    ctx.count("changed_originals");
                    break;
                }
                case 2:
                {
                    T copy = other(&t);
                    copy = t;
                    spoil(t);
                    t = std::move(copy);
                    ctx.count("copy_assignments");
                    break;
                }
                case 3:
                {
                    T moved(std::move(t));
                    t = other(&t);
                    t = std::move(moved);
                    ctx.count("moves");
                    break;
                }
                case 4:
                {
                    auto& self = t;
                    t = self;
                    ctx.count("self_assignments");
                    break;
                }
                case 5:
                {
                    // The other object is used up, not this
                    T copy(t);
                    (void)exception_of([&] { use(std::move(copy)); });
                    ctx.count("used_copies");
                    break;
                }
                case 6:
                {
                    T copy(t);
                    (void)exception_of([&] { use(std::move(t)); });
                    t = rng.chance(0.5) ? copy : std::move(copy);
                    ctx.count("used_originals");
                    break;
                }
                case 7:
                {
                    t = through(rng.chance(0.5) ? t : through(std::move(t)));
                    ctx.count("moves");
                    break;
                }
                case 8:
                {
                    std::vector<T> v(2, t);
                    v.reserve(50);
                    v.insert(v.begin(), other(&t));
                    spoil(v[1]);
                    t = v[2];
                    ctx.count("containers");
                    break;
                }
                }
            }
        }

        template <typename T>
        void apply(T& t, std::vector<std::function<void(T&)>> steps)
        {
            for (auto& s : steps)
            {
                churn(t);
                s(t);
            }
            churn(t);
        }

        Option option(const OptSpec& s)
        {
            auto full = build_option(&rng, s, rec);
            if (rng.chance(0.5))
            {
                churn(full);
                return full;
            }
            // Bit by bit
            Option o;
            std::vector<std::function<void(Option&)>> steps;
            if (s.flags.size() == 1 && rng.chance(0.5)) steps.push_back([&](auto& x) { x.flag(s.flags[0]); });
            else steps.push_back([&](auto& x) { x.flags(s.flags); });
            std::vector<std::function<void(Option&)>> more;
            if (!s.help.empty()) more.push_back([&](auto& x) { x.help(s.help); });
            if (!s.section.empty()) more.push_back([&](auto& x) { x.section(s.section); });
            if (!s.alias.empty()) more.push_back([&](auto& x) { x.alias(s.alias); });
            if (!s.argument.empty()) more.push_back([&](auto& x) { x.argument(s.argument); });
            if (!s.constant.empty()) more.push_back([&](auto& x) { x.constant(s.constant); });
            if (!s.initial.empty()) more.push_back([&](auto& x) { x.initial_value(s.initial); });
            more.push_back([&](auto& x) { x.id(s.id); });
            more.push_back([&](auto& x) { x.operation(s.op); });
            more.push_back([&](auto& x) { x.type(s.type); });
            more.push_back([&](auto& x) { x.optional(!s.mandatory); });
            more.push_back([&](auto& x) { x.visibility(s.visibility); });
            if (s.callback)
            {
                // Not available from here, so start with it
                OptSpec c;
                c.callback = true;
                c.actions = s.actions;
                c.flags = {"--unused"};
                o = make_option(c, rec);
                o.flags({});
            }
            rng.shuffle(more);
            steps.insert(steps.end(), more.begin(), more.end());
            apply(o, steps);
            return o;
        }

        Argument argument(const ArgSpec& s)
        {
            auto full = build_argument(&rng, s, rec);
            if (rng.chance(0.5))
            {
                churn(full);
                return full;
            }
            ArgSpec c;
            c.callback = s.callback;
            c.actions = s.actions;
            c.name = "unused";
            auto a = make_argument(c, rec);
            std::vector<std::function<void(Argument&)>> steps;
            steps.push_back([&](auto& x) { x.name(s.name); });
            if (!s.help.empty()) steps.push_back([&](auto& x) { x.help(s.help); });
            if (!s.section.empty()) steps.push_back([&](auto& x) { x.section(s.section); });
            if (!s.alias.empty()) steps.push_back([&](auto& x) { x.alias(s.alias); });
            steps.push_back([&](auto& x) { x.id(s.id); });
            steps.push_back([&](auto& x) { x.count(s.min, s.max); });
            steps.push_back([&](auto& x) { x.visibility(s.visibility); });
            rng.shuffle(steps);
            apply(a, steps);
            return a;
        }

        // What remains to be added to a command or parser
        struct Rest
        {
            const CmdSpec& s;
            size_t o = 0, i = 0;
            std::vector<std::pair<TextId, std::string>> texts;
            bool multi;

            bool done() const { return o == s.opts.size() && i == s.args.size() + s.cmds.size() && texts.empty() && !multi; }
        };

        // Adds one thing
        template <typename T>
        void add_one(T& t, Rest& r, std::string& current)
        {
            const auto section = [&](const std::string& name)
            {
                if (!name.empty() && rng.chance(0.5)) return name;
                if (name != current)
                {
                    current = name;
                    t.current_section(name);
                }
                return std::string();
            };
            const auto add = [&](auto& item)
            {
                if (rng.chance(0.5)) t.add(item);
                else t.add(std::move(item));
            };
            const auto& s = r.s;
            const auto what = rng.below(8);
            if (what == 0 && !r.texts.empty())
            {
                auto [id, text] = r.texts.back();
                r.texts.pop_back();
                if (rng.chance(0.5)) t.text(id, text);
                else t.text(id, [text] { return text; });
            }
            else if (what == 1 && r.multi)
            {
                t.allow_multiple_subcommands(true);
                r.multi = false;
            }
            else if (what < 5 && r.o < s.opts.size())
            {
                auto x = s.opts[r.o++];
                x.section = section(x.section);
                auto item = option(x);
                add(item);
            }
            else if (r.i < s.args.size())
            {
                auto x = s.args[r.i++];
                x.section = section(x.section);
                auto item = argument(x);
                add(item);
            }
            else if (r.i < s.args.size() + s.cmds.size())
            {
                auto x = s.cmds[r.i++ - s.args.size()];
                x.section = section(x.section);
                auto item = command(x);
                add(item);
            }
        }

        // A parser that shows what a command contains
        std::string contents(const Command& c, OptionStyle style)
        {
            vf::TextStream ss;
            const auto ex = exception_of([&]
            {
                ArgumentParser p("contents", false);
                p.option_style(style).stream(&ss).auto_exit(false).copy_from(c).line_width(100);
                p.write_help_text();
                ss << dump_tree(std::as_const(p).parse(std::vector<std::string_view>()).command());
            });
            return ss.str() + ex;
        }

        OptionStyle style = OptionStyle::STANDARD;

        template <typename T>
        void fill(T& t, const CmdSpec& s)
        {
            Rest r{s, 0, 0, {s.texts.begin(), s.texts.end()}, s.multi};
            rng.shuffle(r.texts);
            std::string current;
            while (!r.done())
            {
                if constexpr (std::is_same_v<T, Command>)
                    churn(t);
                if (rng.chance(0.75))
                {
                    add_one(t, r, current);
                    continue;
                }
                // Through copy_from
                Command src(rng.chance(0.5) ? "source" : "");
                std::string src_current;
                for (int n = rng.range(1, 6); n > 0 && !r.done(); --n)
                    add_one(src, r, src_current);
                if (rng.chance(0.2)) src.current_section("UNUSED");
                if (rng.chance(0.2)) src.section("UNUSED").id(77).visibility(Visibility::HIDDEN);
                churn(src);
                const auto before = contents(src, style);
                t.copy_from(src);
                ctx.count("copy_from");
                if (const auto d = difference(before, contents(src, style)); !d.empty())
                    ctx.fail("source-changed-by-copy_from", d);
                if (rng.chance(0.5))
                {
                    spoil(src);
                    keep(src);
                }
            }
            if (current != s.generated_section)
                t.current_section(s.generated_section);
            if (s.require) t.require_subcommand(*s.require);
        }

        Command command(const CmdSpec& s)
        {
            Command c("unused");
            c.name(s.name);
            fill(c, s);
            apply<Command>(c, {[&](auto& x) { x.id(s.id); }, [&](auto& x) { x.section(s.section); },
                      [&](auto& x) { x.visibility(s.visibility); }});
            return c;
        }

        ArgumentParser parser(const ParserSpec& s, std::ostream* stream)
        {
            style = s.style;
            auto empty = s;
            empty.root = {};
            empty.root.name = s.root.name;
            auto p = make_parser(empty, rec, stream);
            const auto churn_parser = [&]
            {
                while (rng.chance(0.3))
                {
                    switch (rng.below(4))
                    {
                    case 0:
                    {
                        ArgumentParser q(std::move(p));
                        p = std::move(q);
                        break;
                    }
                    case 1:
                    {
                        ArgumentParser q("other");
                        q.add(Option("--other")).version("7");
                        q = std::move(p);
                        p = q.move();
                        break;
                    }
                    case 2:
                        p = through(std::move(p));
                        break;
                    case 3:
                    {
                        std::vector<ArgumentParser> v;
                        v.push_back(std::move(p));
                        v.emplace_back("x");
                        v.reserve(20);
                        p = std::move(v[0]);
                        break;
                    }
                    }
                    ctx.count("parser_moves");
                }
            };
            churn_parser();
            fill(p, s.root);
            churn_parser();
            return p.move();
        }
    };

    void run(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        Profile p;
        p.commands = 0.45;
        p.callbacks = 0.3;
        p.actions = 0.3;
        p.alias = 0.3;
        p.max_depth = 2;
        auto spec = gen_spec(rng, p);
        Decoration d;
        d.long_texts = rng.chance(0.3);
        decorate(rng, spec, d);
        spec.line_width = rng.chance(0.3) ? 0 : unsigned(rng.chance(0.4) ? 100 : rng.range(36, 99));
        while (rng.chance(0.5))
        {
            std::string word = rng.pick({"characteristically", "directory", "option", "written", "Command", "Version"});
            for (int i = rng.range(0, 3); i--;) word.insert(1 + rng.below(word.size() - 1), " ");
            while (word.find("  ") != word.npos) word.erase(word.find("  "), 1);
            if (word.find(' ') != word.npos && word.back() != ' ') spec.split_rules.push_back(word);
        }
        if (!spec.split_rules.empty()) ctx.count("splitting_rules");
        std::vector<std::vector<std::string>> lines;
        for (int i = 0; i < 3; ++i) lines.push_back(gen_args(rng, spec, p));
        for (auto& o : effective_options(spec, spec.root, true))
            if (o.type == OptionType::HELP && rng.chance(0.4)) lines.back() = {rng.pick(o.flags)};
        std::string desc = describe(spec);
        for (auto& l : lines) desc += join_quoted(l) + "\n";
        ctx.describe(desc);
        ctx.add_sig(desc);

        vf::TextStream ss;
        auto rec = std::make_shared<Recorder>();
        const auto plain = build_parser(nullptr, spec, rec, &ss);
        const auto expected = fingerprint(plain, spec, *rec, ss, lines);

        // What was defined is what the parser does, whether it's const (and
        // the definitions are copied) or not.
        for (auto& line : lines)
        {
            const auto model = run_model(spec, line);
            const auto observed = [&](auto&& p)
            {
                ss.str({});
                const auto res = p.parse(views(line));
                const auto code = res.result_code();
                return std::pair(observe(res, spec), ss.str() + (code == ParserResultCode::FAILURE ? "" : dump_tree(res.command())));
            };
            const auto a = observed(plain), b = observed(build_parser(nullptr, spec, rec, &ss));
            if (!model.unspecified)
            {
                Outcome o;
                o.root = a.first;
                const auto d = compare_outcome(model, o);
                ctx.check(d.empty(), "copied-definition", [&] { return join_quoted(line) + "\n" + d; });
                ctx.count("model_comparisons");
            }
            const auto d = difference(to_string(b.first) + b.second, to_string(a.first) + a.second);
            ctx.check(d.empty(), "const-parser-differs", [&] { return join_quoted(line) + "\n" + d; });
        }

        auto rec2 = std::make_shared<Recorder>();
        CopyBuilder builder{ctx, rng, rec2, {}, {}, {}};
        const auto copied = builder.parser(spec, &ss);
        ctx.nontrivial = true;
        const auto check = [&](const char* key)
        {
            ctx.count("monitor_checks");
            const auto got = fingerprint(copied, spec, *rec2, ss, lines);
            if (const auto diff = difference(expected, got); !diff.empty())
                ctx.fail(key, diff);
            ctx.count("fingerprint_bytes", got.size());
        };
        check("copies-differ");
        // The leftovers don't matter, alive or dead
        for (auto& o : builder.options) builder.spoil(o);
        for (auto& c : builder.commands) builder.spoil(c);
        builder.options.clear();
        builder.arguments.clear();
        builder.commands.clear();
        check("copies-depend-on-others");
    }
}

namespace vf
{
    const Property property = {
        "C16",
        "a parser with help texts and callbacks, defined directly and through random histories of copies, moves and copy_from, and three "
        "command lines; every case is non-trivial",
        run,
        {"changed_copies", "changed_originals", "copy_assignments", "moves", "self_assignments", "used_copies", "used_originals",
         "containers", "model_comparisons", "copy_from", "parser_moves", "splitting_rules"},
    };
}
