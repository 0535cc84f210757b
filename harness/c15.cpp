// Mistakes in definitions are reported, everything else is accepted, and
// used-up objects refuse to be used.
#include "cmdline.hpp"
#include <algorithm>
#include <climits>
#include <sstream>
#include <utility>
using namespace vf;
using namespace argos;

namespace
{
    const char* const ARGOS = "argos::ArgosException";

    CmdSpec& pick_command(Rng& rng, CmdSpec& root, bool& is_root)
    {
        CmdSpec* c = &root;
        is_root = true;
        while (!c->cmds.empty() && rng.chance(0.6))
        {
            c = &c->cmds[rng.below(c->cmds.size())];
            is_root = false;
        }
        return *c;
    }

    std::string prefix(OptionStyle s)
    {
        return s == OptionStyle::STANDARD ? "--" : s == OptionStyle::SLASH ? "/" : "-";
    }

    OptSpec plain(Rng& rng, OptionStyle style)
    {
        OptSpec o;
        o.id = 900;
        o.flags = {prefix(style) + "extra-option"};
        if (rng.chance(0.3))
            o.flags.push_back(prefix(style) + "another-flag");
        if (rng.chance(0.4)) o.argument = "XARG";
        return o;
    }

    // Where the exception is due
    enum Due { AT_USE, AT_DEFINITION };

    struct Mistake
    {
        std::string what;
        Due due = AT_USE;
        size_t kind = 0;
    };

    // Makes a mistake in a specification
    std::optional<Mistake> spoil(Rng& rng, ParserSpec& spec, size_t kind)
    {
        bool is_root = false;
        auto& cmd = pick_command(rng, spec.root, is_root);
        const auto where = is_root ? std::string(" in the parser") : " in command " + cmd.name;
        auto o = plain(rng, spec.style);
        const auto add = [&](const std::string& what, Due due = AT_USE)
        {
            cmd.opts.insert(cmd.opts.begin() + std::ptrdiff_t(rng.below(cmd.opts.size() + 1)), o);
            return Mistake{what + where, due};
        };
        auto& f = o.flags[rng.below(o.flags.size())];
        const auto p = prefix(spec.style);
        switch (kind)
        {
        case 0:
            o.flags.clear();
            return add("no flags", AT_DEFINITION);
        case 1:
        {
            // Flags that don't fit the style
            static const std::vector<std::string> STANDARD = {"flag", "/flag", "-flag", "-fl", "-", "f", "", "+f", "--fl ag", "--\t", "-\xc3\xa6", " --flag", "--flag\n"};
            static const std::vector<std::string> SLASH = {"flag", "-flag", "--flag", "/", "f", "", "/fl ag", " /flag", "/flag\r", "/\t"};
            static const std::vector<std::string> DASH = {"flag", "/flag", "-", "f", "", "-fl ag", " -flag", "-flag\n", "- "};
            f = rng.pick(spec.style == OptionStyle::STANDARD ? STANDARD : spec.style == OptionStyle::SLASH ? SLASH : DASH);
            return add("invalid flag " + quote(f));
        }
        case 2:
            f = p + rng.pick({"a=b", "ab=c", "abc=d=", "long==", "x==y"});
            o.argument = "ARG";
            return add("= inside a flag");
        case 3:
            f = p + "abc=";
            o.argument.clear();
            return add("flag ending with = without argument");
        case 4:
            o.argument = "ARG";
            o.constant = rng.pick({"c", "0", "1", " "});
            o.op = rng.pick({OptionOperation::ASSIGN, OptionOperation::APPEND, OptionOperation::CLEAR});
            return add("both argument and constant");
        case 5:
            o.op = OptionOperation::NONE;
            o.argument.clear();
            o.constant = "x";
            return add("NONE with a constant");
        case 6:
            o.op = OptionOperation::NONE;
            o.alias = rng.pick({std::string("an-alias"), p + "extra-option"});
            return add("NONE with an alias");
        case 7:
            o.op = OptionOperation::APPEND;
            o.argument.clear();
            o.constant.clear();
            return add("APPEND with neither argument nor constant");
        case 8:
            o.op = OptionOperation::CLEAR;
            o.mandatory = true;
            return add("mandatory CLEAR");
        case 9:
        {
            // The same flag twice
            if (rng.chance(0.3))
            {
                o.flags.push_back(o.flags[0]);
                return add("the same flag twice in an option");
            }
            if (cmd.opts.empty()) return {};
            f = rng.pick(rng.pick(cmd.opts).flags);
            if (f.back() == '=') o.argument = "ARG";
            return add("flag " + f + " in two options");
        }
        case 10:
        {
            // Flags that differ only in case
            if (!spec.ci || cmd.opts.empty()) return {};
            f = rng.pick(rng.pick(cmd.opts).flags);
            if (f.back() == '=') o.argument = "ARG";
            bool changed = false;
            for (auto& c : f)
                if (((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) && rng.chance(0.5))
                {
                    c = char(c ^ 32);
                    changed = true;
                }
            if (!changed) return {};
            return add("flag " + f + " that conflicts if case is ignored");
        }
        case 11:
            if (!cmd.cmds.empty()) return {};
            cmd.require = true;
            return Mistake{"subcommand required, but there are none" + where};
        case 12:
        {
            ArgSpec a;
            a.name = "";
            if (!cmd.cmds.empty()) return {};
            cmd.args.push_back(a);
            return Mistake{"nameless argument" + where, AT_DEFINITION};
        }
        case 13:
        {
            if (!cmd.args.empty()) return {};
            CmdSpec c;
            c.id = 901;
            c.name = "";
            cmd.cmds.push_back(c);
            return Mistake{"nameless command" + where, AT_DEFINITION};
        }
        case 14:
        {
            // Both arguments and subcommands
            if (cmd.cmds.empty() && cmd.args.empty()) return {};
            if (cmd.cmds.empty())
            {
                CmdSpec c;
                c.id = 901;
                c.name = "cmd";
                cmd.cmds.push_back(c);
            }
            else
            {
                ArgSpec a;
                a.id = 901;
                a.name = "ARG";
                cmd.args.push_back(a);
            }
            return Mistake{"arguments and subcommands" + where, AT_DEFINITION};
        }
        case 15:
        {
            // Impossible counts
            if (!cmd.cmds.empty()) return {};
            ArgSpec a;
            a.id = 901;
            a.name = "ARG";
            if (rng.chance(0.3)) a.min = a.max = 0;
            else { a.max = unsigned(1 + rng.below(5)); a.min = a.max + 1 + unsigned(rng.below(3)); }
            if (rng.chance(0.1)) { a.min = UINT_MAX; a.max = UINT_MAX - 1; }
            cmd.args.push_back(a);
            return Mistake{cat("count ", a.min, "..", a.max, where), AT_DEFINITION};
        }
        default:
        {
            // An argument that lacks maximum
            if (!cmd.cmds.empty()) return {};
            ArgSpec a;
            a.id = 901;
            a.name = "ARG";
            a.min = unsigned(rng.below(3));
            a.max = 0;
            cmd.args.push_back(a);
            return Mistake{cat("count ", a.min, "..", a.max, where), AT_DEFINITION};
        }
        }
    }

    std::string use(Ctx& ctx, ArgumentParser& parser, Rng& rng)
    {
        switch (rng.below(5))
        {
        case 0: ctx.count("use_parse"); return exception_of([&] { (void)parser.parse(std::vector<std::string_view>{}); });
        case 1: ctx.count("use_const_parse"); return exception_of([&] { (void)std::as_const(parser).parse(std::vector<std::string_view>{}); });
        case 2: ctx.count("use_iterator"); return exception_of([&] { (void)parser.make_iterator(std::vector<std::string_view>{}); });
        case 3: ctx.count("use_const_iterator"); return exception_of([&] { (void)std::as_const(parser).make_iterator(std::vector<std::string_view>{}); });
        default: ctx.count("use_help"); return exception_of([&] { parser.write_help_text(); });
        }
    }

    void definitions(Ctx& ctx)
    {
        Profile p;
        p.commands = 0.5;
        p.max_opts = 4;
        p.version = 0.3;
        p.ci = 0.4;
        p.special_type = 0.2;
        auto spec = gen_spec(ctx.rng, p);
        spec.line_width = 80;
        const auto good = spec;
        ctx.describe(describe(spec));
        vf::TextStream ss;
        auto rec = std::make_shared<Recorder>();
        // Valid definitions are accepted
        {
            std::string what;
            std::optional<ArgumentParser> parser;
            auto ex = exception_of([&] { parser.emplace(make_parser(spec, rec, &ss)); }, &what);
            ctx.check(ex.empty(), "valid-definition-rejected", [&] { return what; });
            Rng r = ctx.rng;
            ex = exception_of([&] { parser->write_help_text(); }, &what);
            ctx.check(ex.empty(), "valid-definition-rejected-in-help", [&] { return what; });
            ex = exception_of([&] { (void)std::as_const(*parser).parse(std::vector<std::string_view>{}); }, &what);
            ctx.check(ex.empty(), "valid-definition-rejected-when-parsing", [&] { return what; });
            ctx.count("valid_definitions");
        }
        const size_t kind = ctx.rng.below(17);
        const auto m = spoil(ctx.rng, spec, kind);
        if (!m)
        {
            ctx.count("no_mistake");
            return;
        }
        ctx.describe(describe(spec) + "mistake: " + m->what);
        ctx.add_sig(ctx.desc);
        ctx.nontrivial = true;
        ctx.count(cat("mistakes_of_kind_", kind));
        std::optional<ArgumentParser> parser;
        std::string what;
        const auto ex = exception_of([&] { parser.emplace(make_parser(spec, rec, &ss)); }, &what);
        if (m->due == AT_DEFINITION)
        {
            ctx.check(ex == ARGOS, "mistake-not-reported", [&] { return m->what + ": " + ex; });
            ctx.count("mistakes_at_definition");
            return;
        }
        if (!ex.empty())
        {
            // Earlier is fine too
            ctx.check(ex == ARGOS, "mistake-reported-with-other-exception", [&] { return m->what + ": " + ex; });
            ctx.count("mistakes_reported_early");
            return;
        }
        Rng r = ctx.rng;
        const auto ex2 = use(ctx, *parser, r);
        ctx.check(ex2 == ARGOS, "mistake-not-reported", [&] { return m->what + ": " + ex2; });
        ctx.count("mistakes_at_use");
    }

    // ---- Rejected additions leave things as they were ---------------------

    void rejected(Ctx& ctx)
    {
        Profile p;
        p.commands = 0.5;
        p.mutate = 0.1;
        CmdCase c;
        c.spec = gen_spec(ctx.rng, p);
        c.args = gen_args(ctx.rng, c.spec, p);
        if (!predict(ctx, c))
            return;
        vf::TextStream ss;
        auto rec = std::make_shared<Recorder>();
        auto parser = make_parser(c.spec, rec, &ss);
        const int n = ctx.rng.range(1, 4);
        std::string log;
        for (int i = 0; i < n; ++i)
        {
            std::string ex, what;
            switch (ctx.rng.below(8))
            {
            case 0: what = "option without flags"; ex = exception_of([&] { parser.add(Option()); }); break;
            case 1: what = "argument without name"; ex = exception_of([&] { parser.add(Argument()); }); break;
            case 2: what = "command without name"; ex = exception_of([&] { parser.add(Command()); }); break;
            case 3: what = "released option"; ex = exception_of([&] { Option o("--zzz"); Option m(std::move(o)); parser.add(o); }); break;
            case 4: what = "released argument"; ex = exception_of([&] { Argument o("zzz"); Argument m(std::move(o)); parser.add(o); }); break;
            case 5: what = "released command"; ex = exception_of([&] { Command o("zzz"); Command m(std::move(o)); parser.add(std::move(o)); }); break;
            case 6:
                if (!c.spec.root.args.empty())
                {
                    what = "command in spite of arguments";
                    ex = exception_of([&] { parser.add(Command("zzz")); });
                }
                else if (!c.spec.root.cmds.empty())
                {
                    what = "argument in spite of commands";
                    ex = exception_of([&] { parser.add(Argument("zzz")); });
                }
                break;
            case 7:
                if (!c.spec.root.opts.empty())
                {
                    what = "change of option style";
                    const auto other = c.spec.style == OptionStyle::SLASH ? OptionStyle::DASH : OptionStyle::SLASH;
                    ex = exception_of([&] { parser.option_style(other); });
                    if (ctx.rng.chance(0.3))
                        (void)parser.option_style(c.spec.style); // no change
                }
                break;
            }
            if (what.empty())
                continue;
            log += "\nrejected: " + what;
            ctx.check(ex == ARGOS, "mistake-not-reported", [&] { return what + ": " + ex; });
            ctx.count("rejected_additions");
        }
        ctx.describe(describe(c.spec, c.args) + log);
        c.real.root = observe(parser.parse(views(c.args)), c.spec);
        expect_outcome(ctx, "rejected-additions-had-effects", c.model, c.real);
        ctx.nontrivial = !log.empty();
    }

    // ---- Used-up objects ---------------------------------------------------

    template <typename T>
    struct Call
    {
        const char* name;
        std::function<void(T&)> fn;
    };

    template <typename T>
    void exhaust(Ctx& ctx, const std::string& kind, const std::vector<Call<T>>& calls, const std::function<T()>& make,
                 const std::vector<std::pair<const char*, std::function<void(T&)>>>& ways)
    {
        auto& [way, use_up] = ways[ctx.rng.below(ways.size())];
        T x = make();
        // All of the calls work before
        for (auto& c : calls)
        {
            T y = make();
            std::string what;
            const auto ex = exception_of([&] { c.fn(y); }, &what);
            ctx.check(ex.empty(), "valid-call-rejected", [&] { return kind + " " + c.name + ": " + what; });
        }
        use_up(x);
        auto order = calls;
        ctx.rng.shuffle(order);
        for (auto& c : order)
        {
            const auto ex = exception_of([&] { c.fn(x); });
            ctx.check(ex == ARGOS, "used-up-object-accepted", [&] { return cat(kind, " after ", way, ": ", c.name, " -> ", ex.empty() ? "no exception" : ex); });
            ctx.count("used_up_" + kind);
        }
        ctx.add_sig(kind);
        ctx.add_sig(std::string(way) + order.front().name + order.back().name);
        // Objects that are assigned to are as good as new
        if (ctx.rng.chance(0.5))
        {
            x = make();
            auto& c = calls[ctx.rng.below(calls.size())];
            std::string what;
            const auto ex = exception_of([&] { c.fn(x); }, &what);
            ctx.check(ex.empty(), "revived-object-rejected", [&] { return cat(kind, " ", c.name, ": ", what); });
            ctx.count("revived_objects");
        }
    }

    void used_up(Ctx& ctx)
    {
        ctx.describe("used-up objects");
        ctx.nontrivial = true;
        static vf::TextStream ss;
        ss.str("");
        switch (ctx.rng.below(4))
        {
        case 0:
            exhaust<Option>(ctx, "option", {
                {"help", [](Option& o) { o.help("x"); }},
                {"help callback", [](Option& o) { o.help([] { return std::string(); }); }},
                {"section", [](Option& o) { o.section("x"); }},
                {"alias", [](Option& o) { o.alias("x"); }},
                {"operation", [](Option& o) { o.operation(OptionOperation::CLEAR); }},
                {"visibility", [](Option& o) { o.visibility(Visibility::HIDDEN); }},
                {"id", [](Option& o) { o.id(1); }},
                {"flag", [](Option& o) { o.flag("--y"); }},
                {"flags", [](Option& o) { o.flags({"--y", "-z"}); }},
                {"argument", [](Option& o) { o.argument("A"); }},
                {"initial_value", [](Option& o) { o.initial_value("A"); }},
                {"constant string", [](Option& o) { o.constant(std::string("A")); }},
                {"constant char", [](Option& o) { o.constant("A"); }},
                {"constant bool", [](Option& o) { o.constant(true); }},
                {"constant int", [](Option& o) { o.constant(2); }},
                {"constant long long", [](Option& o) { o.constant(2LL); }},
                {"callback", [](Option& o) { o.callback([](auto&) {}); }},
                {"type", [](Option& o) { o.type(OptionType::EXIT); }},
                {"optional", [](Option& o) { o.optional(true); }},
                {"mandatory", [](Option& o) { o.mandatory(true); }},
                {"add to command", [](Option& o) { Command("c").add(o); }},
                {"add to parser", [](Option& o) { ArgumentParser("p").add(std::move(o)); }},
                {"add copy", [](Option& o) { Option copy(o); Command("c").add(copy); }},
                {"use assigned copy", [](Option& o) { Option copy("-x"); copy = o; copy.id(3); }},
            }, [] { return Option("--xyz"); }, {
                {"move construction", [](Option& o) { Option p(std::move(o)); }},
                {"move assignment", [](Option& o) { Option p("-p"); p = std::move(o); }},
                {"adding to a command", [](Option& o) { Command c("c"); c.add(o); }},
                {"moving to a command", [](Option& o) { Command c("c"); c.add(std::move(o)); }},
                {"adding to a parser", [](Option& o) { ArgumentParser c("c"); c.add(o); }},
                {"copying a moved-from option", [](Option& o) { Option p(std::move(o)); Option q(o); o = q; }},
            });
            break;
        case 1:
            exhaust<Argument>(ctx, "argument", {
                {"help", [](Argument& o) { o.help("x"); }},
                {"help callback", [](Argument& o) { o.help([] { return std::string(); }); }},
                {"section", [](Argument& o) { o.section("x"); }},
                {"alias", [](Argument& o) { o.alias("x"); }},
                {"visibility", [](Argument& o) { o.visibility(Visibility::HIDDEN); }},
                {"id", [](Argument& o) { o.id(1); }},
                {"name", [](Argument& o) { o.name("y"); }},
                {"count", [](Argument& o) { o.count(2); }},
                {"count range", [](Argument& o) { o.count(1, 2); }},
                {"callback", [](Argument& o) { o.callback([](auto&) {}); }},
                {"optional", [](Argument& o) { o.optional(true); }},
                {"mandatory", [](Argument& o) { o.mandatory(true); }},
                {"add to command", [](Argument& o) { Command("c").add(o); }},
                {"add to parser", [](Argument& o) { ArgumentParser("p").add(std::move(o)); }},
                {"add copy", [](Argument& o) { Argument copy(o); Command("c").add(copy); }},
                {"use assigned copy", [](Argument& o) { Argument copy("x"); copy = o; copy.id(3); }},
            }, [] { return Argument("xyz"); }, {
                {"move construction", [](Argument& o) { Argument p(std::move(o)); }},
                {"move assignment", [](Argument& o) { Argument p("-p"); p = std::move(o); }},
                {"adding to a command", [](Argument& o) { Command c("c"); c.add(o); }},
                {"moving to a command", [](Argument& o) { Command c("c"); c.add(std::move(o)); }},
                {"adding to a parser", [](Argument& o) { ArgumentParser c("c"); c.add(o); }},
                {"copying a moved-from argument", [](Argument& o) { Argument p(std::move(o)); Argument q(o); o = q; }},
            });
            break;
        case 2:
            exhaust<Command>(ctx, "command", {
                {"add argument", [](Command& o) { o.add(Argument("x")); }},
                {"add argument lvalue", [](Command& o) { Argument a("x"); o.add(a); }},
                {"add option", [](Command& o) { o.add(Option("-x")); }},
                {"add option lvalue", [](Command& o) { Option a("-x"); o.add(a); }},
                {"add command", [](Command& o) { o.add(Command("x")); }},
                {"add command lvalue", [](Command& o) { Command a("x"); o.add(a); }},
                {"name", [](Command& o) { o.name("x"); }},
                {"help", [](Command& o) { o.help("x"); }},
                {"about", [](Command& o) { o.about("x"); }},
                {"section", [](Command& o) { o.section("x"); }},
                {"current_section", [](Command& o) { o.current_section("x"); }},
                {"text", [](Command& o) { o.text(TextId::USAGE, "x"); }},
                {"text callback", [](Command& o) { o.text(TextId::USAGE, [] { return std::string(); }); }},
                {"visibility", [](Command& o) { o.visibility(Visibility::HIDDEN); }},
                {"id", [](Command& o) { o.id(1); }},
                {"allow_multiple_subcommands", [](Command& o) { o.allow_multiple_subcommands(true); }},
                {"require_subcommand", [](Command& o) { o.require_subcommand(true); }},
                {"copy_from", [](Command& o) { Command a("x"); o.copy_from(a); }},
                {"be copied from", [](Command& o) { Command a("x"); a.copy_from(o); }},
                {"be copied from by parser", [](Command& o) { ArgumentParser("x").copy_from(o); }},
                {"add to command", [](Command& o) { Command("c").add(o); }},
                {"add to parser", [](Command& o) { ArgumentParser("p").add(std::move(o)); }},
                {"add copy", [](Command& o) { Command copy(o); Command("c").add(copy); }},
                {"use assigned copy", [](Command& o) { Command copy("x"); copy = o; copy.id(3); }},
            }, [] { return Command("xyz"); }, {
                {"move construction", [](Command& o) { Command p(std::move(o)); }},
                {"move assignment", [](Command& o) { Command p("p"); p = std::move(o); }},
                {"adding to a command", [](Command& o) { Command c("c"); c.add(o); }},
                {"moving to a command", [](Command& o) { Command c("c"); c.add(std::move(o)); }},
                {"adding to a parser", [](Command& o) { ArgumentParser c("c"); c.add(o); }},
                {"copying a moved-from command", [](Command& o) { Command p(std::move(o)); Command q(o); o = q; }},
            });
            break;
        case 3:
        {
            using P = ArgumentParser;
            static char name[] = "prog";
            static char* argv[] = {name, nullptr};
            exhaust<P>(ctx, "parser", {
                {"add argument", [](P& o) { o.add(Argument("x")); }},
                {"add argument lvalue", [](P& o) { Argument a("x"); o.add(a); }},
                {"add option", [](P& o) { o.add(Option("-x")); }},
                {"add option lvalue", [](P& o) { Option a("-x"); o.add(a); }},
                {"add command", [](P& o) { o.add(Command("x")); }},
                {"add command lvalue", [](P& o) { Command a("x"); o.add(a); }},
                {"copy_from", [](P& o) { o.copy_from(Command("x")); }},
                {"parse", [](P& o) { (void)o.parse(std::vector<std::string_view>{}); }},
                {"const parse", [](P& o) { (void)std::as_const(o).parse(std::vector<std::string_view>{}); }},
                {"parse argv", [](P& o) { (void)o.parse(1, argv); }},
                {"const parse argv", [](P& o) { (void)std::as_const(o).parse(1, argv); }},
                {"make_iterator", [](P& o) { (void)o.make_iterator(std::vector<std::string_view>{}); }},
                {"const make_iterator", [](P& o) { (void)std::as_const(o).make_iterator(std::vector<std::string_view>{}); }},
                {"make_iterator argv", [](P& o) { (void)o.make_iterator(1, argv); }},
                {"const make_iterator argv", [](P& o) { (void)std::as_const(o).make_iterator(1, argv); }},
                {"allow_abbreviated_options()", [](P& o) { (void)o.allow_abbreviated_options(); }},
                {"allow_abbreviated_options", [](P& o) { o.allow_abbreviated_options(true); }},
                {"auto_exit()", [](P& o) { (void)o.auto_exit(); }},
                {"auto_exit", [](P& o) { o.auto_exit(false); }},
                {"case_insensitive()", [](P& o) { (void)o.case_insensitive(); }},
                {"case_insensitive", [](P& o) { o.case_insensitive(true); }},
                {"generate_help_option()", [](P& o) { (void)o.generate_help_option(); }},
                {"generate_help_option", [](P& o) { o.generate_help_option(true); }},
                {"option_style()", [](P& o) { (void)o.option_style(); }},
                {"option_style", [](P& o) { o.option_style(OptionStyle::STANDARD); }},
                {"require_subcommand()", [](P& o) { (void)o.require_subcommand(); }},
                {"require_subcommand", [](P& o) { o.require_subcommand(false); }},
                {"allow_multiple_subcommands()", [](P& o) { (void)o.allow_multiple_subcommands(); }},
                {"allow_multiple_subcommands", [](P& o) { o.allow_multiple_subcommands(true); }},
                {"ignore_undefined_arguments()", [](P& o) { (void)o.ignore_undefined_arguments(); }},
                {"ignore_undefined_arguments", [](P& o) { o.ignore_undefined_arguments(true); }},
                {"ignore_undefined_options()", [](P& o) { (void)o.ignore_undefined_options(); }},
                {"ignore_undefined_options", [](P& o) { o.ignore_undefined_options(true); }},
                {"argument_callback()", [](P& o) { (void)o.argument_callback(); }},
                {"argument_callback", [](P& o) { o.argument_callback([](auto&) {}); }},
                {"option_callback()", [](P& o) { (void)o.option_callback(); }},
                {"option_callback", [](P& o) { o.option_callback([](auto&) {}); }},
                {"stream()", [](P& o) { (void)o.stream(); }},
                {"stream", [](P& o) { o.stream(&ss); }},
                {"program_name()", [](P& o) { (void)o.program_name(); }},
                {"program_name", [](P& o) { o.program_name("x"); }},
                {"about", [](P& o) { o.about("x"); }},
                {"version", [](P& o) { o.version("1"); }},
                {"current_section", [](P& o) { o.current_section("1"); }},
                {"current_section()", [](P& o) { (void)o.current_section(); }},
                {"text", [](P& o) { o.text(TextId::USAGE, "x"); }},
                {"text callback", [](P& o) { o.text(TextId::USAGE, [] { return std::string(); }); }},
                {"line_width", [](P& o) { o.line_width(70); }},
                {"add_word_splitting_rule", [](P& o) { o.add_word_splitting_rule("spl it"); }},
                {"set_exit_codes", [](P& o) { o.set_exit_codes(1, 2); }},
                {"write_help_text", [](P& o) { o.write_help_text(); }},
                {"write_subcommand_help_text", [](P& o) { o.write_subcommand_help_text({}); }},
            }, [] { return std::move(P("xyz").auto_exit(false).line_width(80).stream(&ss)); }, {
                {"move construction", [](P& o) { P p(std::move(o)); }},
                {"move()", [](P& o) { P p(o.move()); }},
                {"move assignment", [](P& o) { P p("p"); p = std::move(o); }},
                {"parse", [](P& o) { (void)o.parse(std::vector<std::string_view>{}); }},
                {"parse argv", [](P& o) { (void)o.parse(1, argv); }},
                {"make_iterator", [](P& o) { (void)o.make_iterator(std::vector<std::string_view>{}); }},
                {"make_iterator argv", [](P& o) { (void)o.make_iterator(1, argv); }},
            });
            break;
        }
        }
    }

    void other(Ctx& ctx)
    {
        ctx.describe("argc and paths");
        static vf::TextStream ss;
        ss.str("");
        const int argc = ctx.rng.pick({0, -1, -100, INT_MIN});
        char name[] = "prog";
        char* argv[] = {name, nullptr};
        const auto make = [] { return std::move(ArgumentParser("xyz").auto_exit(false).line_width(80).stream(&ss)); };
        auto p = make();
        ctx.add_sig(uint64_t(argc));
        ctx.check(exception_of([&] { (void)std::as_const(p).parse(argc, argv); }) == ARGOS, "argc-accepted", [] { return "const parse"; });
        ctx.check(exception_of([&] { (void)std::as_const(p).make_iterator(argc, argv); }) == ARGOS, "argc-accepted", [] { return "const make_iterator"; });
        ctx.check(exception_of([&] { (void)p.make_iterator(argc, argv); }) == ARGOS, "argc-accepted", [] { return "make_iterator"; });
        ctx.check(exception_of([&] { (void)p.parse(argc, argv); }) == ARGOS, "argc-accepted", [] { return "parse"; });
        ctx.count("argc_checks");
        auto q = make();
        q.add(std::move(Command("cmd").add(Command("sub"))));
        ctx.check(exception_of([&] { q.write_subcommand_help_text({"cmd"}); q.write_subcommand_help_text({"cmd", "sub"}); }).empty(),
                  "path-rejected", [] { return ""; });
        ctx.check(exception_of([&] { q.write_subcommand_help_text({"cmd", "none"}); }) == ARGOS, "path-accepted", [] { return "cmd none"; });
        ctx.check(exception_of([&] { q.write_subcommand_help_text({"sub"}); }) == ARGOS, "path-accepted", [] { return "sub"; });
        ctx.check(exception_of([&] { q.write_subcommand_help_text({"cmd", "sub", "sub"}); }) == ARGOS, "path-accepted", [] { return "cmd sub sub"; });
        // Contradictory texts and kinds when copying
        for (auto id : {TextId::INITIAL_TEXT, TextId::USAGE_TITLE, TextId::USAGE, TextId::HELP, TextId::ABOUT, TextId::ARGUMENTS_TITLE,
                        TextId::SUBCOMMANDS_TITLE, TextId::OPTIONS_TITLE, TextId::FINAL_TEXT, TextId::ERROR_USAGE})
        {
            Command a("a"), b("b");
            const auto set = [&](auto& x, const std::string& text)
            {
                if (ctx.rng.chance(0.5)) x.text(id, text);
                else x.text(id, [=] { return text; });
            };
            set(a, ctx.rng.pick({"x", ""}));
            a.text(id == TextId::HELP ? TextId::ABOUT : TextId::HELP, "y");
            set(b, ctx.rng.pick({"x", "z", ""}));
            ctx.check(exception_of([&] { b.copy_from(a); }) == ARGOS, "duplicate-text-accepted", [&] { return cat("text ", int(id)); });
            auto parser = make();
            set(parser, "z");
            ctx.check(exception_of([&] { parser.copy_from(a); }) == ARGOS, "duplicate-text-accepted", [&] { return cat("text ", int(id), " of parser"); });
        }
        Command c("c"), d("d");
        c.add(Argument("arg"));
        d.add(Command("cmd"));
        ctx.check(exception_of([&] { c.copy_from(d); }) == ARGOS, "mixture-accepted", [] { return "commands into arguments"; });
        ctx.check(exception_of([&] { d.copy_from(c); }) == ARGOS, "mixture-accepted", [] { return "arguments into commands"; });
        auto r = make();
        r.add(Argument("arg"));
        ctx.check(exception_of([&] { r.copy_from(d); }) == ARGOS, "mixture-accepted", [] { return "commands into parser"; });
        // Word splitting rules
        const auto rule = ctx.rng.pick({" word", "wo  rd", "a b  c"});
        auto s = make();
        std::string ex = exception_of([&] { s.add_word_splitting_rule(rule); s.about("word a"); s.write_help_text(); });
        ctx.check(ex == ARGOS, "word-splitting-rule-accepted", [&] { return rule; });
        ctx.nontrivial = true;
    }

    void run(Ctx& ctx)
    {
        switch (ctx.rng.weighted({0.68, 0.2, 0.1, 0.02}))
        {
        case 0: definitions(ctx); break;
        case 1: rejected(ctx); break;
        case 2: used_up(ctx); break;
        case 3: other(ctx); break;
        }
    }
}

const Property vf::property = {
    "C15",
    "A case is (a) a random valid set of definitions, which must be accepted by every way of using it, and the same "
    "with one of 17 kinds of mistakes in a random command, which must be reported when it's defined or at the latest "
    "when the parser is used; (b) a parser where a random series of impossible additions is attempted, which must be "
    "rejected without effect on the parser; (c) an object that has been used up in one of several ways, where each of "
    "its methods must throw, and work again when the object has been assigned to. Non-trivial: there was a mistake, a "
    "rejected addition or a used-up object.",
    run,
    {"valid_definitions", "mistakes_at_definition", "mistakes_at_use", "rejected_additions", "used_up_option",
     "used_up_argument", "used_up_command", "used_up_parser", "revived_objects", "use_parse", "use_const_parse",
     "use_iterator", "use_const_iterator", "use_help", "argc_checks"}};
