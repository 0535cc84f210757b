// C23: Views and introspection report the definitions and the results
// faithfully.
#include "cmdline.hpp"
#include <iostream>
#include "decorate.hpp"
#include "views.hpp"
#include <utility>
#include <algorithm>

using namespace vf;
using namespace argos;

namespace
{
    std::string names_of(const IArgumentView& v)
    {
        if (auto a = dynamic_cast<const ArgumentView*>(&v)) return a->name();
        std::string s;
        for (auto& f : dynamic_cast<const OptionView&>(v).flags()) s += (s.empty() ? "" : ", ") + f;
        return s;
    }

    // What print() should write
    std::string printed(const ParsedArguments& res)
    {
        std::vector<std::unique_ptr<IArgumentView>> all;
        for (auto& a : res.all_arguments()) all.push_back(std::move(a));
        for (auto& o : res.all_options()) all.push_back(std::move(o));
        std::map<int, std::vector<const IArgumentView*>> groups;
        for (auto& v : all) groups[v->value_id()].push_back(v.get());
        std::string r;
        for (auto& [_, g] : groups)
        {
            for (auto v : g) r += (v == g.front() ? "" : ", ") + names_of(*v);
            r += ":";
            for (auto& s : res.values(*g.front()).as_strings()) r += " \"" + s + "\"";
            r += "\n";
        }
        if (auto& u = res.unprocessed_arguments(); !u.empty())
        {
            r += "Unprocessed arguments:";
            for (auto& s : u) r += " \"" + s + "\"";
        }
        for (auto& s : res.subcommands())
            r += cat("\nSubcommand: ", s.name(), "\n") + printed(s);
        return r;
    }

    struct Checker
    {
        Ctx& ctx;
        const ParserSpec& spec;

        template <typename A, typename B>
        void equal(const char* key, const A& exp, const B& got, const std::string& where)
        {
            ctx.count("monitor_checks");
            if (!(exp == got))
                ctx.fail(key, cat(where, ": expected ", exp, "\ngot ", got));
        }

        // One view of an option or argument in a result
        void item(const ParsedArguments& res, const IArgumentView& v, const std::vector<std::string>& names,
                  const std::string& where)
        {
            for (auto& name : names)
            {
                const auto by_name = res.values(name).as_strings(), by_view = res.values(v).as_strings();
                equal("values-by-view", join_quoted(by_name), join_quoted(by_view), where + name);
                equal("has-by-view", res.has(name), res.has(v), where + name);
                equal("has", res.has(v), !by_view.empty(), where + name);
                if (by_view.size() <= 1)
                    equal("value-by-view", res.value(name).as_string("none"), res.value(v).as_string("none"), where + name);
                ctx.count("lookups");
            }
        }

        void result(const ParsedArguments& res, const CmdSpec& cmd, const std::string& where, bool failed)
        {
            const bool root = &cmd == &spec.root;
            const auto view = res.command();
            const auto opts = effective_options(spec, cmd, root);
            const auto groups = value_groups(cmd, opts);

            equal("command-view", dump_tree(spec, cmd), dump_tree(view), where);
            equal("alias-of-command", cmd.name, view.alias(), where);
            equal("value-id-of-command", 0, int(view.value_id()), where);
            equal("name", cmd.name, std::string(res.name()), where);

            const auto args = res.all_arguments();
            const auto options = res.all_options();
            const auto cmds = res.all_subcommands();
            equal("all_arguments", cmd.args.size(), args.size(), where);
            equal("all_options", opts.size(), options.size(), where);
            equal("all_subcommands", cmd.cmds.size(), cmds.size(), where);
            std::map<int, std::string> by_argument_id;
            std::map<std::string, int> value_ids; // canonical name -> id
            std::map<int, std::string> canonical;
            const auto ids = [&](const IArgumentView& v, const std::string& name)
            {
                if (!by_argument_id.emplace(int(v.argument_id()), name).second)
                    ctx.fail("shared-argument-id", where + name);
                if (int(v.argument_id()) == 0 || v.argument_id() == view.argument_id())
                    ctx.fail("bad-argument-id", where + name);
                if (!groups.contains(name)) return;
                const auto& c = groups.at(name);
                equal("value-id", value_ids.emplace(c, int(v.value_id())).first->second, int(v.value_id()), where + name);
                equal("shared-value-id", canonical.emplace(int(v.value_id()), c).first->second, c, where + name);
            };
            for (size_t i = 0; i < args.size(); ++i)
            {
                equal("argument-view", dump(cmd.args[i]), dump(*args[i]), where);
                equal("argument-id-of-argument", int(view.arguments()[i].argument_id()), int(args[i]->argument_id()), where);
                ids(*args[i], cmd.args[i].name);
                item(res, *args[i], {cmd.args[i].name}, where);
                ctx.count("argument_views");
            }
            for (size_t i = 0; i < options.size(); ++i)
            {
                equal("option-view", dump(opts[i]), dump(*options[i]), where);
                equal("argument-id-of-option", int(view.options()[i].argument_id()), int(options[i]->argument_id()), where);
                ids(*options[i], opts[i].flags[0]);
                if (opts[i].op != OptionOperation::NONE)
                    item(res, *options[i], opts[i].flags, where);
                else
                    equal("has-NONE-option", false, res.has(*options[i]), where);
                ctx.count("option_views");
            }
            for (size_t i = 0; i < cmds.size(); ++i)
            {
                equal("subcommand-view", dump_shallow(cmd.cmds[i]), dump_shallow(*cmds[i]), where);
                ctx.count("command_views");
            }
            // The sources of the values
            for (auto& [name, c] : groups)
            {
                std::set<int> sources;
                const auto values = res.values(name);
                for (const auto v : values)
                {
                    const auto src = v.argument();
                    if (!src) ctx.fail("no-source", where + name);
                    sources.insert(int(src->argument_id()));
                    auto it = by_argument_id.find(int(src->argument_id()));
                    if (it == by_argument_id.end() || groups.at(it->second) != c)
                        ctx.fail("unrelated-source", where + name);
                    std::string exp;
                    for (auto& a : cmd.args) if (a.name == it->second) exp = dump(a);
                    for (auto& o : opts) if (o.flags[0] == it->second) exp = dump(o);
                    equal("source-view", exp, dump_any(*src), where + name);
                    ctx.count("source_views");
                }
                for (auto& a : values.arguments())
                {
                    auto it = by_argument_id.find(int(a->argument_id()));
                    if (it == by_argument_id.end() || !groups.contains(it->second) || groups.at(it->second) != c)
                        ctx.fail("unrelated-argument", where + name);
                    sources.erase(int(a->argument_id()));
                }
                if (!sources.empty())
                    ctx.fail("source-not-in-arguments()", where + name);
            }
            if (!failed && res.result_code() == ParserResultCode::STOP)
            {
                const auto stop = res.stop_option();
                bool found = false;
                for (const CmdSpec* c : all_commands())
                    for (auto& o : effective_options(spec, *c, c == &spec.root))
                        found = found || dump(o) == dump(stop);
                if (!found) ctx.fail("stop-option", where + dump(stop));
                ctx.count("stop_options");
            }
            else if (exception_of([&] { (void)res.stop_option(); }) != "argos::ArgosException")
                ctx.fail("stop-option-without-stop", where);
            for (auto& s : res.subcommands())
            {
                const CmdSpec* c = nullptr;
                for (auto& x : cmd.cmds)
                    if (x.id == s.command().id()) c = &x;
                if (!c) ctx.fail("unknown-subcommand", std::string(s.name()));
                result(s, *c, where + c->name + ": ", failed);
            }
        }

        std::vector<const CmdSpec*> all_commands()
        {
            std::vector<const CmdSpec*> r{&spec.root};
            for (size_t i = 0; i < r.size(); ++i)
                for (auto& c : r[i]->cmds) r.push_back(&c);
            return r;
        }
    };

    void run(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        Profile p;
        p.commands = 0.4;
        p.mutate = 0.2;
        p.alias = 0.35;
        auto spec = gen_spec(rng, p);
        Decoration d;
        d.text = 0.1;
        d.long_texts = false;
        decorate(rng, spec, d);
        const auto args = gen_args(rng, spec, p);
        ctx.describe(describe(spec, args));
        ctx.add_sig(ctx.desc);
        ctx.nontrivial = !args.empty();

        vf::TextStream ss;
        auto rec = std::make_shared<Recorder>();
        auto parser = build_parser(&rng, spec, rec, &ss);
        // What the views told during the parsing
        std::map<std::string, int> definitions; // text -> number
        Checker checker{ctx, spec};
        std::map<int, std::string> by_id;
        std::set<std::string> known;
        for (auto c : checker.all_commands())
        {
            for (auto& a : c->args) { by_id[a.id] = dump(a); known.insert(dump(a)); }
            for (auto& o : effective_options(spec, *c, c == &spec.root)) { if (o.id > 0) by_id[o.id] = dump(o); known.insert(dump(o)); }
            if (c != &spec.root) { by_id[c->id] = dump_shallow(*c); known.insert(dump_shallow(*c)); }
        }
        std::vector<std::string> seen;
        const auto see = [&](const IArgumentView& v, const char* where)
        {
            const auto text = dump_any(v);
            const auto id = id_of(v);
            if (!known.contains(text) || (id > 0 && by_id[id] != text))
                ctx.fail(where, text);
            seen.push_back(text);
        };
        parser.argument_callback([&](ArgumentCallbackArguments& a) { see(a.view, "view-in-argument-callback"); })
            .option_callback([&](OptionCallbackArguments& a) { see(a.view, "view-in-option-callback"); });

        const auto res = std::as_const(parser).parse(views(args));
        const auto during = seen;
        const bool failed = res.result_code() == ParserResultCode::FAILURE;
        ctx.count(failed ? "failures" : "successes");
        checker.result(res, spec.root, "", failed);
        ctx.count("views_in_callbacks", during.size());

        // With an iterator, and the same result before and after it
        seen.clear();
        {
            ParsedArguments top;
            std::vector<std::string> reported;
            auto it = parser.make_iterator(views(args));
            top = it.parsed_arguments();
            const auto before = dump_tree(top.command());
            std::unique_ptr<IArgumentView> arg;
            std::string_view value;
            while (it.next(arg, value))
            {
                if (!arg) continue;
                auto text = dump_any(*arg);
                if (!known.contains(text)) ctx.fail("view-from-iterator", text);
                if (!dynamic_cast<CommandView*>(arg.get())) reported.push_back(text);
                else if (it.parsed_arguments().command().id() != arg->id())
                    ctx.fail("view-of-current-command", text);
                ctx.count("views_from_iterators");
            }
            if (!failed && (reported != during || seen != during))
                ctx.fail("iterator-and-callback-views-differ", cat(join_quoted(reported), "\n", join_quoted(during)));
            checker.equal("command-view-after-iterating", before, dump_tree(top.command()), "");
        }

        // print()
        vf::TextStream out;
        print(res, out);
        checker.equal("print", printed(res), out.str(), "");
        vf::TextStream out2;
        auto* buf = std::cout.rdbuf(out2.rdbuf());
        print(res);
        std::cout.rdbuf(buf);
        checker.equal("print-to-stdout", out.str(), out2.str(), "");
        ctx.count("printed");
    }
}

namespace vf
{
    const Property property = {
        "C23",
        "a decorated parser and a command line; all views are compared with the definitions before, during and after parsing; "
        "non-trivial: the command line isn't empty",
        run,
        {"argument_views", "option_views", "command_views", "source_views", "lookups", "stop_options", "views_in_callbacks",
         "views_from_iterators", "printed", "successes", "failures"},
    };
}
