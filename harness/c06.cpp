// Aliases: names that share values, and where each value came from.
#include "cmdline.hpp"
#include <algorithm>
using namespace vf;

namespace
{
    void run(Ctx& ctx)
    {
        Profile p;
        p.abbrev = p.ci = 0.05;
        p.ignore_opts = p.ignore_args = 0;
        p.min_opts = 2;
        p.max_opts = 7;
        p.alias = 0.75;
        p.arg_alias = 0.5;
        p.initial = 0.15;
        p.special_type = 0.03;
        p.mandatory = 0.05;
        p.commands = 0.2;
        p.max_optional_uses = 9;
        p.mutate = 0.06;
        p.unknown = 0.02;
        p.count_ok = 0.97;
        p.callbacks = 0.2;
        p.actions = 0.4;
        p.huge = 0.002;
        CmdCase c;
        if (!model_case(ctx, p, c))
            return;
        if (c.model.root.code != ParserResultCode::SUCCESS)
            return;
        // Names in the same group are interchangeable; views give the same
        // values as names; every value knows the option or argument it came
        // from.
        auto rec = std::make_shared<Recorder>();
        vf::TextStream ss;
        auto parser = make_parser(c.spec, rec, &ss);
        auto res = parser.parse(views(c.args));
        std::function<void(const argos::ParsedArguments&, const CmdSpec&, const Node&, bool)> visit =
            [&](const argos::ParsedArguments& pa, const CmdSpec& cmd, const Node& node, bool root)
        {
            const auto same = [&](const argos::IArgumentView& v, const std::string& name)
            {
                auto a = pa.values(v).raw_values();
                auto b = pa.values(name).raw_values();
                ctx.check(a == b && pa.has(v) == !a.empty() && pa.has(name) == !a.empty(),
                          "view-and-name-disagree", [&] { return name; });
                if (!a.empty())
                    ctx.count("views_with_values");
                if (a.size() > 1)
                {
                    // A single value is requested, but there are several
                    auto e1 = exception_of([&] { (void)pa.value(v); });
                    auto e2 = exception_of([&] { (void)pa.value(name); });
                    ctx.check(e1 == "argos::ArgosException" && e2 == e1, "many-values-as-one",
                              [&] { return name; });
                    ctx.count("many_as_one");
                    return;
                }
                auto x = pa.value(v);
                auto y = pa.value(name);
                ctx.check(x.value() == y.value() && bool(x) == !a.empty() && bool(y) == !a.empty(),
                          "view-and-name-disagree", [&] { return name; });
                if (a.empty())
                    return;
                ctx.check(x.value() == a[0], "value-and-values-disagree", [&] { return name; });
                auto s1 = x.argument();
                auto s2 = y.argument();
                auto s3 = pa.values(v)[0].argument();
                const int i1 = s1 ? id_of(*s1) : 0, i2 = s2 ? id_of(*s2) : 0, i3 = s3 ? id_of(*s3) : 0;
                const int id = node.values.at(name)[0].source;
                ctx.check(i1 == id && i2 == id && i3 == id, "source-of-single-value",
                          [&] { return cat(name, ": ", i1, " ", i2, " ", i3, ", expected ", id); });
            };
            const auto opts = effective_options(c.spec, cmd, root);
            const auto groups = value_groups(cmd, opts);
            if (groups.size() > 256) ctx.count("huge_commands");
            for (auto& v : pa.all_arguments())
                same(*v, v->name());
            for (auto& v : pa.all_options())
            {
                if (v->operation() == OptionOperation::NONE)
                    continue;
                for (auto& f : v->flags())
                    same(*v, f);
                if (!v->alias().empty())
                    same(*v, v->alias());
            }
            std::map<std::string, std::vector<std::string>> members;
            for (auto& [n, g] : groups) members[g].push_back(n);
            for (auto& [g, names] : members)
            {
                if (names.size() > 1)
                    ctx.count("shared_groups");
                for (auto& n : names)
                {
                    auto vals = pa.values(n);
                    ctx.check(vals.size() == node.values.at(g).size(), "shared-names-differ",
                              [&] { return n + " and " + g; });
                    // Every value's source, and everybody who could have
                    // been a source.
                    std::set<int> kinds;
                    size_t i = 0;
                    for (auto v : vals)
                    {
                        auto src = v.argument();
                        const int id = src ? id_of(*src) : 0;
                        kinds.insert(id);
                        ctx.check(id == node.values.at(g)[i].source, "wrong-source", [&]
                            { return cat(n, "[", i, "]: ", id); });
                        ++i;
                    }
                    ctx.check(i == vals.size(), "iteration-count", [&] { return n; });
                    std::set<int> candidates, expected;
                    for (auto& v : vals.arguments())
                        candidates.insert(id_of(*v));
                    for (auto& x : cmd.args)
                        if (groups.at(x.name) == g) expected.insert(x.id);
                    for (auto& x : opts)
                        if (x.op != OptionOperation::NONE && groups.at(x.flags[0]) == g) expected.insert(x.id);
                    for (int id : candidates)
                        ctx.check(expected.contains(id), "foreign-source", [&] { return cat(n, ": ", id); });
                    if (kinds.contains(0)) ctx.count("edited_values");
                    for (int id : kinds)
                        ctx.check(id == 0 || candidates.contains(id), "missing-source", [&] { return cat(n, ": ", id); });
                    if (kinds.size() > 1)
                        ctx.count("values_from_different_sources");
                }
            }
            // Names that don't share values are unrelated: a name that isn't
            // known at all is rejected.
            auto ex = exception_of([&] { (void)pa.values("no such name"); });
            ctx.check(ex == "argos::ArgosException", "unknown-name-accepted", [&] { return ex; });
            // Nor is one that's nearly known
            for (auto& [n, g] : groups)
            {
                std::string other = n;
                switch (ctx.rng.below(5))
                {
                case 0: other.resize(ctx.rng.below(n.size() + 1)); break;
                case 1: other += ctx.rng.pick({'a', 'x', '-', '\0', ' '}); break;
                case 2: other.erase(ctx.rng.below(n.size()), 1); break;
                case 3: other[ctx.rng.below(n.size())] ^= 1; break;
                case 4: other.insert(0, 1, ctx.rng.pick({'-', '/', 'a'})); break;
                }
                bool known = groups.contains(other) || other + "=" == n || other.ends_with('=');
                for (auto& o : opts)
                    for (auto& f : o.flags) known |= f == other;
                if (known) continue;
                const auto e1 = exception_of([&] { (void)pa.value(other); });
                const auto e2 = exception_of([&] { (void)pa.values(other); });
                const auto e3 = exception_of([&] { (void)pa.has(other); });
                ctx.check(e1 == "argos::ArgosException" && e2 == e1 && e3 == e1, "unknown-name-accepted",
                          [&] { return cat(quote(other), " like ", quote(n), ": ", e1, " ", e2, " ", e3); });
                ctx.count("unknown_names");
            }
            auto subs = pa.subcommands();
            for (size_t i = 0; i < subs.size(); ++i)
            {
                const CmdSpec* sc = find_command_by_id(cmd, subs[i].command().id());
                visit(subs[i], *sc, node.subs.at(i), false);
            }
        };
        visit(res, c.spec.root, c.model.root, true);
        ctx.nontrivial = true;
    }
}

const Property vf::property = {
    "C06",
    "A case is a random parser where options and arguments share values through aliases (with each other's "
    "flags, argument names, common new names, transitively) and a command line. All names of a group must give "
    "the same values, names of different groups must not influence each other, views and names must agree and "
    "each value must know the option or argument it came from. Non-trivial: the command line was accepted.",
    run,
    {"shared_groups", "many_as_one", "views_with_values", "values_from_different_sources", "outcome_success", "unknown_names", "huge_commands", "edited_values"}};
