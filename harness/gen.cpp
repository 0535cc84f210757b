// Random parsers and command lines.
#include "spec.hpp"
#include <algorithm>

namespace vf
{
    namespace
    {
        const std::vector<std::string> WORDS = {
            "foo", "foobar", "fo", "foo-bar", "bar", "bar-baz", "Foo", "FOOBAR", "Bar", "x_y",
            "x-y", "xy", "o", "include", "inc", "long-option-name", "a.b", "n1", "no", "not",
            "nothing", "z", "Z^1", "q[", "\xc3\xb8re", "a", "b", "B", "verbose", "version2",
            "he", "hel", "helper", "vers", "_x", "x@y", "1", "42", "k{", "K", "K_", "t:x", "t", "out:", "a+b", "w/o", "c,d", "s;t", "p%q", "x!", "q'r",
        };
        const std::vector<std::string> CONSTANTS = {
            "0", "1", "true", "c", "-x", "a b", "=", "123", "-2147483649", "9223372036854775807", "4294967296", "-5",
        };
        const std::string SHORT = "abcdefgxyzABXFGpq1?#_^:+,@/";

        std::string fold(std::string s)
        {
            for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32);
            return s;
        }

        struct SpecGen
        {
            Rng& rng;
            const Profile& p;
            ParserSpec spec;
            int next_id = 1;
            bool large = false;
            bool deep = false;

            std::string word()
            {
                if (!large || rng.chance(0.3)) return rng.pick(WORDS);
                std::string s;
                const size_t n = 1 + rng.below(8);
                for (size_t i = 0; i < n; ++i) s += char('a' + rng.below(i == 0 ? 26 : 4));
                return s;
            }

            std::string make_flag(bool has_argument)
            {
                std::string f;
                if (rng.chance(0.03))
                {
                    // Those that are otherwise generated, in any case.
                    const std::string w = rng.pick({"h", "H", "help", "HELP", "Help", "version", "VERSION", "Version", "?"});
                    if (spec.style == OptionStyle::SLASH) f = "/" + w;
                    else if (spec.style == OptionStyle::DASH || w.size() == 1) f = "-" + w;
                    else f = "--" + w;
                    return f;
                }
                switch (spec.style)
                {
                case OptionStyle::STANDARD:
                    if (rng.chance(0.5))
                        return std::string("-") + SHORT[rng.below(SHORT.size())];
                    f = "--" + word();
                    break;
                case OptionStyle::SLASH:
                    f = "/" + (rng.chance(0.3) ? std::string(1, SHORT[rng.below(SHORT.size())]) : word());
                    break;
                case OptionStyle::DASH:
                    f = "-" + (rng.chance(0.3) ? std::string(1, SHORT[rng.below(SHORT.size())])
                               : (rng.chance(0.1) ? "-" : "") + word());
                    break;
                }
                if (has_argument && f.size() > 2 && rng.chance(p.equal_flag))
                    f += "=";
                return f;
            }

            bool unused(const std::vector<OptSpec>& opts, const std::vector<std::string>& more,
                        const std::string& flag)
            {
                const auto key = [&](const std::string& s) { return spec.ci ? fold(s) : s; };
                for (auto& o : opts)
                    for (auto& f : o.flags)
                        if (key(f) == key(flag)) return false;
                for (auto& f : more)
                    if (key(f) == key(flag)) return false;
                return true;
            }

            OptSpec option(const CmdSpec& cmd)
            {
                OptSpec o;
                o.id = next_id++;
                o.op = OptionOperation(rng.weighted({p.op_none,
                    std::max(0.05, 1 - p.op_none - p.op_append - p.op_clear), p.op_append, p.op_clear}));
                const bool has_arg = rng.chance(p.has_argument);
                switch (o.op)
                {
                case OptionOperation::NONE:
                    if (rng.chance(p.has_argument * 0.5)) o.argument = "N";
                    break;
                case OptionOperation::ASSIGN:
                    if (has_arg) o.argument = rng.pick({"ARG", "<ARG>", "FILE", "n"});
                    else if (rng.chance(p.has_constant)) o.constant = rng.pick(CONSTANTS);
                    break;
                case OptionOperation::APPEND:
                    if (has_arg) o.argument = rng.pick({"ARG", "<ARG>", "FILE", "n"});
                    else o.constant = rng.pick(CONSTANTS);
                    break;
                case OptionOperation::CLEAR:
                    if (rng.chance(p.has_argument * 0.4)) o.argument = "N";
                    break;
                }
                const int n = rng.range(1, rng.chance(0.4) ? 3 : 1);
                for (int i = 0, tries = 0; i < n && tries < 30; ++tries)
                {
                    auto f = make_flag(!o.argument.empty());
                    if (unused(cmd.opts, o.flags, f))
                    {
                        o.flags.push_back(f);
                        ++i;
                    }
                }
                if (rng.chance(p.initial) && o.op != OptionOperation::NONE)
                    o.initial = rng.pick({"init", "0", "a,b", "-y"});
                if (rng.chance(p.mandatory) && o.op != OptionOperation::CLEAR && o.op != OptionOperation::NONE)
                    o.mandatory = true;
                if (o.op != OptionOperation::NONE && rng.chance(p.alias))
                    o.alias = alias(cmd);
                return o;
            }

            OptSpec special(const CmdSpec& cmd)
            {
                OptSpec o;
                o.id = next_id++;
                o.type = rng.pick({OptionType::HELP, OptionType::STOP, OptionType::EXIT,
                                   OptionType::LAST_ARGUMENT, OptionType::LAST_OPTION,
                                   OptionType::LAST_ARGUMENT, OptionType::LAST_OPTION});
                if (o.type == OptionType::LAST_ARGUMENT || o.type == OptionType::LAST_OPTION)
                {
                    if (rng.chance(0.6))
                    {
                        o.flags = {spec.style == OptionStyle::SLASH ? "/-" : "--"};
                        if (unused(cmd.opts, {}, o.flags[0]))
                        {
                            if (rng.chance(0.6)) o.op = OptionOperation::NONE;
                            return o;
                        }
                        o.flags.clear();
                    }
                }
                if (rng.chance(0.25))
                {
                    o.op = rng.pick({OptionOperation::ASSIGN, OptionOperation::APPEND, OptionOperation::NONE, OptionOperation::CLEAR});
                    o.argument = "VAL";
                }
                else if (rng.chance(0.1))
                {
                    o.op = rng.pick({OptionOperation::CLEAR, OptionOperation::NONE, OptionOperation::APPEND});
                    if (o.op == OptionOperation::APPEND) o.constant = rng.pick(CONSTANTS);
                }
                const size_t n = rng.chance(0.35) ? size_t(rng.range(2, 3)) : 1;
                for (int tries = 0; o.flags.size() < n && tries < 30; ++tries)
                {
                    auto f = make_flag(!o.argument.empty());
                    if (unused(cmd.opts, o.flags, f))
                        o.flags.push_back(f);
                }
                if (o.op != OptionOperation::NONE)
                {
                    if (rng.chance(p.initial * 0.5)) o.initial = rng.pick({"init", "0", "a,b", "-y"});
                    if (rng.chance(p.alias * 0.5)) o.alias = alias(cmd);
                    if (o.op != OptionOperation::CLEAR && rng.chance(p.mandatory * 0.2)) o.mandatory = true;
                }
                return o;
            }

            // Alias: a free name, the name of an argument or somebody's flag
            std::string alias(const CmdSpec& cmd)
            {
                std::vector<std::string> names = {"alias1", "alias2"};
                for (auto& a : cmd.args)
                    names.push_back(a.name);
                for (auto& o : cmd.opts)
                {
                    if (o.op == OptionOperation::NONE)
                        continue;
                    names.insert(names.end(), o.flags.begin(), o.flags.end());
                    if (!o.alias.empty()) names.push_back(o.alias);
                }
                return rng.pick(names);
            }

            void arguments(CmdSpec& cmd)
            {
                static const std::vector<std::string> NAMES = {"one", "two", "three", "four", "FILE", "<file>", "[x]"};
                auto names = NAMES;
                rng.shuffle(names);
                if (large)
                    for (int i = 0; i < 14; ++i) names.push_back("arg" + std::to_string(i));
                const int n = rng.range(p.min_args, large ? std::max(p.max_args, 20) : p.max_args);
                for (int i = 0; i < n; ++i)
                {
                    ArgSpec a;
                    a.id = next_id++;
                    a.name = names[size_t(i) % names.size()];
                    if (rng.chance(p.arg_variable))
                    {
                        a.min = unsigned(rng.below(rng.chance(0.15) ? 8 : 3));
                        a.max = a.min + unsigned(rng.range(1, rng.chance(0.1) ? 12 : 3));
                        if (rng.chance(0.15)) a.max = UINT32_MAX - unsigned(rng.below(2));
                    }
                    else
                    {
                        a.min = a.max = unsigned(rng.weighted({0.0, 0.7, 0.17, 0.08, 0.03, 0.01, 0.01}));
                        if (a.min == 0) a.min = a.max = 1;
                    }
                    if (rng.chance(p.arg_alias))
                        a.alias = alias(cmd);
                    cmd.args.push_back(a);
                }
            }

            void command(CmdSpec& cmd, int depth)
            {
                if (depth == 0)
                    deep = p.max_depth > 2 && p.commands > 0 && !large && rng.chance(0.04);
                const bool subs = deep ? depth < p.max_depth + 4 && rng.chance(0.85)
                    : depth < p.max_depth && rng.chance(depth == 0 ? p.commands : p.commands * 0.35);
                if (!subs)
                    arguments(cmd);
                const int n = rng.range(p.min_opts, large ? std::max(p.max_opts, 40) : p.max_opts);
                for (int i = 0; i < n; ++i)
                {
                    auto o = rng.chance(p.special_type) ? special(cmd) : option(cmd);
                    if (!o.flags.empty())
                        cmd.opts.push_back(std::move(o));
                }
                // Aliases of what is defined later
                if (p.alias > 0)
                {
                    for (auto& o : cmd.opts)
                        if (o.op != OptionOperation::NONE && o.type == OptionType::NORMAL && rng.chance(p.alias * 0.2)) o.alias = alias(cmd);
                }
                if (depth == 0 && p.huge > 0 && rng.chance(p.huge))
                {
                    for (int i = rng.range(250, 600); i--;)
                    {
                        OptSpec o;
                        o.id = next_id++;
                        o.op = rng.chance(0.8) ? OptionOperation::ASSIGN : OptionOperation::APPEND;
                        o.argument = "N";
                        o.flags = {(spec.style == OptionStyle::STANDARD ? "--" : spec.style == OptionStyle::SLASH ? "/" : "-") + ("num" + std::to_string(i))};
                        if (rng.chance(p.alias * 0.05)) o.alias = alias(cmd);
                        if (unused(cmd.opts, {}, o.flags[0])) cmd.opts.push_back(std::move(o));
                    }
                }
                if (subs)
                {
                    std::vector<std::string> names = {"run", "build", "RUNNER", "b", "list", "add", "x1", "one"};
                    if (large)
                        for (int i = 0; i < 20; ++i) names.push_back("cmd" + std::to_string(i));
                    rng.shuffle(names);
                    const int m = deep ? depth < 3 ? rng.range(1, 2) : 1 : rng.range(1, large ? depth == 0 ? 24 : 5 : 3);
                    for (int i = 0; i < m; ++i)
                    {
                        CmdSpec c;
                        c.id = next_id++;
                        c.name = names[size_t(i)];
                        command(c, depth + 1);
                        cmd.cmds.push_back(std::move(c));
                    }
                    cmd.multi = rng.chance(p.multi);
                    if (rng.chance(0.35))
                        cmd.require = rng.chance(0.5);
                }
                else if (rng.chance(0.05))
                    cmd.require = false;
                callbacks(cmd);
            }

            static bool all_fixed(const CmdSpec& cmd)
            {
                for (auto& a : cmd.args)
                    if (a.min != a.max) return false;
                return std::all_of(cmd.cmds.begin(), cmd.cmds.end(), all_fixed);
            }

            std::vector<Action> parser_actions()
            {
                std::vector<Action> r;
                const bool insert = (p.insert_anywhere || all_fixed(spec.root)) && rng.chance(0.7);
                if (insert)
                {
                    Action a;
                    a.kind = Action::INSERT;
                    const int n = rng.chance(0.03) ? rng.range(10, 60) : rng.range(1, 3);
                    for (int i = 0; i < n; ++i)
                    {
                        // (options of the top-level command, as often as not)
                        if (!spec.root.opts.empty() && rng.chance(0.6))
                        {
                            auto& x = rng.pick(spec.root.opts);
                            auto f = rng.pick(x.flags);
                            if (!x.argument.empty() && f.back() == '=') f += "ins";
                            a.tokens.push_back(f);
                            if (!x.argument.empty() && f.back() != '=' && f.find("=ins") == f.npos) a.tokens.push_back("ins");
                        }
                        else
                            a.tokens.push_back("pos" + std::to_string(i));
                    }
                    r.push_back(a);
                }
                while (r.size() < 3 && (r.empty() || rng.chance(0.3)))
                {
                    Action a;
                    a.kind = rng.pick({Action::APPEND, Action::ASSIGN, Action::CLEAR});
                    a.value = gen_value(rng, true);
                    r.push_back(a);
                }
                return r;
            }

            void callbacks(CmdSpec& cmd)
            {
                if (p.callbacks <= 0)
                    return;
                const auto groups = value_groups(cmd, cmd.opts);
                std::vector<std::string> names;
                for (auto& [k, _] : groups) names.push_back(k);
                const auto actions = [&](bool allow_view)
                {
                    std::vector<Action> r;
                    while (rng.chance(p.actions) && r.size() < 3)
                    {
                        Action a;
                        a.kind = rng.pick({Action::APPEND, Action::ASSIGN, Action::CLEAR});
                        a.value = gen_value(rng, true);
                        if (!allow_view || rng.chance(0.7))
                        {
                            if (names.empty()) break;
                            a.name = rng.pick(names);
                        }
                        r.push_back(a);
                    }
                    return r;
                };
                for (auto& a : cmd.args)
                {
                    if (!rng.chance(p.callbacks)) continue;
                    a.callback = true;
                    a.actions = actions(true);
                }
                for (auto& o : cmd.opts)
                {
                    if (!rng.chance(p.callbacks)) continue;
                    o.callback = true;
                    o.actions = actions(o.op != OptionOperation::NONE);
                }
                // Insertions: one option that inserts a few tokens that can't
                // trigger more insertions.
                bool fixed = true;
                for (auto& a : cmd.args)
                    fixed = fixed && a.min == a.max;
                if (p.insert_anywhere)
                {
                    fixed = true;
                    for (auto& a : cmd.args)
                    {
                        if (!rng.chance(0.15)) continue;
                        Action x;
                        x.kind = Action::INSERT;
                        x.at = 1 + unsigned(rng.below(2));
                        const int n = rng.range(1, 3);
                        for (int i = 0; i < n; ++i)
                        {
                            const OptSpec* o = cmd.opts.empty() || rng.chance(0.6) ? nullptr : &rng.pick(cmd.opts);
                            if (o && o->argument.empty()) x.tokens.push_back(rng.pick(o->flags));
                            else x.tokens.push_back("ins" + std::to_string(i));
                        }
                        a.callback = true;
                        a.actions.push_back(x);
                    }
                }
                if (p.insert > 0 && rng.chance(p.insert) && !cmd.opts.empty() && fixed)
                {
                    auto& o = cmd.opts[rng.below(cmd.opts.size())];
                    Action a;
                    a.kind = Action::INSERT;
                    const int n = rng.chance(0.03) ? rng.range(10, 60) : rng.range(1, 3);
                    for (int i = 0; i < n; ++i)
                    {
                        const auto& x = cmd.opts[rng.below(cmd.opts.size())];
                        if (rng.chance(0.7) && x.id != o.id)
                        {
                            auto f = rng.pick(x.flags);
                            // Inserted tokens are complete
                            if (x.argument.empty())
                                a.tokens.push_back(f);
                            else if (f.back() == '=')
                                a.tokens.push_back(f + "ins");
                            else
                            {
                                a.tokens.push_back(f);
                                a.tokens.push_back("ins");
                            }
                        }
                        else if (!cmd.args.empty() || rng.chance(0.1))
                            a.tokens.push_back("pos" + std::to_string(i));
                        else if (!cmd.cmds.empty() && i + 1 == n && rng.chance(0.5))
                            a.tokens.push_back(cmd.cmds[rng.below(cmd.cmds.size())].name);
                    }
                    // With abbreviations, clusters or case-insensitivity
                    // nothing else than the option itself has its flags.
                    bool recursive = false;
                    for (auto& t : a.tokens)
                        for (auto& f : o.flags)
                            if (t == f) recursive = true;
                    if (!a.tokens.empty() && !recursive)
                    {
                        o.callback = true;
                        o.actions.push_back(a);
                    }
                }
            }
        };
    }

    std::string gen_value(Rng& rng, bool hostile)
    {
        static const std::vector<std::string> PLAIN = {"v", "value", "17", "-3", "file.txt", "a,b,c", "x y", "abc", "/tmp/x"};
        static const std::vector<std::string> HOSTILE = {"", "-", "--", "-x", "--foo", "/foo", "/", "=", "a=b", "-a=b",
            "--foo=bar", "=x", "\xc3\xa6\xc3\xb8", "\xff\xfe", " ", "--", "-h", "/?", "run", "\n", "-ab", "one", "x=", "0"};
        if (hostile && rng.chance(0.4))
            return rng.pick(HOSTILE);
        if (rng.chance(0.15))
        {
            std::string s;
            const size_t n = rng.below(40);
            for (size_t i = 0; i < n; ++i) s += char('a' + rng.below(26));
            return s;
        }
        return rng.pick(PLAIN);
    }

    std::string gen_positional(Rng& rng, OptionStyle style, bool hostile)
    {
        for (int i = 0; i < 50; ++i)
        {
            auto s = gen_value(rng, hostile);
            if (!is_option_token(s, style))
                return s;
        }
        return "p";
    }

    ParserSpec gen_spec(Rng& rng, const Profile& p)
    {
        SpecGen g{rng, p, {}};
        g.large = rng.chance(p.large);
        auto& s = g.spec;
        s.style = std::vector<OptionStyle>{OptionStyle::STANDARD, OptionStyle::SLASH, OptionStyle::DASH}
            [rng.weighted({p.style_standard, p.style_slash, p.style_dash})];
        s.abbrev = rng.chance(p.abbrev);
        s.ci = rng.chance(p.ci);
        s.ignore_opts = rng.chance(p.ignore_opts);
        s.ignore_args = rng.chance(p.ignore_args);
        s.gen_help = rng.chance(p.gen_help);
        if (rng.chance(p.version)) s.version = "1.2.3";
        if (p.callbacks > 0)
        {
            s.global_arg_cb = rng.chance(p.callbacks);
            s.global_opt_cb = rng.chance(p.callbacks);
        }
        s.root.name = "prog";
        s.root.id = 0; // the id of the top-level command cannot be set
        g.command(s.root, 0);
        if (s.global_arg_cb && rng.chance(p.parser_actions))
        {
            s.arg_cb_at = 1 + unsigned(rng.below(3));
            s.arg_cb_actions = g.parser_actions();
        }
        if (s.global_opt_cb && rng.chance(p.parser_actions))
        {
            s.opt_cb_at = 1 + unsigned(rng.below(3));
            s.opt_cb_actions = g.parser_actions();
        }
        return std::move(g.spec);
    }

    namespace
    {
        struct ArgsGen
        {
            Rng& rng;
            const ParserSpec& spec;
            const Profile& p;

            std::string vary(const std::vector<OptSpec>& opts, const OptSpec& o, std::string f)
            {
                if (spec.ci && rng.chance(0.4))
                {
                    for (auto& c : f)
                        if (rng.chance(0.5) && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')))
                            c = char(c ^ 32);
                }
                else if (rng.chance(0.03))
                {
                    for (auto& c : f)
                        if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) c = char(c ^ 32);
                }
                const bool eq = f.back() == '=';
                const size_t min = spec.style == OptionStyle::STANDARD ? 3 : 2;
                if ((spec.abbrev ? rng.chance(0.5) : rng.chance(0.03)) && f.size() > min)
                {
                    size_t n = min + rng.below(f.size() - min);
                    // Prefer abbreviations that work
                    auto g = f.substr(0, n);
                    for (int i = 0; i < 3 && vf::find_option(opts, g, spec.abbrev, spec.ci) != &o && n + 1 < f.size(); ++i)
                        g = f.substr(0, ++n);
                    if (eq && rng.chance(0.5)) g += "=";
                    return g;
                }
                return f;
            }

            bool is_short(const std::string& f)
            {
                return spec.style == OptionStyle::STANDARD && f.size() == 2 && f[1] != '-';
            }

            std::vector<std::string> use(const std::vector<OptSpec>& opts, const OptSpec& o)
            {
                auto flag = rng.pick(o.flags);
                auto f = vary(opts, o, flag);
                if (o.argument.empty())
                {
                    if (is_short(f) && rng.chance(p.cluster))
                    {
                        // -abc
                        std::string t = f;
                        const int n = rng.range(1, 3);
                        for (int i = 0; i < n; ++i)
                        {
                            std::vector<std::pair<const OptSpec*, std::string>> shorts;
                            for (auto& x : opts)
                                for (auto& g : x.flags)
                                    if (is_short(g) && x.type != OptionType::LAST_OPTION
                                        && x.type != OptionType::LAST_ARGUMENT)
                                        shorts.emplace_back(&x, g);
                            if (shorts.empty()) break;
                            auto& [x, g] = shorts[rng.below(shorts.size())];
                            if (o.type == OptionType::LAST_OPTION || o.type == OptionType::LAST_ARGUMENT)
                                break;
                            t += g[1];
                            if (!x->argument.empty())
                            {
                                auto v = gen_value(rng, p.hostile_values);
                                if (rng.chance(0.5)) return {t + v};
                                return {t, v};
                            }
                        }
                        return {t};
                    }
                    return {f};
                }
                auto v = gen_value(rng, p.hostile_values);
                if (f.back() == '=')
                    return {f + v};
                if (is_short(f))
                {
                    if (rng.chance(0.5) && !v.empty()) return {f + v};
                    return {f, v};
                }
                if (rng.chance(0.5) && f.size() > 2) return {f + "=" + v};
                return {f, v};
            }

            void command(const CmdSpec& cmd, bool root, std::vector<std::string>& out, int depth)
            {
                const auto opts = effective_options(spec, cmd, root);
                std::vector<const OptSpec*> normal, terms;
                for (auto& o : opts)
                    (o.type == OptionType::NORMAL ? normal : terms).push_back(&o);
                std::vector<std::vector<std::string>> items;
                for (auto o : normal)
                    if (o->mandatory && rng.chance(p.satisfy))
                        items.push_back(use(opts, *o));
                const int n = normal.empty() ? 0 : rng.range(0, p.max_optional_uses);
                for (int i = 0; i < n; ++i)
                    items.push_back(use(opts, *normal[rng.below(normal.size())]));
                if (!terms.empty() && rng.chance(p.terminator))
                    items.push_back(use(opts, *terms[rng.below(terms.size())]));
                rng.shuffle(items);
                // Positionals
                std::vector<std::string> pos;
                size_t lo = 0, hi = 0;
                for (auto& a : cmd.args) { lo += a.min; hi += std::min(a.max, a.min + 5); }
                size_t count = lo + rng.below(hi - lo + 1);
                if (!rng.chance(p.count_ok))
                    count = rng.below(hi + 3);
                for (size_t i = 0; i < count; ++i)
                    pos.push_back(gen_positional(rng, spec.style, p.hostile_values));
                size_t i = 0, j = 0;
                while (i < items.size() || j < pos.size())
                {
                    if (j == pos.size() || (i < items.size() && rng.chance(0.5)))
                    {
                        out.insert(out.end(), items[i].begin(), items[i].end());
                        ++i;
                    }
                    else
                        out.push_back(pos[j++]);
                }
                if (!cmd.cmds.empty() && depth < 8)
                {
                    const bool require = cmd.require.value_or(true);
                    if (rng.chance(require ? 0.95 : 0.6))
                    {
                        const int m = !cmd.multi ? 1 : depth < 3 ? rng.range(1, 3) : rng.chance(0.2) ? 2 : 1;
                        for (int k = 0; k < m; ++k)
                        {
                            const auto& c = cmd.cmds[rng.below(cmd.cmds.size())];
                            auto name = c.name;
                            if (spec.ci && rng.chance(0.3))
                                for (auto& ch : name)
                                    if ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')) ch = char(ch ^ 32);
                            out.push_back(name);
                            command(c, false, out, depth + 1);
                        }
                    }
                }
            }

            std::string odd_token()
            {
                switch (rng.below(6))
                {
                case 0: return gen_value(rng, true);
                case 1: return (spec.style == OptionStyle::SLASH ? "/" : spec.style == OptionStyle::DASH ? "-" : "--")
                    + rng.pick(WORDS) + (rng.chance(0.3) ? "=val" : "");
                case 2: return spec.style == OptionStyle::SLASH ? "/u" : std::string("-") + SHORT[rng.below(SHORT.size())];
                case 3: return rng.pick({"--", "-", "/", "", "=", "--=", "-=x", "/=", "--version", "--help", "-h", "/?", "/VERSION", "-help"});
                case 4:
                {
                    // Nearly the name of a command
                    const auto* cmd = &spec.root;
                    while (!cmd->cmds.empty() && (cmd == &spec.root || rng.chance(0.4)))
                        cmd = &cmd->cmds[rng.below(cmd->cmds.size())];
                    if (cmd == &spec.root || rng.chance(0.3)) return rng.pick({"run", "build", "list", "b", "one", "BUILD"});
                    auto name = cmd->name;
                    switch (rng.below(4))
                    {
                    case 0: name.pop_back(); break;
                    case 1: name.resize(1 + rng.below(name.size())); break;
                    case 2: name += rng.pick({'s', ' ', '='}); break;
                    case 3: name[rng.below(name.size())] ^= 32; break;
                    }
                    return name;
                }
                default: return gen_positional(rng, spec.style, false);
                }
            }
        };
    }

    std::vector<std::string> gen_args(Rng& rng, const ParserSpec& spec, const Profile& p)
    {
        ArgsGen g{rng, spec, p};
        std::vector<std::string> out;
        g.command(spec.root, true, out, 0);
        if (rng.chance(p.unknown))
            out.insert(out.begin() + std::ptrdiff_t(rng.below(out.size() + 1)), g.odd_token());
        while (rng.chance(p.mutate))
        {
            const size_t i = rng.below(out.size() + 1);
            switch (rng.below(5))
            {
            case 0: if (i < out.size()) out.erase(out.begin() + std::ptrdiff_t(i)); break;
            case 1: if (i < out.size()) out.insert(out.begin() + std::ptrdiff_t(i), std::string(out[i])); break;
            case 2: out.insert(out.begin() + std::ptrdiff_t(i), g.odd_token()); break;
            case 3: if (i + 1 < out.size()) std::swap(out[i], out[i + 1]); break;
            case 4: if (i < out.size()) out[i] = g.odd_token(); break;
            }
        }
        return out;
    }
}
