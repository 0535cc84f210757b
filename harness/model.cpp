// Reference model: how the documentation says that a command line is
// interpreted. Works on the specification only.
#include "spec.hpp"
#include <algorithm>
#include <deque>

namespace vf
{
    namespace
    {
        char lower(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }

        std::string fold(std::string_view s, bool ci)
        {
            std::string r(s);
            if (ci)
                for (auto& c : r) c = lower(c);
            return r;
        }
    }

    bool is_option_token(std::string_view tok, OptionStyle style)
    {
        return tok.size() >= 2 && tok[0] == (style == OptionStyle::SLASH ? '/' : '-');
    }

    std::vector<OptSpec> effective_options(const ParserSpec& spec, const CmdSpec& cmd, bool is_root)
    {
        auto opts = cmd.opts;
        const auto has_flag = [&](std::string_view flag)
        {
            for (auto& o : opts)
                for (auto& f : o.flags)
                    if (fold(f, spec.ci) == fold(flag, spec.ci)) return true;
            return false;
        };
        if (is_root && !spec.version.empty())
        {
            const std::string flag = spec.style == OptionStyle::STANDARD ? "--version"
                : spec.style == OptionStyle::SLASH ? "/VERSION" : "-version";
            if (!has_flag(flag))
            {
                OptSpec o;
                o.id = VERSION_ID;
                o.flags = {flag};
                o.constant = "1";
                o.type = OptionType::STOP;
                o.help = "Display the program version.";
                o.section = cmd.generated_section;
                opts.push_back(o);
            }
        }
        const bool has_help = std::any_of(opts.begin(), opts.end(), [](auto& o)
            { return o.type == OptionType::HELP; });
        if (spec.gen_help && !has_help)
        {
            OptSpec o;
            o.id = HELP_ID;
            o.constant = "1";
            o.type = OptionType::HELP;
            o.help = "Display this help text.";
            o.section = cmd.generated_section;
            std::vector<std::string> flags;
            if (spec.style == OptionStyle::STANDARD) flags = {"-h", "--help"};
            else if (spec.style == OptionStyle::SLASH) flags = {"/?"};
            else flags = {"-h", "-help"};
            for (auto& f : flags)
                if (!has_flag(f)) o.flags.push_back(f);
            if (!o.flags.empty())
                opts.push_back(o);
        }
        for (auto& o : opts)
        {
            if (o.op == OptionOperation::ASSIGN && o.argument.empty() && o.constant.empty())
                o.constant = "1";
        }
        return opts;
    }

    static const OptSpec* lookup(const std::vector<OptSpec>& opts, std::string_view flag,
                                 bool abbrev, bool ci)
    {
        const auto key = fold(flag, ci);
        const OptSpec* match = nullptr;
        int matches = 0;
        for (auto& o : opts)
        {
            for (auto& f : o.flags)
            {
                const auto g = fold(f, ci);
                if (g == key)
                    return &o;
                if (g.compare(0, key.size(), key) == 0)
                {
                    ++matches;
                    match = &o;
                }
            }
        }
        return abbrev && matches == 1 ? match : nullptr;
    }

    const OptSpec* find_option(const std::vector<OptSpec>& opts, std::string_view flag,
                               bool abbrev, bool ci)
    {
        if (auto o = lookup(opts, flag, abbrev, ci))
            return o;
        // --flag=value is also allowed for flags that don't end with '='.
        if (flag.size() > 2 && flag.back() == '=')
        {
            auto o = lookup(opts, flag.substr(0, flag.size() - 1), abbrev, ci);
            if (o && !o->argument.empty())
                return o;
        }
        return nullptr;
    }

    std::map<std::string, std::string> value_groups(const CmdSpec& cmd, const std::vector<OptSpec>& opts)
    {
        std::map<std::string, std::string> parent;
        std::function<std::string(const std::string&)> root = [&](const std::string& s)
        {
            auto it = parent.find(s);
            if (it == parent.end())
            {
                parent[s] = s;
                return s;
            }
            return it->second == s ? s : root(it->second);
        };
        const auto unite = [&](const std::vector<std::string>& names)
        {
            for (auto& n : names)
            {
                const auto a = root(names[0]), b = root(n);
                if (a != b) parent[b] = a;
            }
        };
        for (auto& a : cmd.args)
        {
            std::vector<std::string> n = {a.name};
            if (!a.alias.empty()) n.push_back(a.alias);
            unite(n);
        }
        for (auto& o : opts)
        {
            if (o.op == OptionOperation::NONE)
                continue;
            auto n = o.flags;
            if (!o.alias.empty()) n.push_back(o.alias);
            unite(n);
        }
        std::map<std::string, std::string> result;
        for (auto& [k, _] : std::map<std::string, std::string>(parent))
            result[k] = root(k);
        return result;
    }

    namespace
    {
        // Splits the command line into flags and values. A position is
        // never more than one flag into a token.
        struct Scanner
        {
            OptionStyle style;
            std::deque<std::string> todo;   // tokens that haven't been touched
            std::string token;              // the current token
            std::string rest;               // what hasn't been used of token
            enum { NOTHING, CLUSTER, EQUALS } pending = NOTHING;
            bool odd = false;  // there is a dash inside a cluster

            char prefix() const { return style == OptionStyle::SLASH ? '/' : '-'; }

            // Next flag or positional
            std::optional<std::string> next()
            {
                if (pending == CLUSTER)
                {
                    std::string flag = std::string("-") + rest[0];
                    if (rest[0] == '-')
                        odd = true;
                    rest.erase(0, 1);
                    if (rest.empty())
                        pending = NOTHING;
                    return flag;
                }
                pending = NOTHING;
                if (todo.empty())
                    return {};
                token = todo.front();
                todo.pop_front();
                if (token.size() <= 2 || token[0] != prefix())
                    return token;
                if (style == OptionStyle::STANDARD && token[1] != '-')
                {
                    pending = CLUSTER;
                    rest = token.substr(2);
                    return token.substr(0, 2);
                }
                const auto eq = token.find('=');
                if (eq == std::string::npos)
                    return token;
                pending = EQUALS;
                rest = token.substr(eq + 1);
                return token.substr(0, eq + 1);
            }

            std::optional<std::string> next_value()
            {
                if (pending != NOTHING)
                {
                    pending = NOTHING;
                    return rest;
                }
                if (todo.empty())
                    return {};
                token = todo.front();
                todo.pop_front();
                return token;
            }

            // Turns the rest of a cluster into a token of its own
            void detach()
            {
                if (pending == CLUSTER)
                {
                    todo.push_front("-" + rest);
                    token.resize(token.size() - rest.size());
                    pending = NOTHING;
                }
            }

            std::vector<std::string> remaining()
            {
                detach();
                return {todo.begin(), todo.end()};
            }
        };

        struct Level
        {
            const CmdSpec* cmd;
            std::vector<OptSpec> opts;
            std::map<std::string, std::string> groups;
            std::vector<size_t> path;  // path to the node
            std::map<std::string, std::vector<Value>> store; // canonical name -> values
            std::vector<unsigned> assigned; // number of values each argument gets
            size_t received = 0;
            bool full = false; // a value has been refused
            std::string full_name;
        };

        struct Model
        {
            const ParserSpec& spec;
            Outcome out;
            Scanner scan;
            std::vector<Level> levels;
            bool states = true; // events with states
            enum { NORMAL, ARGS_ONLY, DONE, ERROR } state = NORMAL;
            bool commands_only = false; // a multi command parent has been reactivated

            explicit Model(const ParserSpec& s, const std::vector<std::string>& args)
                : spec(s), scan{s.style, {args.begin(), args.end()}, {}, {}}
            {
                push_level(&spec.root, {}, true, spec.root.name);
            }

            Node& node(const std::vector<size_t>& path)
            {
                Node* n = &out.root;
                for (auto i : path) n = &n->subs[i];
                return *n;
            }
            Level& cur() { return levels.back(); }

            void push_level(const CmdSpec* cmd, std::vector<size_t> path, bool root, std::string full_name)
            {
                Level l;
                l.cmd = cmd;
                l.opts = effective_options(spec, *cmd, root);
                l.groups = value_groups(*cmd, l.opts);
                l.path = std::move(path);
                l.full_name = std::move(full_name);
                levels.push_back(std::move(l));
                node(cur().path).cmd_id = cmd->id;
                for (auto& o : cur().opts)
                {
                    if (!o.initial.empty() && o.op != OptionOperation::NONE)
                        store_for(o).push_back({o.initial, o.id});
                }
                state = NORMAL;
                commands_only = false;
                distribute();
            }

            std::vector<Value>& store_for(const OptSpec& o)
            {
                return cur().store[cur().groups.at(o.flags.front())];
            }

            std::pair<size_t, size_t> min_max(const CmdSpec& c)
            {
                size_t lo = 0, hi = 0;
                for (auto& a : c.args)
                {
                    lo += a.min;
                    hi += a.max;
                }
                return {lo, hi};
            }

            const CmdSpec* find_command(const CmdSpec& c, std::string_view name)
            {
                for (auto& s : c.cmds)
                    if (fold(s.name, spec.ci) == fold(name, spec.ci))
                        return &s;
                return nullptr;
            }

            // Innermost parent that allows multiple subcommands
            std::optional<size_t> multi_parent()
            {
                for (size_t i = levels.size() - 1; i-- > 0;)
                    if (levels[i].cmd->multi) return i;
                return {};
            }

            const CmdSpec* sibling(std::string_view name)
            {
                auto i = multi_parent();
                return i ? find_command(*levels[*i].cmd, name) : nullptr;
            }

            // The number of positional values that remain for the current
            // command.
            size_t count_ahead(size_t received)
            {
                Scanner s = scan;
                bool only = state == ARGS_ONLY;
                auto& l = cur();
                const auto lo = min_max(*l.cmd).first;
                if (state == DONE)
                    return received;
                while (true)
                {
                    if (s.odd)
                        out.unspecified = true;
                    auto t = only ? s.next_value() : s.next();
                    if (!t)
                        return received;
                    if (!only && is_option_token(*t, spec.style))
                    {
                        auto o = find_option(l.opts, *t, spec.abbrev, spec.ci);
                        if (!o)
                            continue;
                        if (!o->argument.empty())
                            s.next_value();
                        if (o->type == OptionType::LAST_OPTION)
                            only = true;
                        else if (o->type != OptionType::NORMAL)
                            return received;
                        continue;
                    }
                    if (received >= lo && sibling(*t))
                        return received;
                    ++received;
                }
            }

            // The number of values each argument has received.
            std::vector<size_t> given(const Level& l)
            {
                std::vector<size_t> r;
                size_t n = l.received;
                for (auto a : l.assigned)
                {
                    r.push_back(std::min<size_t>(n, a));
                    n -= r.back();
                }
                r.resize(l.cmd->args.size());
                return r;
            }

            // Every argument gets its minimum, the first ones get as many
            // as possible of the remaining ones. Values that have been given
            // (before more of them are inserted) stay where they are.
            void distribute(bool last = false)
            {
                auto& l = cur();
                const auto g = given(l);
                size_t first = 0;
                for (size_t i = 0; i < g.size(); ++i)
                    if (g[i]) first = i;
                if (l.full) first = g.size();
                size_t missing = 0;
                for (size_t i = first; i < g.size(); ++i)
                    if (g[i] < l.cmd->args[i].min) missing += l.cmd->args[i].min - g[i];
                const size_t done = min_max(*l.cmd).first - missing;
                const size_t n = last ? 0 : count_ahead(done) - done;
                size_t extra = n < missing ? 0 : n - missing;
                l.assigned.clear();
                for (size_t i = 0; i < g.size(); ++i)
                {
                    auto& a = l.cmd->args[i];
                    const size_t least = i < first ? g[i] : std::max<size_t>(a.min, g[i]);
                    const size_t e = i < first ? 0 : std::min<size_t>(extra, a.max - least);
                    l.assigned.push_back(unsigned(least + e));
                    extra -= e;
                }
            }

            const ArgSpec* next_argument()
            {
                auto& l = cur();
                size_t n = 0;
                for (size_t i = 0; i < l.assigned.size(); ++i)
                {
                    n += l.assigned[i];
                    if (l.received < n)
                    {
                        ++l.received;
                        return &l.cmd->args[i];
                    }
                }
                l.full = true;
                return nullptr;
            }

            bool is_complete()
            {
                auto& l = cur();
                const auto g = given(l);
                for (size_t i = 0; i < g.size(); ++i)
                    if (g[i] < l.cmd->args[i].min) return false;
                return true;
            }

            void sync()
            {
                for (auto& l : levels)
                {
                    auto& n = node(l.path);
                    n.values.clear();
                    for (auto& [name, group] : l.groups)
                        n.values[name] = l.store[group];
                }
            }

            void event(char kind, int id, std::string value)
            {
                if (!states && kind != 'E' && kind != 'D')
                {
                    out.events.push_back({kind, id, std::move(value), {}});
                    return;
                }
                sync();
                auto& l = cur();
                Event e{kind, id, std::move(value), {}};
                if (kind != 'E' && kind != 'D')
                    e.state = state_of(node(l.path));
                out.events.push_back(std::move(e));
            }

            void error(std::string kind, std::string subject, const Level* l = nullptr)
            {
                out.error = std::move(kind);
                out.error_subject = std::move(subject);
                out.error_command = (l ? l : &cur())->full_name;
                for (auto& lv : levels)
                    node(lv.path).code = ParserResultCode::FAILURE;
                state = ERROR;
                event('E', 0, "");
            }

            bool check_mandatory(size_t first)
            {
                for (size_t i = first; i < levels.size(); ++i)
                {
                    for (auto& o : levels[i].opts)
                    {
                        if (!o.mandatory)
                            continue;
                        auto it = levels[i].groups.find(o.flags.front());
                        if (o.op == OptionOperation::NONE || it == levels[i].groups.end()
                            || levels[i].store[it->second].empty())
                        {
                            error("mandatory", o.flags.front(), &levels[i]);
                            return false;
                        }
                    }
                }
                return true;
            }

            bool check_end()
            {
                if (!check_mandatory(0))
                    return false;
                auto& l = cur();
                const bool require = l.cmd->require.value_or(!l.cmd->cmds.empty());
                if (require && node(l.path).subs.empty())
                {
                    error("no-command", "");
                    return false;
                }
                if (!commands_only && !is_complete())
                {
                    error("too-few", cat(min_max(*l.cmd).first, " ", l.received));
                    return false;
                }
                for (auto& lv : levels)
                    node(lv.path).code = ParserResultCode::SUCCESS;
                state = DONE;
                return true;
            }

            void callback(char kind, int id, const std::string& value, const std::vector<Action>* actions,
                          int view_id, const std::string& view_group, bool last = false)
            {
                auto& l = cur();
                std::vector<std::string> seen;
                if (!view_group.empty())
                    for (auto& v : l.store[view_group]) seen.push_back(v.text);
                out.callbacks.push_back({kind, id, value, view_group.empty() ? "" : join_quoted(seen)});
                if (!actions)
                    return;
                const auto call = std::count_if(out.callbacks.begin(), out.callbacks.end(), [&](auto& e) { return e.kind == kind && e.id == id; });
                const auto due = [&](const Action& a) { return !a.at || a.at == call; };
                for (auto& a : *actions)
                {
                    if (a.kind == Action::INSERT || !due(a))
                        continue;
                    const auto group = a.name.empty() ? view_group : l.groups.at(a.name);
                    const int source = a.name.empty() ? view_id : 0;
                    auto& st = l.store[group];
                    if (a.kind == Action::CLEAR || a.kind == Action::ASSIGN)
                        st.clear();
                    if (a.kind != Action::CLEAR)
                        st.push_back({a.value, source});
                }
                // Insertions take effect when the callback returns
                std::vector<std::string> ins;
                for (auto& a : *actions)
                    if (a.kind == Action::INSERT && due(a))
                        ins.insert(ins.end(), a.tokens.begin(), a.tokens.end());
                if (!ins.empty())
                {
                    out.stats["inserted_tokens"] += ins.size();
                    scan.detach();
                    scan.todo.insert(scan.todo.begin(), ins.begin(), ins.end());
                    distribute(last);
                }
            }

            std::vector<Action> current_actions;

            // (what the callback that is about to be called does)
            const std::vector<Action>* global_actions(char kind, bool has_values)
            {
                const auto n = 1 + std::count_if(out.callbacks.begin(), out.callbacks.end(), [&](auto& e) { return e.kind == kind; });
                if (n != (kind == 'A' ? spec.arg_cb_at : spec.opt_cb_at))
                    return nullptr;
                current_actions.clear();
                for (auto& a : kind == 'A' ? spec.arg_cb_actions : spec.opt_cb_actions)
                    if (a.kind == Action::INSERT || has_values) current_actions.push_back(a);
                out.stats["parser_callbacks_with_actions"]++;
                return &current_actions;
            }

            void copy_remaining()
            {
                auto& n = node(cur().path);
                for (auto& t : scan.remaining())
                    n.unprocessed.push_back(t);
            }

            void do_option(const std::string& flag)
            {
                auto& l = cur();
                const OptSpec* o = find_option(l.opts, flag, spec.abbrev, spec.ci);
                if (!o)
                {
                    const bool whole = scan.token.compare(0, flag.size(), flag) == 0;
                    if (!spec.ignore_opts)
                    {
                        error("unknown-option", scan.token);
                        return;
                    }
                    if (!whole || scan.pending == Scanner::CLUSTER)
                        out.unspecified = true;
                    if (!whole)
                    {
                        error("unknown-option", scan.token);
                        return;
                    }
                    out.stats["unknown_options"]++;
                    node(l.path).unprocessed.push_back(scan.token);
                    event('U', 0, scan.token);
                    return;
                }
                std::string value;
                const bool has_group = o->op != OptionOperation::NONE;
                const std::string group = has_group ? l.groups.at(o->flags.front()) : std::string();
                if (!o->argument.empty())
                {
                    out.stats[scan.pending == Scanner::CLUSTER ? "value_attached"
                        : scan.pending == Scanner::EQUALS ? "value_after_equals" : "value_separate"]++;
                    auto v = scan.next_value();
                    if (!v)
                    {
                        // The value of a CLEAR option is gone at this point
                        if (o->op == OptionOperation::CLEAR)
                            l.store[group].clear();
                        error("no-value", flag);
                        return;
                    }
                    value = *v;
                }
                else if (scan.pending == Scanner::CLUSTER)
                {
                    out.stats["clustered_flags"]++;
                }
                const std::string stored = o->argument.empty() ? o->constant : value;
                switch (o->op)
                {
                case OptionOperation::ASSIGN:
                    l.store[group] = {{stored, o->id}};
                    break;
                case OptionOperation::APPEND:
                    l.store[group].push_back({stored, o->id});
                    break;
                case OptionOperation::CLEAR:
                    l.store[group].clear();
                    break;
                case OptionOperation::NONE:
                    break;
                }
                out.stats[cat("op_", int(o->op))]++;
                out.stats[cat("type_", int(o->type))]++;
                if (o->type == OptionType::LAST_OPTION)
                {
                    if (scan.pending != Scanner::NOTHING)
                        out.unspecified = true;
                    state = ARGS_ONLY;
                }
                const bool last = o->type != OptionType::NORMAL && o->type != OptionType::LAST_OPTION;
                if (o->callback)
                    callback('o', o->id, value, &o->actions, o->id, group, last);
                if (spec.global_opt_cb)
                    callback('O', o->id, value, global_actions('O', o->op != OptionOperation::NONE), o->id, group, last);
                switch (o->type)
                {
                case OptionType::NORMAL:
                case OptionType::LAST_OPTION:
                    break;
                case OptionType::HELP:
                case OptionType::EXIT:
                case OptionType::STOP:
                    state = DONE;
                    for (auto& lv : levels)
                    {
                        node(lv.path).code = ParserResultCode::STOP;
                        node(lv.path).stop_id = o->id;
                    }
                    copy_remaining();
                    break;
                case OptionType::LAST_ARGUMENT:
                    if (scan.pending != Scanner::NOTHING)
                        out.unspecified = true;
                    if (!check_end())
                        return;
                    if (auto i = multi_parent())
                    {
                        const int id = o->id;
                        reactivate(*i);
                        event('O', id, value);
                        return;
                    }
                    copy_remaining();
                    break;
                }
                event('O', o->id, value);
            }

            void reactivate(size_t i)
            {
                sync();
                out.stats["reactivated_parents"]++;
                for (size_t j = i + 1; j < levels.size(); ++j)
                    node(levels[j].path).code = ParserResultCode::SUCCESS;
                levels.resize(i + 1);
                state = ARGS_ONLY;
                commands_only = true;
            }

            void do_command(const CmdSpec* cmd)
            {
                auto path = cur().path;
                auto& n = node(path);
                path.push_back(n.subs.size());
                n.subs.emplace_back();
                out.stats["commands"]++;
                push_level(cmd, path, false, cur().full_name + " " + cmd->name);
                event('C', cmd->id, scan.token);
            }

            void do_argument(const std::string& value)
            {
                if (is_complete())
                {
                    if (auto s = sibling(value))
                    {
                        auto i = *multi_parent();
                        if (!check_mandatory(i + 1))
                            return;
                        reactivate(i);
                        do_command(s);
                        return;
                    }
                }
                auto& l = cur();
                if (auto a = next_argument())
                {
                    const auto group = l.groups.at(a->name);
                    l.store[group].push_back({value, a->id});
                    out.stats["positionals"]++;
                    if (a->callback)
                        callback('a', a->id, value, &a->actions, a->id, group);
                    if (spec.global_arg_cb)
                        callback('A', a->id, value, global_actions('A', true), a->id, group);
                    event('A', a->id, value);
                    return;
                }
                if (spec.ignore_args)
                {
                    out.stats["unknown_arguments"]++;
                    node(l.path).unprocessed.push_back(value);
                    event('U', 0, scan.token);
                    return;
                }
                error("too-many", value);
            }

            void run()
            {
                while (state == NORMAL || state == ARGS_ONLY)
                {
                    auto t = state == NORMAL ? scan.next() : scan.next_value();
                    if (!t)
                    {
                        if (check_end())
                            event('D', 0, "");
                        continue;
                    }
                    if (state == NORMAL && is_option_token(*t, spec.style))
                        do_option(*t);
                    else if (cur().cmd->cmds.empty())
                        do_argument(*t);
                    else if (auto c = find_command(*cur().cmd, *t))
                        do_command(c);
                    else
                        error("unknown-command", *t);
                }
                if (state == DONE && (out.events.empty() || out.events.back().kind != 'D'))
                    event('D', 0, "");
                if (scan.odd)
                    out.unspecified = true;
                sync();
            }
        };
    }

    Outcome run_model(const ParserSpec& spec, const std::vector<std::string>& args)
    {
        Model m(spec, args);
        m.states = args.size() < 2000; // They're too large otherwise
        m.run();
        return std::move(m.out);
    }
}
