// Builds real parsers from specifications and observes what they do.
#include "spec.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <sstream>

namespace vf
{
    using namespace argos;

    thread_local Recorder* thread_recorder = nullptr;
    thread_local unsigned text_time = 0;

    std::string text_at_this_time(const std::string& text)
    {
        return text_time == 0 || text.empty() ? text : cat(text, " (at ", text_time, ")");
    }

    std::vector<std::string_view> views(const std::vector<std::string>& v)
    {
        return {v.begin(), v.end()};
    }

    namespace
    {
        template <typename ArgsT>
        void perform(ArgsT& args, const std::vector<Action>& actions, long call = 0)
        {
            for (auto& a : actions)
            {
                if (a.at && a.at != call) continue;
                switch (a.kind)
                {
                case Action::APPEND:
                    if (a.name.empty()) args.builder.append(args.view, a.value);
                    else args.builder.append(a.name, a.value);
                    break;
                case Action::ASSIGN:
                    if (a.name.empty()) args.builder.assign(args.view, a.value);
                    else args.builder.assign(a.name, a.value);
                    break;
                case Action::CLEAR:
                    if (a.name.empty()) args.builder.clear(args.view);
                    else args.builder.clear(a.name);
                    break;
                case Action::INSERT:
                    args.new_arguments.insert(args.new_arguments.end(),
                                              a.tokens.begin(), a.tokens.end());
                    break;
                }
            }
        }

        struct OwnBadAlloc : std::bad_alloc
        {
        };
    }

    void throw_kind(int kind, int number)
    {
        switch (kind)
        {
        case 1: throw std::runtime_error(cat("callback ", number));
        case 2: throw std::bad_alloc();
        case 3: throw OwnBadAlloc();
        case 4: throw std::out_of_range(cat("callback ", number));
        case 5: throw argos::ArgosException(cat("callback ", number));
        case 6: throw number;
        case 7: throw std::invalid_argument(cat("callback ", number));
        default: throw CallbackException{number};
        }
    }

    std::string current_exception_text()
    {
        try
        {
            throw;
        }
        catch (CallbackException& ex) { return cat("exception ", ex.number); }
        catch (int n) { return cat("int ", n); }
        catch (std::exception& ex) { return cat(typeid(ex).name(), " ", ex.what()); }
    }

    std::string exception_text(int kind, int number)
    {
        try
        {
            throw_kind(kind, number);
        }
        catch (...) { return current_exception_text(); }
    }

    namespace
    {
        template <typename ArgsT>
        void record(Recorder& shared_rec, char kind, const ArgsT& a)
        {
            Recorder& rec = thread_recorder ? *thread_recorder : shared_rec;
            std::string seen;
            auto o = dynamic_cast<const OptionView*>(static_cast<const IArgumentView*>(&a.view));
            if (!o || o->operation() != OptionOperation::NONE)
            {
                auto values = a.builder.values(a.view).as_strings();
                seen = join_quoted(values);
                const auto ex = exception_of([&]
                {
                    auto v = a.builder.value(a.view);
                    if (bool(v) != !values.empty() || (v && v.as_string() != values[0]))
                        throw Failure{"builder-value-disagrees-with-values", seen};
                });
                if (ex == "std::bad_alloc") throw std::bad_alloc();
                if (ex != (values.size() > 1 ? "argos::ArgosException" : ""))
                    throw Failure{"builder-value-exception", ex + seen};
                if (a.builder.has(a.view) != !values.empty())
                    throw Failure{"builder-has-disagrees-with-values", seen};
                // By name
                auto v = dynamic_cast<const ArgumentView*>(static_cast<const IArgumentView*>(&a.view));
                const auto name = o ? o->flags()[rec.callbacks.size() % o->flags().size()] : v->name();
                if (a.builder.values(name).as_strings() != values || a.builder.has(name) != !values.empty())
                    throw Failure{"builder-values-by-name", name};
                const auto named_ex = exception_of([&]
                {
                    if (a.builder.value(name).as_string("default") != (values.empty() ? "default" : values[0]))
                        throw Failure{"builder-value-by-name", name};
                });
                if (named_ex == "std::bad_alloc") throw std::bad_alloc();
                if (named_ex != ex)
                    throw Failure{"builder-value-by-name-exception", name};
            }
            rec.callbacks.push_back({kind, id_of(a.view), std::string(a.value), seen});
            if (rec.stream && &a.builder.stream() != rec.stream)
                throw Failure{"builder-wrong-stream", ""};
            if (!rec.program_name.empty() && a.builder.program_name() != rec.program_name)
                throw Failure{"builder-wrong-program-name", a.builder.program_name()};
            if (rec.fail_at == rec.callbacks.size())
            {
                if (rec.fail_message.empty())
                    throw_kind(rec.fail_kind, int(rec.fail_at));
                if (rec.fail_with_view)
                    a.builder.error(rec.fail_message, a.view);
                a.builder.error(rec.fail_message);
            }
            if (rec.hook)
                rec.hook(rec.callbacks.back());
        }
    }

    namespace
    {
        // The number of calls of this callback so far.
        long calls(Recorder& shared_rec, char kind, int id)
        {
            Recorder& rec = thread_recorder ? *thread_recorder : shared_rec;
            return std::count_if(rec.callbacks.begin(), rec.callbacks.end(), [&](auto& e) { return e.kind == kind && e.id == id; });
        }

        template <typename ArgsT>
        void perform_nth(Recorder& shared_rec, char kind, ArgsT& a, unsigned n, std::vector<Action> actions)
        {
            if (n == 0) return;
            Recorder& rec = thread_recorder ? *thread_recorder : shared_rec;
            if (std::count_if(rec.callbacks.begin(), rec.callbacks.end(), [&](auto& e) { return e.kind == kind; }) != n)
                return;
            auto o = dynamic_cast<const OptionView*>(static_cast<const IArgumentView*>(&a.view));
            if (o && o->operation() == OptionOperation::NONE)
                std::erase_if(actions, [](auto& x) { return x.kind != Action::INSERT; });
            perform(a, actions);
        }
    }

    int id_of(const IArgumentView& view)
    {
        if (view.id() != 0)
            return view.id();
        if (auto o = dynamic_cast<const OptionView*>(&view))
        {
            if (o->type() == OptionType::HELP) return HELP_ID;
            if (o->type() == OptionType::STOP) return VERSION_ID;
        }
        return 0;
    }

    namespace
    {
        // Equivalent ways to define the same thing, chosen by what is defined
        struct Ways
        {
            uint64_t h;

            bool operator()(unsigned n) // one of n ways
            {
                h = h * 6364136223846793005ull + 1442695040888963407ull;
                return (h >> 33) % n == 0;
            }
        };

        void set_constant(Option& o, const std::string& s, Ways& ways)
        {
            char* end = nullptr;
            errno = 0;
            const long long n = strtoll(s.c_str(), &end, 10);
            const bool numeric = errno == 0 && !s.empty() && *end == 0 && std::to_string(n) == s;
            if (ways(6)) o.constant("REPLACED");
            if (numeric && (n == 0 || n == 1) && ways(2)) o.constant(n == 1);
            else if (numeric && n == int(n) && ways(2)) o.constant(int(n));
            else if (numeric && ways(2)) o.constant(n);
            else if (s.find('\0') == std::string::npos && ways(3)) o.constant(s.c_str());
            else o.constant(s);
        }
    }

    Option make_option(const OptSpec& s, const std::shared_ptr<Recorder>& rec)
    {
        Ways ways{hash_str(s.flags.empty() ? "" : s.flags[0], uint64_t(s.id))};
        Option o;
        if (s.flags.size() == 1 && !ways(4))
        {
            if (ways(3)) o.flags({"-replaced", "-also-replaced"}).flag(s.flags[0]);
            else o = Option(s.flags[0]);
        }
        else if (s.flags.size() == 2 && !ways(4))
            o = Option(s.flags[0], s.flags[1]);
        else if (s.flags.size() == 3 && !ways(3))
            o = Option{s.flags[0], s.flags[1], s.flags[2]};
        else
            o.flags(s.flags);
        o.id(s.id);
        if (s.op != OptionOperation::ASSIGN || ways(2)) o.operation(s.op);
        if (s.type != OptionType::NORMAL || ways(2)) o.type(s.type);
        if (ways(8)) o.argument("REPLACED").argument("");
        if (!s.argument.empty()) o.argument(s.argument);
        if (!s.constant.empty()) set_constant(o, s.constant, ways);
        if (!s.initial.empty()) o.initial_value(s.initial);
        if (!s.alias.empty()) o.alias(s.alias);
        if (s.mandatory)
        {
            if (ways(3)) o.mandatory();
            else if (ways(2)) o.optional(false);
            else o.optional().mandatory(true);
        }
        else if (ways(8)) o.mandatory().optional();
        if (!s.help.empty())
        {
            if (rec && rec->live_texts) o.help([text = s.help] { return text_at_this_time(text); });
            else o.help(s.help);
        }
        if (!s.section.empty()) o.section(s.section);
        o.visibility(s.visibility);
        if (s.callback)
        {
            o.callback([rec, actions = s.actions](OptionCallbackArguments& a)
            {
                record(*rec, 'o', a);
                perform(a, actions, calls(*rec, 'o', a.view.id()));
            });
        }
        if (ways(6))
        {
            // The copy is independent of the original
            Option copy(o);
            o.argument("REPLACED").id(-99).flags({});
            return copy;
        }
        return o;
    }

    Argument make_argument(const ArgSpec& s, const std::shared_ptr<Recorder>& rec)
    {
        Ways ways{hash_str(s.name, uint64_t(s.id))};
        const bool rename = ways(4);
        Argument a(rename ? "REPLACED" : s.name);
        if (rename || ways(8)) a.name(s.name);
        a.id(s.id);
        const bool recount = ways(6);
        if (recount) a.count(7);
        else if (ways(4)) a.optional().mandatory();
        if (recount || s.min != 1 || s.max != 1)
        {
            if (s.min == s.max && !ways(4)) a.count(s.min);
            else if (s.min == 0 && s.max == 1 && !recount) a.optional(true);
            else if (s.min == 0 && ways(3)) a.count(1, s.max).mandatory(false);
            else if (s.min == 1 && ways(3)) a.count(0, s.max).optional(false);
            else a.count(s.min, s.max);
        }
        if (!s.alias.empty()) a.alias(s.alias);
        if (!s.help.empty())
        {
            if (rec && rec->live_texts) a.help([text = s.help] { return text_at_this_time(text); });
            else a.help(s.help);
        }
        if (!s.section.empty()) a.section(s.section);
        a.visibility(s.visibility);
        if (s.callback)
        {
            a.callback([rec, actions = s.actions](ArgumentCallbackArguments& c)
            {
                record(*rec, 'a', c);
                perform(c, actions, calls(*rec, 'a', c.view.id()));
            });
        }
        if (ways(6))
        {
            Argument copy(a);
            a.name("REPLACED").id(-99).count(9);
            return copy;
        }
        return a;
    }

    template <typename T>
    static void fill(T& cmd, const CmdSpec& s, const std::shared_ptr<Recorder>& rec)
    {
        for (auto& o : s.opts)
            cmd.add(make_option(o, rec));
        for (auto& a : s.args)
            cmd.add(make_argument(a, rec));
        for (auto& c : s.cmds)
            cmd.add(make_command(c, rec));
        if (s.require)
            cmd.require_subcommand(*s.require);
        if (s.multi)
            cmd.allow_multiple_subcommands(true);
        for (auto& [id, text] : s.texts)
        {
            if (rec && rec->live_texts) cmd.text(id, [text = text] { return text_at_this_time(text); });
            else cmd.text(id, text);
        }
    }

    Command make_command(const CmdSpec& s, const std::shared_ptr<Recorder>& rec)
    {
        Command c(s.name);
        c.id(s.id);
        fill(c, s, rec);
        if (!s.section.empty()) c.section(s.section);
        c.visibility(s.visibility);
        return c;
    }

    ArgumentParser make_parser(const ParserSpec& s, const std::shared_ptr<Recorder>& rec,
                               std::ostream* stream)
    {
        Ways ways{hash_str(describe(s), 77)};
        auto p = s.unnamed ? ArgumentParser()
            : ways(3) ? ArgumentParser(std::vector<const char*>{"/usr/bin\\/", "C:\\Program Files\\", "/opt/x.y/", "..\\", "\\", "d/e\\"}[ways.h % 6]
                                       + s.root.name)
            : ways(3) ? std::move(ArgumentParser("replaced").program_name(s.root.name))
            : ArgumentParser(s.root.name, false);
        if (rec->watch)
        {
            rec->stream = stream;
            rec->program_name = s.root.name;
        }
        if (stream && ways(4))
        {
            // What the program has selected for its own numbers
            stream->setf(std::ios::hex, std::ios::basefield);
            stream->setf(std::ios::showbase | std::ios::uppercase | std::ios::boolalpha | std::ios::left);
            stream->fill('*');
            stream->precision(1);
            stream->imbue(std::locale());
        }
        p.option_style(s.style)
            .auto_exit(false)
            .allow_abbreviated_options(s.abbrev)
            .case_insensitive(s.ci)
            .ignore_undefined_options(s.ignore_opts)
            .ignore_undefined_arguments(s.ignore_args)
            .generate_help_option(s.gen_help)
            .stream(stream);
        if (!s.version.empty()) p.version(s.version);
        if (s.line_width) p.line_width(s.line_width);
        for (auto& r : s.split_rules) p.add_word_splitting_rule(r);
        if (s.global_arg_cb)
        {
            p.argument_callback([rec, n = s.arg_cb_at, actions = s.arg_cb_actions](ArgumentCallbackArguments& a)
                {
                    record(*rec, 'A', a);
                    perform_nth(*rec, 'A', a, n, actions);
                });
        }
        if (s.global_opt_cb)
        {
            p.option_callback([rec, n = s.opt_cb_at, actions = s.opt_cb_actions](OptionCallbackArguments& a)
                {
                    record(*rec, 'O', a);
                    perform_nth(*rec, 'O', a, n, actions);
                });
        }
        fill(p, s.root, rec);
        return p;
    }

    const CmdSpec* find_command_by_id(const CmdSpec& root, int id)
    {
        if (root.id == id)
            return &root;
        for (auto& c : root.cmds)
            if (auto r = find_command_by_id(c, id)) return r;
        return nullptr;
    }

    Node observe_shallow(const ParsedArguments& args, const CmdSpec& cmd,
                         const std::vector<OptSpec>& opts)
    {
        Node n;
        n.cmd_id = cmd.id;
        n.code = args.result_code();
        for (auto& [name, _] : value_groups(cmd, opts))
        {
            auto& dst = n.values[name];
            for (auto v : args.values(name))
            {
                auto src = v.argument();
                dst.push_back({v.as_string(), src ? id_of(*src) : 0});
            }
            if (args.has(name) != !dst.empty())
                throw Failure{"has-disagrees-with-values", name};
        }
        n.unprocessed = args.unprocessed_arguments();
        if (n.code == ParserResultCode::STOP)
            n.stop_id = id_of(args.stop_option());
        return n;
    }

    Node observe(const ParsedArguments& args, const ParserSpec& spec)
    {
        std::function<Node(const ParsedArguments&, const CmdSpec&, bool)> visit =
            [&](const ParsedArguments& a, const CmdSpec& cmd, bool root)
        {
            auto n = observe_shallow(a, cmd, effective_options(spec, cmd, root));
            if (a.name() != cmd.name)
                throw Failure{"wrong-command-name", cat(a.name(), " != ", cmd.name)};
            for (auto& s : a.subcommands())
            {
                const int id = s.command().id();
                const CmdSpec* c = nullptr;
                for (auto& x : cmd.cmds)
                    if (x.id == id) c = &x;
                if (!c)
                    throw Failure{"unexpected-subcommand", cat(std::string(s.name()), " in ", cmd.name)};
                n.subs.push_back(visit(s, *c, false));
            }
            return n;
        };
        return visit(args, spec.root, true);
    }

    Invocation::Invocation(const ParserSpec& s, const std::vector<std::string>& args, uint64_t salt)
        : spec([&]
            {
                auto r = s;
                r.unnamed = !s.root.name.empty() && can_use_argv(args) && mix(hash_str(join_quoted(args), salt)) % 8 < 2;
                return r;
            }()),
          m_args(args), m_way(mix(hash_str(join_quoted(args), salt)))
    {
        m_argv = can_use_argv(args) && m_way % 8 < 4;
        if (!m_argv) return;
        const auto& name = spec.root.name;
        const std::vector<std::string> first{"./" + name, name, "/usr/bin/" + name, "..\\" + name, "C:\\a b/c\\" + name};
        const auto add = [&](const std::string& a)
        {
            std::vector<char> v(a.begin(), a.end());
            v.push_back(0);
            m_strings.push_back(std::move(v));
        };
        // The name of the program doesn't matter if the parser has one
        add(spec.unnamed ? first[(m_way >> 8) % first.size()] : (m_way >> 8) % 2 ? "" : "/bin/another-name");
        for (auto& a : args) add(a);
        for (auto& v : m_strings) m_pointers.push_back(v.data());
        m_pointers.push_back(nullptr);
    }

    bool Invocation::can_use_argv(const std::vector<std::string>& args)
    {
        for (auto& a : args)
            if (a.find('\0') != std::string::npos) return false;
        return true;
    }

    ParsedArguments Invocation::parse(ArgumentParser& parser)
    {
        const auto& cp = parser;
        const int argc = int(m_pointers.size()) - 1;
        if (m_way >> 20 & 1)
            return m_argv ? parser.parse(argc, m_pointers.data()) : parser.parse(views(m_args));
        return m_argv ? cp.parse(argc, m_pointers.data()) : cp.parse(views(m_args));
    }

    ArgumentIterator Invocation::iterate(ArgumentParser& parser)
    {
        const auto& cp = parser;
        const int argc = int(m_pointers.size()) - 1;
        if (m_way >> 20 & 1)
            return m_argv ? parser.make_iterator(argc, m_pointers.data()) : parser.make_iterator(views(m_args));
        return m_argv ? cp.make_iterator(argc, m_pointers.data()) : cp.make_iterator(views(m_args));
    }

    Outcome run_parse(const ParserSpec& spec, const std::vector<std::string>& args)
    {
        Outcome out;
        auto rec = std::make_shared<Recorder>();
        vf::TextStream ss;
        rec->watch = true;
        Invocation inv(spec, args, 1);
        auto parser = make_parser(inv.spec, rec, &ss);
        auto res = inv.parse(parser);
        out.root = observe(res, spec);
        out.callbacks = rec->callbacks;
        out.output = ss.str();
        return out;
    }

    Outcome run_iterator(const ParserSpec& spec, const std::vector<std::string>& args)
    {
        Outcome out;
        auto rec = std::make_shared<Recorder>();
        vf::TextStream ss;
        Invocation inv(spec, args, 2);
        auto parser = make_parser(inv.spec, rec, &ss);
        auto it = inv.iterate(parser);
        const auto top = it.parsed_arguments();
        std::unique_ptr<IArgumentView> arg;
        std::string_view value;
        std::vector<std::pair<std::string_view, size_t>> held;
        size_t steps = 0;
        while (it.next(arg, value))
        {
            if (++steps > args.size() * 20 + 1000)
                throw Failure{"iterator-does-not-end", cat(steps, " steps")};
            Event e;
            e.value = std::string(value);
            held.emplace_back(value, out.events.size());
            if (!arg) e.kind = 'U';
            else
            {
                e.id = id_of(*arg);
                if (dynamic_cast<ArgumentView*>(arg.get())) e.kind = 'A';
                else if (dynamic_cast<OptionView*>(arg.get())) e.kind = 'O';
                else if (dynamic_cast<CommandView*>(arg.get())) e.kind = 'C';
            }
            auto cur = it.parsed_arguments();
            auto cmd = find_command_by_id(spec.root, cur.command().id());
            if (!cmd)
                throw Failure{"iterator-unknown-current-command", std::string(cur.name())};
            auto node = observe_shallow(cur, *cmd, effective_options(spec, *cmd, cmd == &spec.root));
            e.state = state_of(node);
            out.events.push_back(std::move(e));
        }
        if (arg || !value.empty())
            throw Failure{"iterator-leftovers-after-end", std::string(value)};
        std::string what;
        const auto ex = exception_of([&] { if (it.next(arg, value)) throw Failure{"iterator-continues-after-end", ""}; }, &what);
        if (ex.empty())
            out.events.push_back({'D', 0, {}, {}});
        else if (ex == "argos::ArgosException")
            out.events.push_back({'E', 0, {}, {}});
        else
            throw Failure{"iterator-throws-wrong-exception", ex + ": " + what};
        // Views of unknown options and commands refer to the argument list,
        // which can change; the others must still be valid.
        for (auto& [v, i] : held)
        {
            if ((out.events[i].kind == 'A' || out.events[i].kind == 'O')
                && out.events[i].value != v)
            {
                throw Failure{"iterator-value-changed", out.events[i].value};
            }
        }
        out.root = observe(top, spec);
        out.callbacks = rec->callbacks;
        out.output = ss.str();
        return out;
    }

    // ---- Output and comparison -----------------------------------------

    static const char* code_name(ParserResultCode c)
    {
        switch (c)
        {
        case ParserResultCode::NONE: return "NONE";
        case ParserResultCode::SUCCESS: return "SUCCESS";
        case ParserResultCode::STOP: return "STOP";
        case ParserResultCode::FAILURE: return "FAILURE";
        }
        return "?";
    }

    static std::string str(const std::vector<Value>& v)
    {
        std::string r = "[";
        for (auto& x : v)
            r += cat(r.size() > 1 ? ", " : "", quote(x.text), "@", x.source);
        return r + "]";
    }

    std::string state_of(const Node& n)
    {
        std::string r = cat("#", n.cmd_id);
        for (auto& [k, v] : n.values)
            if (!v.empty()) r += cat(" ", k, "=", str(v));
        if (!n.unprocessed.empty())
            r += " rest=" + join_quoted(n.unprocessed);
        return r;
    }

    std::string to_string(const Node& n, int indent)
    {
        std::string pad(size_t(indent), ' ');
        std::string r = cat(pad, "command #", n.cmd_id, " ", code_name(n.code), " stop=", n.stop_id,
                            " ", state_of(n), "\n");
        for (auto& s : n.subs)
            r += to_string(s, indent + 2);
        return r;
    }

    std::string to_string(const std::vector<Event>& events)
    {
        std::string r;
        for (auto& e : events)
            r += cat(e.kind, "#", e.id, " ", quote(e.value), "   ", e.state, "\n");
        return r;
    }

    std::string to_string(const std::vector<CallbackEvent>& events)
    {
        std::string r;
        for (auto& e : events)
            r += cat(e.kind, "#", e.id, " ", quote(e.value), "   ", e.seen, "\n");
        return r;
    }

    std::string compare(const Node& e, const Node& a, const CompareFlags& f)
    {
        if (e.cmd_id != a.cmd_id)
            return cat("command: expected #", e.cmd_id, ", got #", a.cmd_id);
        if (f.codes && e.code != a.code)
            return cat("result code of #", e.cmd_id, ": expected ", code_name(e.code), ", got ",
                       code_name(a.code));
        if (f.stop && e.code == ParserResultCode::STOP && e.stop_id != a.stop_id)
            return cat("stop option: expected #", e.stop_id, ", got #", a.stop_id);
        if (f.values)
        {
            for (auto& [k, v] : e.values)
            {
                auto it = a.values.find(k);
                if (it == a.values.end())
                    return cat("no value named ", k);
                if (f.sources ? it->second != v
                    : !std::equal(v.begin(), v.end(), it->second.begin(), it->second.end(),
                                  [](auto& x, auto& y) { return x.text == y.text; }))
                {
                    return cat("values of ", k, " in #", e.cmd_id, ": expected ", str(v), ", got ",
                               str(it->second));
                }
            }
        }
        if (f.unprocessed && e.unprocessed != a.unprocessed)
            return cat("unprocessed arguments of #", e.cmd_id, ": expected ",
                       join_quoted(e.unprocessed), ", got ", join_quoted(a.unprocessed));
        if (e.subs.size() != a.subs.size())
            return cat("subcommands of #", e.cmd_id, ": expected ", e.subs.size(), ", got ",
                       a.subs.size());
        for (size_t i = 0; i < e.subs.size(); ++i)
        {
            auto r = compare(e.subs[i], a.subs[i], f);
            if (!r.empty()) return r;
        }
        return {};
    }

    std::string compare_outcome(const Outcome& e, const Outcome& a, const CompareFlags& flags)
    {
        if (e.root.code != ParserResultCode::FAILURE)
            return compare(e.root, a.root, flags);
        CompareFlags f;
        f.values = f.sources = f.unprocessed = f.stop = false;
        return compare(e.root, a.root, f);
    }

    // ---- Descriptions ----------------------------------------------------

    static std::string describe(const CmdSpec& c, const std::string& pad)
    {
        vf::TextStream ss;
        for (auto& o : c.opts)
        {
            ss << pad << "option #" << o.id << " " << join_quoted(o.flags) << " op="
               << std::vector<const char*>{"NONE", "ASSIGN", "APPEND", "CLEAR"}[size_t(o.op)];
            if (o.type != OptionType::NORMAL)
                ss << " type=" << std::vector<const char*>{"NORMAL", "HELP", "STOP", "EXIT", "LAST_ARGUMENT", "LAST_OPTION"}[size_t(o.type)];
            if (!o.argument.empty()) ss << " argument=" << quote(o.argument);
            if (!o.constant.empty()) ss << " constant=" << quote(o.constant);
            if (!o.initial.empty()) ss << " initial=" << quote(o.initial);
            if (!o.alias.empty()) ss << " alias=" << quote(o.alias);
            if (o.mandatory) ss << " mandatory";
            if (!o.section.empty()) ss << " section=" << quote(o.section);
            if (!o.help.empty()) ss << " help=" << quote(o.help);
            if (o.visibility != Visibility::NORMAL) ss << " visibility=" << unsigned(o.visibility);
            if (o.callback) ss << " callback";
            for (auto& a : o.actions)
                ss << " {" << std::vector<const char*>{"append", "assign", "clear", "insert"}[a.kind]
                   << " " << a.name << " " << quote(a.value) << " " << join_quoted(a.tokens) << "}";
            ss << "\n";
        }
        for (auto& a : c.args)
        {
            ss << pad << "argument #" << a.id << " " << quote(a.name) << " count=" << a.min << ".." << a.max;
            if (!a.alias.empty()) ss << " alias=" << quote(a.alias);
            if (!a.section.empty()) ss << " section=" << quote(a.section);
            if (!a.help.empty()) ss << " help=" << quote(a.help);
            if (a.visibility != Visibility::NORMAL) ss << " visibility=" << unsigned(a.visibility);
            if (a.callback) ss << " callback";
            for (auto& x : a.actions)
                ss << " {" << std::vector<const char*>{"append", "assign", "clear", "insert"}[x.kind]
                   << " " << x.name << " " << quote(x.value) << " " << join_quoted(x.tokens) << "}";
            ss << "\n";
        }
        for (auto& [id, t] : c.texts)
            ss << pad << "text " << argos::to_string(id) << "=" << quote(t) << "\n";
        if (!c.generated_section.empty())
            ss << pad << "generated options in section " << quote(c.generated_section) << "\n";
        for (auto& s : c.cmds)
        {
            ss << pad << "command #" << s.id << " " << quote(s.name);
            if (s.multi) ss << " multi";
            if (s.require) ss << " require=" << *s.require;
            if (!s.section.empty()) ss << " section=" << quote(s.section);
            if (s.visibility != Visibility::NORMAL) ss << " visibility=" << unsigned(s.visibility);
            ss << "\n" << describe(s, pad + "  ");
        }
        return ss.str();
    }

    std::string describe(const ParserSpec& s)
    {
        vf::TextStream ss;
        ss << "parser " << quote(s.root.name) << " style="
           << std::vector<const char*>{"STANDARD", "SLASH", "DASH"}[size_t(s.style)];
        if (s.unnamed) ss << " unnamed";
        if (s.abbrev) ss << " abbrev";
        if (s.ci) ss << " ci";
        if (s.ignore_opts) ss << " ignore_opts";
        if (s.ignore_args) ss << " ignore_args";
        if (!s.gen_help) ss << " no-help";
        if (!s.version.empty()) ss << " version=" << quote(s.version);
        if (s.line_width) ss << " width=" << s.line_width;
        if (!s.split_rules.empty()) ss << " split=" << join_quoted(s.split_rules);
        if (s.root.multi) ss << " multi";
        if (s.root.require) ss << " require=" << *s.root.require;
        const auto nth = [&](unsigned n, const std::vector<Action>& actions)
        {
            if (n == 0) return;
            ss << "[call " << n << ":";
            for (auto& a : actions)
                ss << " {" << std::vector<const char*>{"append", "assign", "clear", "insert"}[a.kind]
                   << " " << quote(a.value) << " " << join_quoted(a.tokens) << "}";
            ss << "]";
        };
        if (s.global_arg_cb) { ss << " arg_cb"; nth(s.arg_cb_at, s.arg_cb_actions); }
        if (s.global_opt_cb) { ss << " opt_cb"; nth(s.opt_cb_at, s.opt_cb_actions); }
        ss << "\n" << describe(s.root, "  ");
        return ss.str();
    }

    std::string describe(const ParserSpec& s, const std::vector<std::string>& args)
    {
        return describe(s) + "args: " + join_quoted(args);
    }
}
