// C22: Errors, help and exits go to the right stream with the right exit code.
// Every case runs in a child process, whose output and status are observed.
#include "cmdline.hpp"
#include "decorate.hpp"
#include <csignal>
#include <cstdlib>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>

using namespace vf;
using namespace argos;

namespace
{
    class MemFile
    {
    public:
        MemFile() : m_fd(memfd_create("c22", 0))
        {
            if (m_fd < 0) throw HarnessError("memfd_create");
        }
        ~MemFile() { close(m_fd); }
        int fd() const { return m_fd; }
        std::string text() const
        {
            std::string s(size_t(std::max<off_t>(0, lseek(m_fd, 0, SEEK_END))), ' ');
            if (pread(m_fd, s.data(), s.size(), 0) != ssize_t(s.size())) throw HarnessError("pread");
            return s;
        }
    private:
        int m_fd;
    };

    // Buffered or not. It's a local object as programs' file streams often
    // are, the library must see to it that nothing is lost when it ends the
    // process.
    class FdBuf : public std::streambuf
    {
    public:
        FdBuf(int fd, bool buffered) : m_fd(fd), m_buffered(buffered) {}
    protected:
        int overflow(int c) override
        {
            m_text += char(c);
            return m_buffered || sync() == 0 ? c : EOF;
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            m_text.append(s, size_t(n));
            return m_buffered || sync() == 0 ? n : 0;
        }
        int sync() override
        {
            const auto n = write(m_fd, m_text.data(), m_text.size());
            const bool ok = n == ssize_t(m_text.size());
            m_text.clear();
            return ok ? 0 : -1;
        }
    private:
        int m_fd;
        bool m_buffered;
        std::string m_text;
    };

    enum class Post { NOTHING, ERROR, VALUE_ERROR, VALUES_ERROR, VALUE_ERROR_NO_MESSAGE, CONVERT, CONVERT_LIST, SPLIT, INDEX, HELP };

    // What is to be done and what is due
    struct Plan
    {
        bool auto_exit, custom_stream, iterator;
        uint64_t salt;
        std::optional<std::pair<int, int>> codes;
        Post post = Post::NOTHING;
        std::vector<size_t> path; // indexes of subcommand results
        std::string name, message;
        size_t value_index = 0;
        size_t index = 0;
        size_t fail_at = 0;
        bool fail_with_view = false;
    };

    ParsedArguments follow(ParsedArguments a, const std::vector<size_t>& path)
    {
        for (auto i : path) a = a.subcommands().at(i);
        return a;
    }

    void perform_post(const Plan& plan, const ArgumentParser& parser, const ParsedArguments& root)
    {
        const auto res = follow(root, plan.path);
        const auto values = [&] { return res.values(plan.name); };
        switch (plan.post)
        {
        case Post::NOTHING: break;
        case Post::ERROR: res.error(plan.message); break;
        case Post::VALUE_ERROR:
            if (const auto vs = values(); vs.size() == 1) res.value(plan.name).error(plan.message);
            else vs.value(plan.value_index).error(plan.message);
        case Post::VALUE_ERROR_NO_MESSAGE: values().value(plan.value_index).error();
        case Post::VALUES_ERROR: values().error(plan.message); break;
        case Post::CONVERT:
        {
            const auto v = values().value(plan.value_index);
            switch (plan.index % 7)
            {
            case 0: (void)v.as_int(); break;
            case 1: (void)v.as_uint(5); break;
            case 2: (void)v.as_llong(0, 16); break;
            case 3: (void)v.as_ulong(); break;
            case 4: (void)v.as_float(); break;
            case 5: (void)v.as_double(1); break;
            case 6: (void)v.as_long(); break;
            }
            break;
        }
        case Post::CONVERT_LIST:
        {
            const auto v = values();
            switch (plan.index % 3)
            {
            case 0: (void)v.as_ints(); break;
            case 1: (void)v.as_ulongs(); break;
            case 2: (void)v.as_doubles(); break;
            }
            break;
        }
        case Post::SPLIT: (void)values().value(plan.value_index).split('\x01', 2, 9); break;
        case Post::INDEX: (void)values().value(plan.index); break;
        case Post::HELP: parser.write_help_text(); break;
        }
    }

    [[noreturn]] void child(const Plan& plan, const ParserSpec& spec, const std::vector<std::string>& args, int out, int err,
                            int custom, int report_fd)
    {
        alarm(60);
        dup2(out, 1);
        dup2(err, 2);
        std::string report;
        FdBuf buf(custom, plan.salt % 2);
        std::ostream stream(&buf);
        auto rec = std::make_shared<Recorder>();
        rec->fail_at = plan.fail_at;
        rec->fail_message = plan.message;
        rec->fail_with_view = plan.fail_with_view;
        try
        {
            Invocation inv(spec, args, plan.salt);
            auto parser = build_parser(nullptr, inv.spec, rec, plan.custom_stream ? &stream : nullptr);
            parser.auto_exit(plan.auto_exit);
            rec->stream = plan.custom_stream ? &stream : &std::cout;
            rec->program_name = spec.root.name;
            if (plan.codes) parser.set_exit_codes(plan.codes->first, plan.codes->second);
            report += "P";
            std::optional<ParsedArguments> res;
            if (plan.iterator)
            {
                auto it = inv.iterate(parser);
                std::unique_ptr<IArgumentView> arg;
                std::string_view value;
                while (it.next(arg, value)) {}
                res = it.parsed_arguments();
            }
            else
                res = inv.parse(parser);
            report += cat(" returned ", int(res->result_code()));
            (void)!write(report_fd, report.data(), report.size());
            report.clear();
            // The parser itself may have been used up
            perform_post(plan, build_parser(nullptr, spec, rec, plan.custom_stream ? &stream : nullptr), *res);
            report = " done";
        }
        catch (ArgosException&) { report += " ArgosException"; }
        catch (CallbackException& ex) { report += cat(" CallbackException ", ex.number); }
        catch (Failure& f) { report += cat(" ", f.key, " ", f.detail); }
        catch (std::exception& ex) { report += cat(" exception ", ex.what()); }
        catch (...) { report += " other exception"; }
        std::cout.flush();
        stream.flush();
        (void)!write(report_fd, report.data(), report.size());
        _exit(77);
    }

    // The full names and commands of everything
    void commands(const CmdSpec& c, std::vector<const CmdSpec*> path, std::vector<std::vector<const CmdSpec*>>& out)
    {
        path.push_back(&c);
        out.push_back(path);
        for (auto& s : c.cmds) commands(s, path, out);
    }

    std::string name_of(const ParserSpec& spec, const CmdSpec& c, int id)
    {
        for (auto& a : c.args)
            if (a.id == id) return a.name;
        for (auto& o : effective_options(spec, c, &c == &spec.root))
        {
            if (o.id != id) continue;
            std::string s;
            for (auto& f : o.flags) s += (s.empty() ? "" : ", ") + f;
            return s;
        }
        return {};
    }

    bool has_id(const ParserSpec& spec, const CmdSpec& c, int id) { return !name_of(spec, c, id).empty(); }

    struct Words
    {
        std::vector<std::string> v;
        explicit Words(const std::string& s)
        {
            std::istringstream ss(s);
            for (std::string w; ss >> w;) v.push_back(w);
        }
    };

    // Compares the message whose wording isn't known.
    std::string compare_unknown_message(const ParserSpec& spec, const std::vector<const CmdSpec*>& path, const std::string& prefix,
                                        const std::string& mention, const std::string& text)
    {
        // The usage or custom text is at the end, on lines of its own
        const auto name = full_name(path) + ": " + prefix;
        if (text.compare(0, name.size(), name) != 0)
            return "the message doesn't start with " + quote(name);
        std::string last;
        for (size_t end = text.find('\n'); end != text.npos; end = text.find('\n', end + 1))
        {
            const auto message = text.substr(name.size(), end - name.size());
            last = compare_words(error_words(spec, path, prefix + message), text);
            if (!last.empty()) continue;
            if (Words(message).v.empty()) return "there's no message";
            // All the words of the mention must be there
            const auto words = Words(message).v;
            for (auto& w : Words(mention).v)
            {
                bool found = false;
                for (auto& x : words) found = found || x.find(w) != x.npos;
                if (!found) return cat("the message doesn't mention ", quote(w));
            }
            return {};
        }
        return last.empty() ? "no line" : last;
    }

    void run(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        CmdCase c;
        Profile p;
        p.commands = 0.45;
        p.callbacks = rng.pick({0.0, 0.4});
        p.actions = 0.1;
        p.special_type = 0.25;
        p.gen_help = 0.8;
        p.version = 0.3;
        p.alias = 0.4;
        p.mutate = rng.pick({0.0, 0.3, 0.8});
        c.spec = gen_spec(rng, p);
        Decoration d;
        d.text = rng.pick({0.0, 0.3});
        d.odd_layout = rng.chance(0.3);
        decorate(rng, c.spec, d);
        c.spec.line_width = 400;
        c.args = gen_args(rng, c.spec, p);
        if (!predict(ctx, c)) return;
        const auto& spec = c.spec;
        const auto& m = c.model;

        Plan plan{};
        plan.auto_exit = rng.chance(0.75);
        plan.custom_stream = rng.chance(0.4);
        plan.iterator = rng.chance(0.3);
        plan.salt = rng.next();
        if (rng.chance(0.6))
            plan.codes = {rng.pick({0, 1, 2, 3, 64, 42, 127, 255}), rng.pick({0, 0, 1, 7, 64, 200})};
        plan.message = std::string(rng.pick({"An error.", "bad", "Don't (ever) do \"that\":", "\xc3\xa6\xc3\xb8\xc3\xa5 100%"})) +
            (rng.chance(0.3) ? " " + gen_help_text(rng, d) : "");
        const auto error_code = plan.codes ? plan.codes->first : 64;
        const auto normal_code = plan.codes ? plan.codes->second : 0;

        std::vector<std::vector<const CmdSpec*>> paths;
        commands(spec.root, {}, paths);

        // What's due. Words are compared if there's an output
        std::string expected_report = "P";
        int expected_status = 77 << 8;
        enum { STDOUT, STDERR, NOWHERE } stream = NOWHERE;
        std::vector<Word> expected;
        const std::vector<const CmdSpec*>* unknown_message_of = nullptr;
        std::string prefix, mention;
        const auto exits = [&](int code, const char* otherwise)
        {
            if (plan.auto_exit) { expected_status = code << 8; ctx.count("exits"); }
            else expected_report += otherwise;
        };
        // Callback
        if (!m.callbacks.empty() && rng.chance(0.4))
        {
            const auto i = rng.below(m.callbacks.size());
            plan.fail_at = i + 1;
            plan.fail_with_view = rng.chance(0.5);
            if (rng.chance(0.2)) plan.message.clear();
            const std::vector<const CmdSpec*>* path = nullptr;
            // The ids of generated options aren't unique
            size_t n = 0;
            for (auto& q : paths)
                if (has_id(spec, *q.back(), m.callbacks[i].id)) { path = &q; ++n; }
            if (n != 1 || m.callbacks[i].id < 0) return;
            if (plan.message.empty())
            {
                expected_report += cat(" CallbackException ", plan.fail_at);
                ctx.count("callback_exceptions");
            }
            else
            {
                if (plan.fail_with_view) prefix = name_of(spec, *path->back(), m.callbacks[i].id) + ": ";
                expected = error_words(spec, *path, prefix + plan.message);
                stream = STDERR;
                exits(error_code, " ArgosException");
                ctx.count("callback_errors");
            }
        }
        else
        {
            bool ended = false;
            if (m.root.code == ParserResultCode::FAILURE)
            {
                for (auto& q : paths)
                    if (full_name(q) == m.error_command) unknown_message_of = &q;
                if (!unknown_message_of) throw HarnessError("unknown command " + m.error_command);
                mention = m.error_subject;
                stream = STDERR;
                exits(error_code, "");
                ended = true;
                ctx.count("usage_errors");
                if (unknown_message_of->size() > 1) ctx.count("subcommand_errors");
            }
            else if (m.root.code == ParserResultCode::STOP)
            {
                auto node = &m.root;
                std::vector<const CmdSpec*> path{&spec.root};
                while (!node->subs.empty() && node->subs.back().stop_id)
                {
                    node = &node->subs.back();
                    for (auto& s : path.back()->cmds)
                        if (s.id == node->cmd_id) { path.push_back(&s); break; }
                }
                OptionType type = OptionType::NORMAL;
                for (auto& o : effective_options(spec, *path.back(), path.size() == 1))
                    if (o.id == node->stop_id) type = o.type;
                if (type == OptionType::NORMAL) throw HarnessError("stop option");
                if (type == OptionType::HELP)
                {
                    expected = help_words(spec, path);
                    stream = STDOUT;
                    ctx.count(path.size() == 1 ? "help" : "subcommand_help");
                }
                else if (node->stop_id == -1)
                {
                    for (auto& w : Words("prog " + spec.version).v) expected.push_back({w, Word::FREE});
                    stream = STDOUT;
                    ctx.count("version");
                }
                if (type != OptionType::STOP)
                {
                    exits(normal_code, "");
                    ended = true;
                    ctx.count("normal_exits");
                }
            }
            if (!plan.auto_exit || !ended)
                expected_report += cat(" returned ", int(m.root.code));
            if (!plan.auto_exit && ended)
                expected_report += " done";
            if (!ended)
            {
                // Something more
                std::vector<std::pair<std::vector<size_t>, const Node*>> nodes{{{}, &m.root}};
                for (size_t i = 0; i < nodes.size(); ++i)
                {
                    const auto [q, n] = nodes[i];
                    for (size_t j = 0; j < n->subs.size(); ++j)
                    {
                        auto r = q;
                        r.push_back(j);
                        nodes.emplace_back(r, &n->subs[j]);
                    }
                }
                const Node* node;
                std::tie(plan.path, node) = rng.pick(nodes);
                const std::vector<const CmdSpec*>* path = nullptr;
                for (auto& q : paths)
                    if (q.back()->id == node->cmd_id) path = &q;
                if (!path) throw HarnessError("no command");
                if (plan.iterator) { plan.path.clear(); plan.post = Post::NOTHING; }
                const bool has_output = stream != NOWHERE;
                std::vector<std::pair<std::string, std::vector<Value>>> values;
                for (auto& [name, v] : node->values)
                    if (!v.empty()) values.emplace_back(name, v);
                auto kind = Post(rng.below(10));
                if (plan.iterator || has_output) kind = Post::NOTHING;
                if (values.empty() && kind > Post::ERROR && kind < Post::HELP) kind = Post::ERROR;
                if (kind == Post::ERROR)
                {
                    expected = error_words(spec, *path, plan.message);
                    stream = STDERR;
                    exits(error_code, " ArgosException");
                    ctx.count("result_errors");
                }
                else if (kind == Post::HELP)
                {
                    expected = help_words(spec, {&spec.root});
                    stream = STDOUT;
                    expected_report += " done";
                    ctx.count("written_help");
                }
                else if (kind != Post::NOTHING)
                {
                    const auto& [name, v] = rng.pick(values);
                    plan.name = name;
                    plan.value_index = rng.below(v.size());
                    const auto& value = v[plan.value_index];
                    bool same = true;
                    for (auto& x : v) same = same && x.source == v[0].source;
                    const bool list = kind == Post::VALUES_ERROR || kind == Post::CONVERT_LIST || kind == Post::INDEX;
                    const auto source = list ? same ? v[0].source : 0 : value.source;
                    if (source) prefix = name_of(spec, *path->back(), source) + ": ";
                    plan.index = kind == Post::INDEX ? v.size() + rng.below(3) : rng.below(100);
                    const auto invalid = [](const std::string& s)
                    {
                        return s.empty() || (std::isalpha(uint8_t(s[0])) && std::string_view("aAbBcCdDeEfFiInN").find(s[0]) == std::string_view::npos);
                    };
                    bool error = true;
                    switch (kind)
                    {
                    case Post::VALUE_ERROR:
                    case Post::VALUES_ERROR:
                        expected = error_words(spec, *path, prefix + plan.message);
                        break;
                    case Post::VALUE_ERROR_NO_MESSAGE: mention = value.text; break;
                    case Post::CONVERT:
                        error = invalid(value.text);
                        mention = value.text;
                        break;
                    case Post::CONVERT_LIST:
                        error = false;
                        for (auto& x : v)
                        {
                            // The first one is reported
                            if (!invalid(x.text)) break;
                            error = true;
                            mention = x.text;
                            break;
                        }
                        break;
                    case Post::SPLIT:
                        error = value.text.find('\x01') == std::string::npos;
                        break;
                    case Post::INDEX: break;
                    default: break;
                    }
                    if (error)
                    {
                        if (expected.empty()) unknown_message_of = path;
                        plan.post = kind;
                        stream = STDERR;
                        exits(error_code, " ArgosException");
                        ctx.count(cat("value_errors_", int(kind)));
                        if (path->size() > 1) ctx.count("subcommand_errors");
                        if (source) ctx.count("named_errors");
                    }
                    else
                        kind = Post::NOTHING;
                }
                plan.post = kind;
                if (kind == Post::NOTHING) expected_report += " done";
            }
        }
        ctx.nontrivial = stream != NOWHERE || expected_status != 77 << 8;
        const auto plan_text = cat(plan.auto_exit ? "auto_exit " : "", plan.custom_stream ? "stream " : "", plan.iterator ? "iterator " : "",
                                   plan.codes ? cat("codes ", plan.codes->first, ",", plan.codes->second, " ") : "", "post ", int(plan.post), " ",
                                   quote(plan.name), "[", plan.value_index, "] fail_at ", plan.fail_at, plan.fail_with_view ? " view " : " ",
                                   quote(plan.message), "\n");
        ctx.describe(ctx.desc + plan_text);
        ctx.add_sig(plan_text);

        MemFile out, err, custom, report;
        std::cout.flush();
        const auto pid = fork();
        if (pid < 0) throw HarnessError("fork");
        if (pid == 0) child(plan, spec, c.args, out.fd(), err.fd(), custom.fd(), report.fd());
        int status = 0;
        if (waitpid(pid, &status, 0) != pid) throw HarnessError("waitpid");
        ctx.count("monitor_checks");
        ctx.count("processes");

        const auto texts = cat("stdout:\n", out.text(), "stderr:\n", err.text(), "stream:\n", custom.text());
        const auto got_report = report.text();
        // Nothing is reported by processes that exit early.
        if (expected_status != 77 << 8)
        {
            const bool returned = expected_report != "P";
            if (got_report != (returned ? expected_report : ""))
                ctx.fail("did-not-exit", cat("expected ", quote(returned ? expected_report : ""), ", got ", quote(got_report), "\n", texts));
        }
        else if (got_report != expected_report)
            ctx.fail(got_report.empty() && WIFEXITED(status) && WEXITSTATUS(status) != 77 ? "exited" : "wrong-result",
                     cat("expected ", quote(expected_report), ", got ", quote(got_report), " and status ", status, "\n", texts));
        if (status != expected_status)
            ctx.fail("exit-status", cat("expected ", expected_status >> 8, ", got ", WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status), "\n", texts));

        const MemFile* target = stream == NOWHERE ? nullptr : plan.custom_stream ? &custom : stream == STDOUT ? &out : &err;
        for (auto* f : {&out, &err, &custom})
        {
            if (f != target && !f->text().empty())
                ctx.fail("wrong-stream", texts);
        }
        if (target)
        {
            const auto text = target->text();
            const auto diff = unknown_message_of ? compare_unknown_message(spec, *unknown_message_of, prefix, mention, text)
                : compare_words(expected, text);
            if (!diff.empty())
                ctx.fail("wrong-text", diff + "\n" + texts);
            ctx.count(plan.custom_stream ? "on_stream" : stream == STDOUT ? "on_stdout" : "on_stderr");
        }
    }
}

namespace vf
{
    const Property property = {
        "C22",
        "a parser, a command line, exit codes and streams, and an error reported by a callback, the result or a value, all in a separate process; non-trivial: "
        "there is output or the process exits",
        run,
        {"processes", "exits", "normal_exits", "usage_errors", "subcommand_errors", "callback_errors", "callback_exceptions", "help",
         "subcommand_help", "version", "result_errors", "written_help", "value_errors_2", "value_errors_3", "value_errors_4", "value_errors_5",
         "value_errors_6", "value_errors_7", "value_errors_8", "named_errors", "on_stream", "on_stdout", "on_stderr"},
    };
}
