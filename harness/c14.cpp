// A const parser isn't changed by being used: any history of uses, in one
// thread or in several, is a series of independent uses.
#include "cmdline.hpp"
#include <algorithm>
#include <atomic>
#include <mutex>
#include <sstream>
#include <thread>
#include <utility>
using namespace vf;
using namespace argos;

namespace
{
    Profile profile()
    {
        Profile p;
        p.commands = 0.35;
        p.callbacks = 0.3;
        p.actions = 0.3;
        p.insert = 0.15;
        p.special_type = 0.2;
        p.version = 0.25;
        p.gen_help = 0.8;
        p.alias = 0.4;
        return p;
    }

    struct Line
    {
        std::vector<std::string> args;
        Outcome model;
        std::string output; // of a parser that has never been used before
        Outcome fresh;
        std::string errors; // see report_errors
    };

    void decorate(Rng& rng, CmdSpec& c)
    {
        for (auto& o : c.opts)
            if (rng.chance(0.5)) o.help = "Help for the option " + o.flags[0];
        for (auto& a : c.args)
            if (rng.chance(0.5)) a.help = "Help for the argument " + a.name + ".\n* item one";
        if (rng.chance(0.4)) c.texts[TextId::ABOUT] = "What it is about";
        if (rng.chance(0.2)) c.texts[TextId::FINAL_TEXT] = "The end.";
        if (rng.chance(0.1)) c.texts[TextId::ERROR_USAGE] = "See the manual.";
        if (rng.chance(0.1)) c.texts[TextId::OPTIONS_TITLE] = "Various options";
        for (auto& s : c.cmds) decorate(rng, s);
    }

    std::vector<Line> make_lines(Ctx& ctx, const ParserSpec& spec, int n)
    {
        std::vector<Line> lines;
        for (int i = 0; i < n; ++i)
        {
            Line l;
            l.args = gen_args(ctx.rng, spec, profile());
            l.model = run_model(spec, l.args);
            if (l.model.unspecified)
                continue;
            lines.push_back(std::move(l));
        }
        return lines;
    }

    std::string all_args(const std::vector<Line>& lines)
    {
        std::string s;
        for (auto& l : lines)
            s += "\n  " + join_quoted(l.args);
        return s;
    }

    // Reports errors of various kinds for all values. The text that ends up on
    // the parser's stream is a function of the command line.
    void report_errors(const ParsedArguments& res)
    {
        std::vector<std::string> names;
        const auto add = [&](const IArgumentView& v)
        {
            if (auto a = dynamic_cast<const ArgumentView*>(&v)) names.push_back(a->name());
            else if (auto o = dynamic_cast<const OptionView*>(&v); o && o->operation() != OptionOperation::NONE) names.push_back(o->flags()[0]);
        };
        for (auto& a : res.all_arguments()) add(*a);
        for (auto& o : res.all_options()) add(*o);
        for (auto& n : names)
        {
            const auto vs = res.values(n);
            (void)exception_of([&] { vs.error("values of " + n); });
            for (const auto v : vs)
            {
                (void)exception_of([&] { v.error("value of " + n); });
                (void)exception_of([&] { (void)v.as_int(0, 2); });
                (void)exception_of([&] { (void)v.as_double(); });
                (void)exception_of([&] { (void)v.split(',', 3); });
            }
            (void)exception_of([&] { (void)vs.as_ints(); });
            (void)exception_of([&] { (void)vs.value(vs.size()); });
        }
        (void)exception_of([&] { res.error("an error"); });
    }

    std::shared_ptr<Recorder> make_recorder(bool live)
    {
        auto r = std::make_shared<Recorder>();
        r->live_texts = live;
        return r;
    }

    std::string errors_of(const ParserSpec& spec, const std::vector<std::string>& args, bool live = false)
    {
        vf::TextStream ss;
        auto p = make_parser(spec, make_recorder(live), &ss);
        auto res = p.parse(views(args));
        ss.str({});
        report_errors(res);
        for (auto& s : res.subcommands()) report_errors(s);
        return ss.str();
    }

    std::string output_of(const ParserSpec& spec, const std::vector<std::string>& args, bool live)
    {
        vf::TextStream ss;
        auto p = make_parser(spec, make_recorder(live), &ss);
        (void)p.parse(views(args));
        return ss.str();
    }

    std::string help_of(const ParserSpec& spec, const std::vector<std::string>& path, bool live = false)
    {
        vf::TextStream ss;
        auto p = make_parser(spec, make_recorder(live), &ss);
        if (path.empty()) p.write_help_text();
        else p.write_subcommand_help_text(path);
        return ss.str();
    }

    void check_same(Ctx& ctx, const char* key, const Line& l, const Outcome& got)
    {
        expect_outcome(ctx, key, l.model, got);
        ctx.check(got.callbacks == l.model.callbacks, key, [&]
            { return "callbacks expected:\n" + to_string(l.model.callbacks) + "got:\n" + to_string(got.callbacks); });
    }

    std::string settings_of(const ArgumentParser& p)
    {
        return cat("name ", quote(p.program_name()), " section ", quote(p.current_section()), " abbreviated ", p.allow_abbreviated_options(),
                   " exit ", p.auto_exit(), " case ", p.case_insensitive(), " help ", p.generate_help_option(), " style ", int(p.option_style()),
                   " required ", p.require_subcommand() ? int(*p.require_subcommand()) : -1, " multiple ", p.allow_multiple_subcommands(),
                   " ignore ", p.ignore_undefined_arguments(), p.ignore_undefined_options(), " callbacks ", bool(p.argument_callback()),
                   bool(p.option_callback()), " stream ", static_cast<const void*>(p.stream()), "\n");
    }

    void history(Ctx& ctx)
    {
        auto spec = gen_spec(ctx.rng, profile());
        spec.line_width = unsigned(ctx.rng.range(50, 100));
        decorate(ctx.rng, spec.root);
        if (ctx.rng.chance(0.05)) spec.root.name.clear();
        auto lines = make_lines(ctx, spec, ctx.rng.range(2, 4));
        ctx.describe(describe(spec) + "lines:" + all_args(lines));
        if (lines.empty())
            return;
        ctx.add_sig(ctx.desc);
        const bool live = ctx.rng.chance(0.4);
        text_time = 0;
        for (auto& l : lines)
            l.fresh = run_parse(spec, l.args);

        auto rec = make_recorder(live);
        vf::TextStream ss;
        const ArgumentParser parser = make_parser(spec, rec, &ss);
        const auto settings = settings_of(parser);
        struct Kept { ParsedArguments res; size_t line; };
        std::vector<Kept> kept;
        struct Running { ArgumentIterator it; };
        std::vector<Running> running;
        const int steps = ctx.rng.range(3, 12);
        int parses = 0;
        for (int i = 0; i < steps; ++i)
        {
            const size_t n = ctx.rng.below(lines.size());
            auto& l = lines[n];
            const auto before = ss.str().size();
            rec->callbacks.clear();
            if (live) text_time = unsigned(ctx.rng.below(3));
            if (text_time) ctx.count("live_texts");
            switch (ctx.rng.below(6))
            {
            case 0:
            case 1:
            {
                auto res = parser.parse(views(l.args));
                Outcome o;
                o.root = observe(res, spec);
                o.callbacks = rec->callbacks;
                check_same(ctx, "repeated-parse", l, o);
                const auto expected = text_time ? output_of(spec, l.args, live) : l.fresh.output;
                ctx.check(ss.str().substr(before) == expected, "repeated-parse-output",
                          [&] { return expected + "--\n" + ss.str().substr(before); });
                kept.push_back({std::move(res), n});
                ++parses;
                ctx.count("parses");
                break;
            }
            case 2:
            {
                std::vector<std::string> copy = l.args;
                copy.insert(copy.begin(), "/bin/prog");
                std::vector<char*> argv;
                for (auto& s : copy) argv.push_back(s.data());
                argv.push_back(nullptr);
                // Strings with zeros cannot be represented
                bool zero = false;
                for (auto& s : copy) zero = zero || s.find('\0') != std::string::npos;
                if (zero) break;
                auto res = parser.parse(int(copy.size()), argv.data());
                Outcome o;
                o.root = observe(res, spec);
                o.callbacks = rec->callbacks;
                check_same(ctx, "repeated-parse-argv", l, o);
                kept.push_back({std::move(res), n});
                ++parses;
                ctx.count("argv_parses");
                break;
            }
            case 3:
            {
                parser.write_help_text();
                const auto help = help_of(spec, {}, live);
                ctx.check(ss.str().substr(before) == help, "repeated-help", [&] { return help + "--\n" + ss.str().substr(before); });
                ctx.count("help_texts");
                break;
            }
            case 4:
                if (!spec.root.cmds.empty())
                {
                    auto path = std::vector<std::string>{ctx.rng.pick(spec.root.cmds).name};
                    parser.write_subcommand_help_text(path);
                    const auto expected = help_of(spec, path, live);
                    ctx.check(ss.str().substr(before) == expected, "repeated-subcommand-help",
                              [&] { return expected + "--\n" + ss.str().substr(before); });
                    ctx.count("subcommand_help_texts");
                }
                break;
            case 5:
            {
                // An iterator that's abandoned, sooner or later
                auto it = parser.make_iterator(views(l.args));
                std::unique_ptr<IArgumentView> arg;
                std::string_view value;
                size_t m = ctx.rng.below(l.args.size() + 2);
                while (m-- && it.next(arg, value)) {}
                if (ctx.rng.chance(0.5))
                    running.push_back({std::move(it)});
                ctx.count("abandoned_iterators");
                break;
            }
            }
        }
        ctx.check(settings_of(parser) == settings, "settings-changed", [&] { return settings + "--\n" + settings_of(parser); });
        ctx.count("settings_compared");
        // The results are independent of what happened later
        for (auto& k : kept)
        {
            Outcome o;
            o.root = observe(k.res, spec);
            expect_outcome(ctx, "result-changed-afterwards", lines[k.line].model, o);
            if (live) text_time = unsigned(ctx.rng.below(3));
            ss.str({});
            report_errors(k.res);
            for (auto& s : k.res.subcommands()) report_errors(s);
            const auto expected = errors_of(spec, lines[k.line].args, live);
            ctx.check(ss.str() == expected, "errors-changed-afterwards",
                      [&] { return expected + "--\n" + ss.str(); });
            ctx.count("reported_error_bytes", Counters::mapped_type(ss.view().size()));
            ctx.count("reobserved_results");
        }
        text_time = 0;
        ctx.nontrivial = parses > 1;
    }

    // ------------------------------------------------------------------

    void jitter(uint64_t r)
    {
        if (r % 4 == 0) std::this_thread::yield();
        else if (r % 4 == 1)
        {
            volatile unsigned n = 0;
            for (unsigned i = 0; i < unsigned(r % 2000); ++i) n = n + i;
        }
    }

    void threads(Ctx& ctx)
    {
        auto p = profile();
        p.version = 0; // written to the common stream
        auto spec = gen_spec(ctx.rng, p);
        spec.gen_help = ctx.rng.chance(0.5);
        spec.line_width = unsigned(ctx.rng.range(50, 100));
        decorate(ctx.rng, spec.root);
        std::vector<Line> lines, quiet;
        for (auto& l : make_lines(ctx, spec, 8))
        {
            l.fresh = run_parse(spec, l.args);
            l.errors = errors_of(spec, l.args);
            if (l.fresh.output.empty())
                quiet.push_back(l);
            lines.push_back(l);
        }
        ctx.describe("in several threads: " + describe(spec) + "lines:" + all_args(lines));
        if (quiet.empty())
            return;
        ctx.add_sig(ctx.desc);
        const auto help = help_of(spec, {});
        auto rec = std::make_shared<Recorder>();
        // Without a stream errors and help go to the standard streams;
        // the quiet lines write nothing.
        const ArgumentParser parser = make_parser(spec, rec, nullptr);
        // A result that is shared by all threads.
        vf::TextStream unused;
        Recorder main_rec;
        thread_recorder = &main_rec;
        const auto shared = parser.parse(views(quiet[0].args));
        thread_recorder = nullptr;
        const int num = ctx.rng.range(2, 4);
        std::atomic<int> ready{0};
        std::atomic<unsigned> clock{0};
        std::vector<std::vector<unsigned>> stamps;
        stamps.resize(size_t(num));
        std::vector<Counters> counters(static_cast<size_t>(num));
        std::vector<std::optional<Failure>> failures(static_cast<size_t>(num));
        std::vector<std::thread> pool;
        for (int t = 0; t < num; ++t)
        {
            pool.emplace_back([&, t, seed = ctx.rng.next()]
            {
                Ctx c{Rng(seed)};
                c.counters = &counters[size_t(t)];
                Recorder own;
                thread_recorder = &own;
                own.hook = [&](const CallbackEvent&)
                {
                    stamps[size_t(t)].push_back(clock.fetch_add(1, std::memory_order_relaxed));
                    jitter(c.rng.next());
                };
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < num) std::this_thread::yield();
                try
                {
                    for (int i = 0; i < 5; ++i)
                    {
                        stamps[size_t(t)].push_back(clock.fetch_add(1, std::memory_order_relaxed));
                        jitter(c.rng.next());
                        own.callbacks.clear();
                        switch (c.rng.below(6))
                        {
                        case 0:
                        case 1:
                        {
                            auto& l = c.rng.pick(quiet);
                            auto res = parser.parse(views(l.args));
                            Outcome o;
                            o.root = observe(res, spec);
                            o.callbacks = own.callbacks;
                            check_same(c, "concurrent-parse", l, o);
                            c.count("concurrent_parses");
                            break;
                        }
                        case 2:
                        {
                            auto& l = c.rng.pick(quiet);
                            auto it = parser.make_iterator(views(l.args));
                            std::unique_ptr<IArgumentView> arg;
                            std::string_view value;
                            while (it.next(arg, value)) jitter(c.rng.next());
                            c.check(own.callbacks == l.model.callbacks, "concurrent-iterator-callbacks",
                                    [&] { return to_string(own.callbacks); });
                            c.count("concurrent_iterators");
                            break;
                        }
                        case 3:
                        {
                            // A parser of its own
                            auto& l = c.rng.pick(lines);
                            vf::TextStream ss;
                            auto r = std::make_shared<Recorder>();
                            auto mine = make_parser(spec, r, &ss);
                            mine.write_help_text();
                            c.check(ss.str() == help, "concurrent-help", [&] { return help + "--\n" + ss.str(); });
                            ss.str("");
                            auto res = mine.parse(views(l.args));
                            Outcome o;
                            o.root = observe(res, spec);
                            o.callbacks = own.callbacks;
                            check_same(c, "concurrent-separate-parse", l, o);
                            c.check(ss.str() == l.fresh.output, "concurrent-output", [&] { return l.fresh.output + "--\n" + ss.str(); });
                            ss.str("");
                            report_errors(res);
                            for (auto& s : res.subcommands()) report_errors(s);
                            c.check(ss.str() == l.errors, "concurrent-errors", [&] { return l.errors + "--\n" + ss.str(); });
                            c.count("concurrent_separate_parsers");
                            break;
                        }
                        case 4:
                        {
                            Outcome o;
                            o.root = observe(shared, spec);
                            expect_outcome(c, "concurrent-result", quiet[0].model, o);
                            vf::TextStream ss;
                            print(shared, ss);
                            for (auto& v : shared.all_options())
                            {
                                if (v->operation() == OptionOperation::NONE) continue;
                                (void)shared.values(*v).as_strings();
                                if (shared.values(*v).size() == 1)
                                    (void)shared.value(*v).split(',').as_strings();
                            }
                            c.count("concurrent_result_reads");
                            break;
                        }
                        case 5:
                            // Errors and help texts on the standard streams
                            if (i == 0)
                            {
                                auto& l = c.rng.pick(lines);
                                auto res = parser.parse(views(l.args));
                                Outcome o;
                                o.root = observe(res, spec);
                                expect_outcome(c, "concurrent-parse-with-output", l.model, o);
                                c.count("concurrent_noisy_parses");
                            }
                            break;
                        }
                    }
                }
                catch (Failure& f) { failures[size_t(t)] = f; }
                catch (std::exception& ex) { failures[size_t(t)] = Failure{"concurrent-exception", ex.what()}; }
                thread_recorder = nullptr;
            });
        }
        for (auto& t : pool) t.join();
        for (auto& c : counters)
            for (auto& [k, v] : c) ctx.count(k, v);
        for (auto& f : failures)
            if (f) throw *f;
        // In what order did the threads do things?
        std::vector<std::pair<unsigned, int>> order;
        for (int t = 0; t < num; ++t)
            for (auto s : stamps[size_t(t)]) order.emplace_back(s, t);
        std::sort(order.begin(), order.end());
        size_t switches = 0;
        for (size_t i = 1; i < order.size(); ++i)
        {
            switches += order[i].second != order[i - 1].second;
            ctx.add_sig(uint64_t(order[i].second));
        }
        ctx.count("context_switches_between_operations", switches);
        ctx.count("thread_runs", uint64_t(num));
        ctx.nontrivial = switches > size_t(num);
    }

    void run(Ctx& ctx)
    {
#ifdef __SANITIZE_THREAD__
        threads(ctx);
#else
        if (ctx.rng.chance(0.02)) threads(ctx);
        else history(ctx);
#endif
    }
}

const Property vf::property = {
    "C14",
    "A case is a random parser and several command lines. With the address sanitizer: a random history of parses, "
    "abandoned iterators and help texts with the same const parser, where every result must be that of a parser that "
    "has never been used and must still be the same at the end. With the thread sanitizer: 2-4 threads share a const "
    "parser and a result (and build parsers of their own), with random delays; every result must be the model's and "
    "no data race may be reported. Non-trivial: more than one parse with the same parser; the threads took turns. "
    "The order of the threads' operations is part of what makes cases distinct.",
    run,
    {"parses", "argv_parses", "help_texts", "subcommand_help_texts", "abandoned_iterators", "reobserved_results", "reported_error_bytes", "live_texts",
     "concurrent_parses", "concurrent_iterators", "concurrent_separate_parsers", "concurrent_result_reads",
     "concurrent_noisy_parses", "context_switches_between_operations"}};
