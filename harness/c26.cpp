// C26: What fails in the middle of an operation reaches the caller and leaves
// nothing broken behind.
#include "cmdline.hpp"
#include "decorate.hpp"
#include "views.hpp"
#include <cstdlib>
#include <new>
#include <stdexcept>

using namespace vf;
using namespace argos;

namespace
{
    // ---- Allocations that fail -------------------------------------------------

    struct Allocations
    {
        bool armed = false;
        bool persistent = false; // all the following ones fail too
        size_t fail_at = 0;
        size_t seen = 0;
        size_t failed = 0;
        long live = 0;
    };

    Allocations g_alloc;

    void* allocate(size_t n, size_t align)
    {
        if (g_alloc.armed)
        {
            ++g_alloc.seen;
            if (g_alloc.fail_at && (g_alloc.persistent ? g_alloc.seen >= g_alloc.fail_at : g_alloc.seen == g_alloc.fail_at))
            {
                ++g_alloc.failed;
                return nullptr;
            }
        }
        ++g_alloc.live;
        if (n == 0) n = 1;
        return align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n);
    }

    void deallocate(void* p)
    {
        if (!p) return;
        --g_alloc.live;
        std::free(p);
    }

    void* allocate_or_throw(size_t n, size_t align)
    {
        if (auto p = allocate(n, align)) return p;
        throw std::bad_alloc();
    }
}

void* operator new(size_t n) { return allocate_or_throw(n, 0); }
void* operator new[](size_t n) { return allocate_or_throw(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return allocate_or_throw(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return allocate_or_throw(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void operator delete(void* p) noexcept { deallocate(p); }
void operator delete[](void* p) noexcept { deallocate(p); }
void operator delete(void* p, size_t) noexcept { deallocate(p); }
void operator delete[](void* p, size_t) noexcept { deallocate(p); }
void operator delete(void* p, std::align_val_t) noexcept { deallocate(p); }
void operator delete[](void* p, std::align_val_t) noexcept { deallocate(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { deallocate(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { deallocate(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { deallocate(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { deallocate(p); }

namespace
{
    // ---- Streams that fail -------------------------------------------------------

    struct StreamFault { int number = 0; };

    // Doesn't allocate memory itself
    class Buffer : public std::streambuf
    {
    public:
        Buffer() : m_data(SIZE, 0) {}
        size_t fail_at = 0;   // the number of the character that fails, 0: none
        bool persistent = false; // all the following ones fail too
        bool throws = false;  // otherwise it just fails

        std::string text() const { return std::string(m_data.data(), m_size); }
        void clear()
        {
            m_size = m_count = 0;
            fail_at = 0;
        }
    protected:
        int_type overflow(int_type c) override
        {
            if (c == traits_type::eof()) return 0;
            ++m_count;
            if (fail_at && (persistent ? m_count >= fail_at : m_count == fail_at))
            {
                if (throws) throw StreamFault{int(fail_at)};
                return traits_type::eof();
            }
            if (m_size < SIZE) m_data[m_size++] = char(c);
            return c;
        }
        int sync() override { return 0; }
    private:
        static constexpr size_t SIZE = 1 << 17;
        std::vector<char> m_data;
        size_t m_size = 0, m_count = 0;
    };

    // ---- Text functions that fail ---------------------------------------------------

    struct TextFault { int number = 0; };
    struct TextError : std::runtime_error { using runtime_error::runtime_error; };

    struct TextFunctions
    {
        int calls = 0;
        int fail_at = 0;
        bool standard = false; // the type of exception
    };

    // ---- Operations ---------------------------------------------------------------

    enum class Result { DONE, FAULT, ARGOS };

    const char* name_of(Result r) { return r == Result::DONE ? "done" : r == Result::FAULT ? "fault" : "argos"; }

    // Only faults can get out, and ArgosExceptions.
    template <typename F>
    Result attempt(Ctx& ctx, const char* what, F fn)
    {
        std::string wrong;
        auto result = Result::DONE;
        try { fn(); }
        catch (std::bad_alloc&) { result = Result::FAULT; }
        catch (StreamFault&) { result = Result::FAULT; }
        catch (TextFault&) { result = Result::FAULT; }
        catch (TextError&) { result = Result::FAULT; }
        catch (ArgosException&) { result = Result::ARGOS; }
        catch (Failure&) { g_alloc.armed = false; throw; }
        catch (std::exception& ex) { g_alloc.armed = false; wrong = cat("std::exception ", ex.what()); }
        catch (...) { g_alloc.armed = false; wrong = "something else"; }
        g_alloc.armed = false;
        if (!wrong.empty())
            ctx.fail("wrong-exception", cat(what, ": ", wrong));
        return result;
    }

    // The operation with allocation number fail_at failing, 0: none
    template <typename F>
    Result with_fault(Ctx& ctx, const char* what, size_t fail_at, bool persistent, F fn)
    {
        g_alloc.fail_at = fail_at;
        g_alloc.persistent = persistent;
        g_alloc.seen = g_alloc.failed = 0;
        const auto r = attempt(ctx, what, [&] { g_alloc.armed = true; fn(); g_alloc.armed = false; });
        g_alloc.fail_at = 0;
        return r;
    }

    struct Counts
    {
        size_t operations = 0, faults = 0, survived = 0, parses = 0, iterations = 0, helps = 0, definitions = 0,
            conversions = 0, errors = 0, stream_faults = 0, stream_throws = 0, text_faults = 0, report_faults = 0, continued = 0;
    };

    // Runs fn without faults, and then some times with them. check is called
    // after each time with whether fn was completed.
    // and clean releases what the time left behind.
    template <typename F, typename C, typename D>
    void explore(Ctx& ctx, Counts& n, const char* what, int times, F fn, C check, D clean)
    {
        Rng& rng = ctx.rng;
        clean();
        // Twice, the first time may create things that last
        for (int i = 0; i < 2; ++i)
        {
            check(with_fault(ctx, what, 0, false, fn));
            clean();
        }
        const auto total = g_alloc.seen;
        for (int i = 0; i < times && total; ++i)
        {
            const size_t at = rng.chance(0.2) ? 1 + rng.below(std::min<size_t>(total, 8)) : 1 + rng.below(total);
            const auto live = g_alloc.live;
            const auto r = with_fault(ctx, what, at, rng.chance(0.3), fn);
            const bool fired = g_alloc.failed != 0;
            ++n.operations;
            n.faults += fired;
            if (fired && r != Result::FAULT) ++n.survived;
            ctx.check(fired || r != Result::FAULT, "exception-without-reason", [&] { return what; });
            check(r);
            clean();
            const auto left = g_alloc.live - live;
            ctx.check(left <= 0, "memory-leak", [&]
                { return cat(what, ": ", left, " blocks after a failing allocation (number ", at, " of ", total, ")"); });
        }
    }

    // ---- Definitions -----------------------------------------------------------------

    // Adds something, several times when that fails.
    template <typename T, typename M>
    void add(Ctx& ctx, Counts& n, T& target, M make)
    {
        Rng& rng = ctx.rng;
        const auto again = [&](auto fn)
        {
            const auto r = with_fault(ctx, "add", 1 + rng.below(12), rng.chance(0.3), fn);
            ++n.operations;
            n.faults += g_alloc.failed != 0;
            n.definitions += r != Result::DONE;
            return r == Result::DONE;
        };
        if (rng.chance(0.5))
        {
            for (int i = 0; i < 3; ++i)
                if (again([&] { target.add(make()); })) return;
        }
        else
        {
            auto item = make();
            auto other = make();
            for (int i = 0; i < 3; ++i)
            {
                if (rng.chance(0.5)) again([&] { other = item; });
                if (rng.chance(0.5)) again([&] { auto copy = other; other = std::move(copy); });
                if (again([&] { target.add(rng.chance(0.5) ? item : other); })) return;
            }
        }
    }

    // A parser whose definitions fail can be used and destroyed, but what
    // it does is its own business.
    void fail_definitions(Ctx& ctx, Counts& n, const ParserSpec& spec, const std::vector<std::string>& args)
    {
        Rng& rng = ctx.rng;
        const auto tokens = views(args);
        long left = 0;
        for (int i = 0; i < 3; ++i)
        {
            const auto live = g_alloc.live;
            {
                Buffer buffer;
                std::ostream stream(&buffer);
                auto rec = std::make_shared<Recorder>();
                auto empty = spec;
                empty.root.args.clear();
                empty.root.opts.clear();
                empty.root.cmds.clear();
                empty.root.require = {};
                ArgumentParser p = make_parser(empty, rec, &stream);
                for (auto& a : spec.root.args) add(ctx, n, p, [&] { return make_argument(a, rec); });
                for (auto& o : spec.root.opts) add(ctx, n, p, [&] { return make_option(o, rec); });
                for (auto& c : spec.root.cmds) add(ctx, n, p, [&] { return make_command(c, rec); });
                const auto& cp = p;
                attempt(ctx, "parse after failing definitions", [&] { (void)cp.parse(tokens); });
                attempt(ctx, "help after failing definitions", [&] { cp.write_help_text(); });
                for (int j = rng.range(0, 3); j--;)
                {
                    with_fault(ctx, "failing parse after failing definitions", 1 + rng.below(100), rng.chance(0.3), [&] { (void)cp.parse(tokens); });
                    ++n.operations;
                    n.faults += g_alloc.failed != 0;
                }
            }
            left = g_alloc.live - live;
        }
        // (the first time may create things that last)
        ctx.check(left <= 0, "memory-leak", [&] { return cat("failing definitions: ", left, " blocks"); });
    }

    // ---- The case -------------------------------------------------------------------

    void body(Ctx& ctx, Counts& n, const ParserSpec& spec, const std::vector<std::string>& args, const Outcome& model)
    {
        Rng& rng = ctx.rng;
        Buffer buffer;
        std::ostream stream(&buffer);
        auto rec = std::make_shared<Recorder>();
        // Kept longer than the parser
        const auto texts = std::make_unique<TextFunctions>();
        ArgumentParser p = make_parser(spec, rec, &stream);
        for (auto id : {TextId::INITIAL_TEXT, TextId::FINAL_TEXT, TextId::ERROR_USAGE, TextId::USAGE_TITLE})
        {
            if (spec.root.texts.contains(id) || !rng.chance(0.7)) continue;
            p.text(id, [texts = texts.get()]
            {
                if (++texts->calls == texts->fail_at)
                {
                    if (texts->standard) throw TextError("a text");
                    throw TextFault{texts->fail_at};
                }
                return std::string("The text of a function that is longer than a short string.");
            });
        }
        const ArgumentParser& cp = p;
        const auto tokens = views(args);
        const CompareFlags flags;
        // What the program has set for its stream is left alone.
        const auto settings = [&]
        {
            return std::tuple(stream.flags(), stream.fill(), stream.precision(), stream.width(), stream.exceptions(), stream.rdbuf(),
                              stream.tie(), stream.getloc() == std::locale::classic());
        };
        const auto same_settings = [&](const char* what, const auto& before)
        {
            ctx.check(settings() == before, "stream-settings-changed", [&] { return what; });
        };
        const auto original_settings = settings();

        // Parsing
        std::optional<ParsedArguments> res;
        const auto judge = [&](const char* what, Result r)
        {
            if (r == Result::ARGOS) ctx.fail("argos-exception", what);
            if (r != Result::DONE) return;
            Outcome got;
            got.root = observe(*res, spec);
            got.callbacks = rec->callbacks;
            expect_outcome(ctx, what, model, got, flags);
        };
        const auto clean = [&]
        {
            res.reset();
            decltype(rec->callbacks)().swap(rec->callbacks);
        };
        const auto nothing = [] {};
        explore(ctx, n, "parse", rng.range(1, 10), [&]
            {
                res.reset();
                rec->callbacks.clear();
                buffer.clear();
                res.emplace(cp.parse(tokens));
            }, [&](Result r) { judge("outcome", r); ++n.parses; }, clean);

        // Iterating
        if (rng.chance(0.6))
        {
            size_t events = 0;
            explore(ctx, n, "iterate", rng.range(1, 5), [&]
                {
                    events = 0;
                    rec->callbacks.clear();
                    buffer.clear();
                    auto it = cp.make_iterator(tokens);
                    std::unique_ptr<IArgumentView> view;
                    std::string_view value;
                    try
                    {
                        while (it.next(view, value)) ++events;
                    }
                    catch (std::bad_alloc&)
                    {
                        // It can be asked again, and must end
                        g_alloc.armed = false;
                        size_t steps = 0;
                        try
                        {
                            while (it.next(view, value))
                                if (++steps > args.size() * 20 + 1000) throw Failure{"iterator-does-not-end", ""};
                        }
                        catch (ArgosException&) {}
                        (void)it.parsed_arguments().result_code();
                        ++n.continued;
                        throw;
                    }
                }, [&](Result r)
                {
                    if (r == Result::DONE && model.root.code == ParserResultCode::SUCCESS)
                        ctx.check(rec->callbacks == model.callbacks, "callbacks-of-iterator", [] { return ""; });
                    ++n.iterations;
                }, clean);
        }

        // Help texts
        buffer.clear();
        cp.write_help_text();
        const auto help = buffer.text();
        const auto same_help = [&](const char* what)
        {
            buffer.clear();
            stream.exceptions(std::ios::goodbit);
            stream.clear();
            cp.write_help_text();
            ctx.check(buffer.text() == help, "help-text-differs-later", [&] { return cat(what, ":\n", buffer.text(), "instead of\n", help); });
        };
        explore(ctx, n, "help", rng.range(1, 5), [&] { buffer.clear(); stream.clear(); cp.write_help_text(); },
                [&](Result r)
                {
                    // A stream catches what's thrown inside it
                    if (r == Result::DONE && stream.good())
                        ctx.check(buffer.text() == help, "help-text-differs", [&] { return buffer.text() + "instead of\n" + help; });
                    if (r == Result::ARGOS) ctx.fail("argos-exception", "help");
                    ++n.helps;
                }, nothing);
        same_settings("failing allocations", original_settings);
        same_help("after failing allocations");
        if (!help.empty())
        {
            // Streams that fail or throw
            const auto at = 1 + rng.below(help.size());
            buffer.clear();
            buffer.fail_at = at;
            buffer.throws = rng.chance(0.5);
            buffer.persistent = rng.chance(0.5);
            const bool pass_on = rng.chance(0.6);
            if (pass_on) stream.exceptions(std::ios::badbit);
            bool failure = false;
            const auto before = settings();
            const auto r = attempt(ctx, "help to a failing stream", [&]
            {
                try { cp.write_help_text(); }
                catch (std::ios::failure&) { failure = true; }
            });
            ctx.check(buffer.text().size() < help.size() && help.compare(0, at - 1, buffer.text(), 0, at - 1) == 0,
                      "text-before-failure", [&] { return buffer.text(); });
            if (pass_on)
            {
                ctx.check(buffer.throws ? r == Result::FAULT || failure : failure, "exception-of-stream", [&] { return name_of(r); });
                ++n.stream_throws;
            }
            else
                ctx.check(r == Result::DONE && !failure, "exception-of-quiet-stream", [&] { return name_of(r); });
            ctx.check(stream.bad(), "stream-not-bad", [&] { return name_of(r); });
            same_settings("failing stream", before);
            ++n.stream_faults;
            same_help("after a failing stream");
            // Messages that can't be written don't matter to the result
            buffer.clear();
            buffer.fail_at = 1 + rng.below(5);
            buffer.throws = rng.chance(0.5);
            buffer.persistent = rng.chance(0.5);
            rec->callbacks.clear();
            res.reset();
            judge("outcome-with-failing-stream", attempt(ctx, "parse", [&] { res.emplace(cp.parse(tokens)); }));
            stream.clear();
            buffer.clear();
        }
        // Text functions that throw
        texts->calls = 0;
        cp.write_help_text();
        if (const int calls = texts->calls)
        {
            texts->calls = 0;
            texts->fail_at = rng.range(1, calls);
            texts->standard = rng.chance(0.5);
            stream.exceptions(rng.pick({std::ios::goodbit, std::ios::badbit, std::ios::failbit | std::ios::badbit}));
            const auto before = settings();
            const auto r = attempt(ctx, "help with a failing function", [&] { cp.write_help_text(); });
            ctx.check(r == Result::FAULT, "exception-of-text-function", [&] { return name_of(r); });
            same_settings("failing function", before);
            stream.exceptions(std::ios::goodbit);
            texts->fail_at = 0;
            ++n.text_faults;
            same_help("after a failing function");
        }
        // Also while a mistake is reported
        const auto failing_report = [&](const char* what, auto fn)
        {
            buffer.clear();
            texts->calls = 0;
            (void)attempt(ctx, what, fn);
            const int calls = texts->calls;
            if (!calls) return;
            rec->callbacks.clear();
            texts->calls = 0;
            texts->fail_at = rng.range(1, calls);
            texts->standard = rng.chance(0.5);
            const auto before = settings();
            const auto r = attempt(ctx, what, fn);
            ctx.check(r == Result::FAULT, "exception-of-text-function", [&] { return cat(what, ": ", name_of(r)); });
            same_settings(what, before);
            texts->fail_at = 0;
            ++n.report_faults;
        };
        rec->callbacks.clear();
        failing_report("parse with a failing function", [&] { res.emplace(cp.parse(tokens)); });

        // Results
        buffer.clear();
        stream.clear();
        rec->callbacks.clear();
        res.emplace(cp.parse(tokens));
        failing_report("error with a failing function", [&] { res->error("A message."); });
        const auto before = to_string(observe(*res, spec));
        std::vector<std::string> names;
        for (auto& [name, _] : value_groups(spec.root, effective_options(spec, spec.root, true))) names.push_back(name);
        if (!names.empty())
        {
            for (int i = 0; i < 2; ++i)
            {
                const auto& name = rng.pick(names);
                const int way = rng.range(0, 8);
                std::string first;
                bool have = false;
                explore(ctx, n, "conversion", 3, [&]
                    {
                        buffer.clear();
                        stream.clear();
                        std::string s;
                        switch (way)
                        {
                        case 0: for (auto& x : res->values(name).as_strings()) s += x + ","; break;
                        case 1: for (auto x : res->values(name).as_ints()) s += std::to_string(x) + ","; break;
                        case 2: for (auto x : res->values(name).as_doubles()) s += std::to_string(x) + ","; break;
                        case 3: for (auto x : res->values(name).split('a')) s += x.as_string() + ","; break;
                        case 4: for (auto& x : res->values(name).arguments()) s += x->help() + ","; break;
                        case 5: for (auto x : res->values(name)) if (auto a = x.argument()) s += a->section() + ","; break;
                        case 6: s = res->value(name).as_string(); break;
                        case 7: for (auto& x : res->all_options()) s += x->flags().front() + ","; break;
                        default: res->values(name).error("message"); break;
                        }
                        if (!have) first = s;
                        else if (s != first) throw Failure{"conversion-differs", s + " instead of " + first};
                        have = true;
                    }, [&](Result) { ++n.conversions; }, nothing);
            }
            explore(ctx, n, "print", 3, [&] { buffer.clear(); stream.clear(); print(*res, stream); }, [](Result) {}, nothing);
        }
        explore(ctx, n, "error", 3, [&] { buffer.clear(); stream.clear(); res->error("The message, which isn't short at all."); },
                [&](Result r)
                {
                    if (r == Result::DONE) ctx.fail("error-did-not-throw", "");
                    ++n.errors;
                }, nothing);
        const auto after = to_string(observe(*res, spec));
        ctx.check(before == after, "result-changed", [&] { return before + "to\n" + after; });

        // A parser that gives its definitions away
        if (rng.chance(0.3))
        {
            res.reset();
            rec->callbacks.clear();
            const auto r = with_fault(ctx, "last parse", 1 + rng.below(100), rng.chance(0.3), [&] { res.emplace(p.parse(tokens)); });
            if (r == Result::DONE) judge("outcome-of-last-parse", r);
            else if (rng.chance(0.5)) attempt(ctx, "use after last parse", [&] { p.write_help_text(); (void)p.parse(tokens); });
        }
    }

    // A copy constructor of std::variant that throws is undefined behaviour in
    // libstdc++ 13 when it considers all the types "never valueless", as it
    // does strings and functions. Short texts are copied without allocations.
    void clip(std::string& text)
    {
        if (text.size() <= 15) return;
        size_t n = 15;
        while (n && (static_cast<unsigned char>(text[n]) & 0xC0) == 0x80) --n;
        text.resize(n);
    }

    void clip_texts(CmdSpec& cmd)
    {
        for (auto& [_, text] : cmd.texts) clip(text);
        for (auto& a : cmd.args) clip(a.help);
        for (auto& o : cmd.opts) clip(o.help);
        for (auto& c : cmd.cmds) clip_texts(c);
    }

    void run(Ctx& ctx)
    {
        Profile pr;
        pr.commands = 0.4;
        pr.callbacks = 0.3;
        pr.actions = 0.2;
        pr.max_opts = 4;
        CmdCase c;
        c.spec = gen_spec(ctx.rng, pr);
        Decoration d;
        d.text = 0;
        d.long_texts = false;
        if (ctx.rng.chance(0.5)) decorate(ctx.rng, c.spec, d);
        clip_texts(c.spec.root);
        c.args = gen_args(ctx.rng, c.spec, pr);
        if (!predict(ctx, c))
            return;
        Counts n;
        // Counters etc. are no leaks.
        ctx.count("monitor_checks", 0);
        if (ctx.rng.chance(0.5)) fail_definitions(ctx, n, c.spec, c.args);
        body(ctx, n, c.spec, c.args, c.model);
        for (auto& [name, k] : {std::pair("operations", n.operations), {"faults", n.faults}, {"survived_faults", n.survived},
                                {"parses", n.parses}, {"iterations", n.iterations}, {"help_texts", n.helps},
                                {"failed_definitions", n.definitions}, {"conversions", n.conversions}, {"errors", n.errors},
                                {"failing_streams", n.stream_faults}, {"throwing_streams", n.stream_throws},
                                {"throwing_text_functions", n.text_faults}, {"throwing_texts_of_reports", n.report_faults}, {"continued_iterations", n.continued}})
            ctx.count(name, k);
        ctx.nontrivial = n.faults != 0;
    }
}

namespace vf
{
    const Property property = {
        "C26",
        "a parser and a command line that are defined, parsed, iterated, displayed and read while allocations, output streams and text functions "
        "fail; non-trivial: at least one allocation failed",
        run,
        {"faults", "parses", "iterations", "help_texts", "failed_definitions", "conversions", "errors", "failing_streams",
         "throwing_streams", "throwing_text_functions", "throwing_texts_of_reports", "continued_iterations", "outcome_success", "outcome_failure", "outcome_stop"},
    };
}
