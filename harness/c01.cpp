// Memory safety, defined behaviour, termination, no leaks and no exceptions
// other than ArgosException, whatever the definitions and the command line.
#include "cmdline.hpp"
#include <algorithm>
#include <cstring>
#include <iostream>
#include <sstream>
#include <utility>
#if defined(__SANITIZE_ADDRESS__) || defined(VF_FUZZER)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define VF_LEAKS 1
#endif
using namespace vf;
using namespace argos;

namespace
{
    std::string bytes(Rng& rng, size_t max)
    {
        static const std::string COMMON = "-/=abAB01 .,<>[]\t\n\r*_?:;";
        std::string s;
        const size_t n = rng.below(max + 1);
        for (size_t i = 0; i < n; ++i)
        {
            if (rng.chance(0.75)) s += COMMON[rng.below(COMMON.size())];
            else s += char(rng.below(256));
        }
        return s;
    }

    std::string name(Rng& rng)
    {
        if (rng.chance(0.3)) return bytes(rng, 12);
        return rng.pick({"", "a", "FILE", "<x>", "[y]", "long-name-with-many-characters-in-it-and-more",
                         "\xc3\xa6", "\xf0\x9f\x98\x80 x", "\xff", "<x\r", "a b", "1.", "-", "\xe2\x82", "x=y"});
    }

    std::string flag(Rng& rng, OptionStyle style)
    {
        if (rng.chance(0.08)) return bytes(rng, 8);
        const std::string prefix = style == OptionStyle::SLASH ? "/" : style == OptionStyle::DASH ? "-"
            : rng.chance(0.5) ? "-" : "--";
        if (prefix == "-" && style == OptionStyle::STANDARD)
            return prefix + rng.pick({"a", "b", "c", "x", "A", "=", "-", "\xc3", "1"});
        return prefix + rng.pick({"foo", "bar", "foobar", "FOO", "f", "foo=", "bar=", "\xc3\xb8", "a-b", "?", "x.y", "-", "1=", "very-long-option-name-that-does-not-fit"});
    }

    std::string text(Rng& rng)
    {
        std::string s;
        const size_t n = rng.below(40);
        for (size_t i = 0; i < n; ++i)
        {
            switch (rng.below(8))
            {
            case 0: s += bytes(rng, 20); break;
            case 1: s += "\n"; break;
            case 2: s += rng.pick({"*", "-", "1.", "12.", "\t", "  ", "\r\n", "\r"}); break;
            case 3: s += std::string(rng.below(90), rng.pick({'x', '-', '\xc3', 'A'})); break;
            default: s += rng.pick({"word ", "longer-word ", "superlongunbreakableword ", "\xc3\xa6\xc3\xb8\xc3\xa5 ", "(hyphen) ", "Word12345 "});
            }
        }
        return s;
    }

    template <typename A>
    void actions(A& a, Rng rng, bool thorough_look)
    {
        const int n = rng.range(0, 3);
        for (int i = 0; i < n; ++i)
        {
            switch (rng.below(8))
            {
            case 0: a.builder.append(a.view, bytes(rng, 6)); break;
            case 1: a.builder.assign(a.view, "assigned"); break;
            case 2: a.builder.clear(a.view); break;
            case 3: a.builder.append(name(rng), "x"); break;
            case 4:
                (void)a.builder.has(a.view);
                if (thorough_look) (void)a.builder.values(a.view).as_strings();
                break;
            case 5: if (rng.chance(0.3)) a.builder.error("bad " + std::string(a.value), a.view); break;
            case 6: (void)a.builder.program_name(); a.builder.stream() << "x"; break;
            case 7: if (rng.chance(0.5)) a.new_arguments.push_back(bytes(rng, 5)); break;
            }
        }
        // The value must still be there.
        volatile size_t sum = 0;
        for (char c : a.value) sum = sum + size_t(c);
    }

    template <typename A>
    auto make_callback(uint64_t seed)
    {
        // Insertions are limited, otherwise callbacks could go on forever
        auto count = std::make_shared<int>(0);
        return [seed, count](A& a)
        {
            actions(a, Rng(seed + uint64_t(*count)), *count < 60);
            if (++*count > 20) a.new_arguments.clear();
        };
    }

    Option option(Rng& rng, OptionStyle style)
    {
        Option o = rng.chance(0.3) ? Option(flag(rng, style), flag(rng, style))
            : rng.chance(0.1) ? Option{flag(rng, style), flag(rng, style), flag(rng, style)} : Option(flag(rng, style));
        if (rng.chance(0.5)) o.argument(name(rng));
        if (rng.chance(0.15)) o.constant(name(rng));
        if (rng.chance(0.1)) o.constant(rng.chance(0.5));
        if (rng.chance(0.4)) o.operation(OptionOperation(rng.below(4)));
        if (rng.chance(0.3)) o.type(OptionType(rng.below(6)));
        if (rng.chance(0.2)) o.alias(rng.chance(0.5) ? flag(rng, style) : name(rng));
        if (rng.chance(0.15)) o.initial_value(bytes(rng, 5));
        if (rng.chance(0.1)) o.mandatory();
        if (rng.chance(0.5)) o.help(text(rng));
        else if (rng.chance(0.1)) o.help([s = text(rng)] { return s; });
        if (rng.chance(0.1)) o.section(name(rng));
        if (rng.chance(0.1)) o.visibility(Visibility(rng.below(4)));
        if (rng.chance(0.3)) o.callback(make_callback<OptionCallbackArguments>(rng.next()));
        if (rng.chance(0.05)) { Option copy(o); Option moved(std::move(copy)); o = moved; }
        return o;
    }

    Argument argument(Rng& rng)
    {
        Argument a(name(rng));
        if (rng.chance(0.5))
        {
            const unsigned lo = unsigned(rng.below(4));
            a.count(lo, rng.chance(0.2) ? UINT_MAX : unsigned(rng.below(5)));
        }
        if (rng.chance(0.2)) a.optional();
        if (rng.chance(0.2)) a.alias(name(rng));
        if (rng.chance(0.5)) a.help(text(rng));
        if (rng.chance(0.1)) a.section(name(rng));
        if (rng.chance(0.1)) a.visibility(Visibility(rng.below(4)));
        if (rng.chance(0.3)) a.callback(make_callback<ArgumentCallbackArguments>(rng.next()));
        if (rng.chance(0.05)) { Argument copy(a); Argument moved(std::move(copy)); a = moved; }
        return a;
    }

    template <typename T>
    void try_add(Ctx& ctx, T&& fn)
    {
        try { fn(); }
        catch (ArgosException&) { ctx.count("rejected_definitions"); }
    }

    Command command(Ctx& ctx, Rng& rng, OptionStyle style, int depth);

    template <typename T>
    void fill(Ctx& ctx, Rng& rng, T& cmd, OptionStyle style, int depth)
    {
        int n = rng.range(0, 4);
        for (int i = 0; i < n; ++i)
            try_add(ctx, [&] { cmd.add(option(rng, style)); });
        if (depth < 3 && rng.chance(depth ? 0.25 : 0.4))
        {
            n = rng.range(1, 3);
            for (int i = 0; i < n; ++i)
                try_add(ctx, [&] { cmd.add(command(ctx, rng, style, depth + 1)); });
            if (rng.chance(0.5)) cmd.allow_multiple_subcommands(true);
        }
        else
        {
            n = rng.range(0, 3);
            for (int i = 0; i < n; ++i)
                try_add(ctx, [&] { cmd.add(argument(rng)); });
        }
        if (rng.chance(0.15)) cmd.require_subcommand(rng.chance(0.5));
        if (rng.chance(0.3)) cmd.about(text(rng));
        if (rng.chance(0.3)) cmd.text(TextId(rng.below(10)), text(rng));
        if (rng.chance(0.1)) cmd.current_section(name(rng));
        if (rng.chance(0.1))
        {
            Command other("other");
            try_add(ctx, [&] { other.add(option(rng, style)); other.add(argument(rng)); });
            try_add(ctx, [&] { cmd.copy_from(other); });
        }
    }

    Command command(Ctx& ctx, Rng& rng, OptionStyle style, int depth)
    {
        Command c(rng.chance(0.8) ? rng.pick({"run", "build", "RUN", "x", "foo"}) : name(rng));
        fill(ctx, rng, c, style, depth);
        if (rng.chance(0.1)) c.help(text(rng));
        if (rng.chance(0.1)) { Command copy(c); c = copy; }
        if (rng.chance(0.03)) { Command moved(std::move(c)); c = std::move(moved); }
        if (rng.chance(0.03)) try_add(ctx, [&] { c.copy_from(c); });
        return c;
    }

    ArgumentParser wild_parser(Ctx& ctx, Rng& rng, std::ostream* stream)
    {
        ArgumentParser p(rng.chance(0.9) ? std::string("prog") : bytes(rng, 10), rng.chance(0.5));
        const auto style = OptionStyle(rng.below(3));
        p.option_style(style).auto_exit(false).stream(stream);
        p.allow_abbreviated_options(rng.chance(0.4)).case_insensitive(rng.chance(0.4));
        p.ignore_undefined_options(rng.chance(0.3)).ignore_undefined_arguments(rng.chance(0.3));
        p.generate_help_option(rng.chance(0.8));
        if (rng.chance(0.3)) p.version(bytes(rng, 5));
        if (rng.chance(0.7)) p.line_width(unsigned(rng.range(0, 100)));
        if (rng.chance(0.3)) p.add_word_splitting_rule(rng.pick({"super long un break able word", "long er- word", "", " x", "hy phen", "a", "\xc3 \xa6", "word", "x  y", "Word 123 45 "}));
        if (rng.chance(0.2)) p.option_callback(make_callback<OptionCallbackArguments>(rng.next()));
        if (rng.chance(0.2)) p.argument_callback(make_callback<ArgumentCallbackArguments>(rng.next()));
        fill(ctx, rng, p, style, 0);
        if (rng.chance(0.05)) { ArgumentParser q(std::move(p)); p = std::move(q); }
        return p;
    }

    // Uses everything that can be used in a result.
    void use(Ctx& ctx, Rng& rng, const ParsedArguments& res, std::ostream& stream, int depth = 0)
    {
        const auto guard = [&](auto fn)
        {
            try { fn(); }
            catch (ArgosException& ex) { ctx.count("argos_exceptions"); volatile auto n = strlen(ex.what()); (void)n; }
            ctx.count("api_calls");
        };
        guard([&] { print(res, stream); });
        guard([&] { (void)res.stop_option().flags(); });
        (void)res.result_code();
        const auto values = [&](const ArgumentValues& v)
        {
            for (auto s : v.raw_values()) { volatile size_t n = 0; for (char c : s) n = n + size_t(c); }
            size_t n_used = 0;
            for (auto x : v)
            {
                if (++n_used > 40) break; // Exceptions are slow in the instrumented builds
                guard([&] { (void)x.as_int(1, int(rng.below(38))); });
                guard([&] { (void)x.as_ullong(); });
                guard([&] { (void)x.as_double(); });
                guard([&] { (void)x.as_bool(); });
                guard([&] { for (auto p : x.split(rng.pick({',', 'a', '\0', '=' }), rng.below(4), rng.below(4))) (void)p.as_string(); });
                guard([&] { x.error("message"); });
                guard([&] { if (auto a = x.argument()) (void)a->help(); });
            }
            guard([&] { (void)v.as_ints({}, int(rng.below(38))); });
            guard([&] { (void)v.as_floats(); });
            guard([&] { (void)v.split_n(',', rng.below(4)).as_strings(); });
            guard([&] { (void)v[rng.below(4)].as_long(); });
            guard([&] { for (auto& a : v.arguments()) (void)a->section(); });
            guard([&] { v.error("values"); });
        };
        for (auto& a : res.all_arguments())
        {
            (void)a->help(); (void)a->alias(); (void)a->count();
            values(res.values(*a));
            guard([&] { values(res.values(a->name())); });
            guard([&] { (void)res.value(*a).as_string(); });
        }
        for (auto& o : res.all_options())
        {
            (void)o->help(); (void)o->constant(); (void)o->initial_value();
            values(res.values(*o));
            for (auto& f : o->flags())
                guard([&] { (void)res.value(f).as_float(); });
        }
        for (auto& c : res.all_subcommands())
        {
            (void)c->help(); (void)c->name(); (void)c->options(); (void)c->arguments(); (void)c->subcommands();
        }
        guard([&] { (void)res.has(name(rng)); });
        guard([&] { res.error(bytes(rng, 20)); });
        for (auto& u : res.unprocessed_arguments()) { volatile size_t n = u.size(); (void)n; }
        for (auto& s : res.subcommands())
            use(ctx, rng, s, stream, depth + 1);
    }

    // Everything a case does is decided by rng, so that it can be repeated.
    void body(Ctx& ctx, Rng rng, bool describe_it)
    {
        vf::TextStream ss;
        std::optional<ArgumentParser> parser;
        std::vector<std::string> args;
        const bool wild = rng.chance(0.6);
        if (wild)
        {
            try { parser.emplace(wild_parser(ctx, rng, &ss)); }
            catch (ArgosException&)
            {
                ctx.count("rejected_definitions");
                return;
            }
            const size_t n = rng.below(12);
            for (size_t i = 0; i < n; ++i)
            {
                switch (rng.below(6))
                {
                case 0: args.push_back(bytes(rng, 10)); break;
                case 1: args.push_back(flag(rng, OptionStyle(rng.below(3))) + bytes(rng, 5)); break;
                case 2: args.push_back(rng.pick({"run", "build", "x", "foo", "--", "-", "/", "-h", "--help", "/?"})); break;
                case 3: args.push_back(flag(rng, OptionStyle(rng.below(3)))); break;
                case 4: args.push_back(flag(rng, OptionStyle(rng.below(3))) + "=" + bytes(rng, 4)); break;
                case 5: args.push_back(rng.chance(0.05) ? std::string(rng.below(5000), 'y') : name(rng)); break;
                }
            }
            if (describe_it)
                ctx.describe("wild parser, args: " + join_quoted(args));
        }
        else
        {
            Profile p;
            p.commands = 0.4;
            p.callbacks = p.actions = 0.4;
            p.insert = 0.2;
            auto spec = gen_spec(rng, p);
            args = gen_args(rng, spec, p);
            if (rng.chance(0.3))
                args.insert(args.begin() + std::ptrdiff_t(rng.below(args.size() + 1)), bytes(rng, 30));
            if (rng.chance(0.02))
                for (int i = 0; i < 700; ++i) args.push_back("many");
            if (describe_it)
                ctx.describe(describe(spec, args));
            parser.emplace(make_parser(spec, std::make_shared<Recorder>(), &ss));
        }
        if (describe_it)
        {
            ctx.add_sig(ctx.desc);
            ctx.nontrivial = true;
        }
        // The tokens live exactly as long as documented: until parse
        // returns, in blocks of memory of their own, without terminators.
        std::vector<std::unique_ptr<char[]>> blocks;
        std::vector<std::string_view> tokens;
        for (auto& a : args)
        {
            blocks.push_back(std::make_unique<char[]>(std::max<size_t>(a.size(), 1)));
            memcpy(blocks.back().get(), a.data(), a.size());
            tokens.emplace_back(blocks.back().get(), a.size());
        }
        try
        {
            if (rng.chance(0.5))
            {
                parser->write_help_text();
                ctx.count("help_texts");
            }
            if (rng.chance(0.1))
                parser->write_subcommand_help_text({"run"});
        }
        catch (ArgosException&) { ctx.count("argos_exceptions"); }
        std::optional<ParsedArguments> res;
        try
        {
            switch (rng.below(4))
            {
            case 0: res.emplace(std::as_const(*parser).parse(tokens)); break;
            case 1:
            {
                std::vector<std::unique_ptr<char[]>> cs;
                std::vector<char*> argv;
                cs.push_back(std::make_unique<char[]>(5));
                memcpy(cs.back().get(), "prog", 5);
                for (auto& a : args)
                {
                    cs.push_back(std::make_unique<char[]>(a.size() + 1));
                    memcpy(cs.back().get(), a.c_str(), a.size() + 1);
                }
                for (auto& s : cs) argv.push_back(s.get());
                argv.push_back(nullptr);
                int argc = int(argv.size()) - 1;
                char** av = argv.data();
                res.emplace(parser->parse(argc, av));
                res->filter_parsed_arguments(argc, av);
                for (int i = 0; i < argc; ++i) { volatile size_t n = strlen(av[i]); (void)n; }
                ctx.count("argv_parses");
                break;
            }
            case 2:
            {
                auto it = parser->make_iterator(tokens);
                std::unique_ptr<IArgumentView> arg;
                std::string_view value;
                res.emplace(it.parsed_arguments());
                size_t steps = 0;
                while (it.next(arg, value))
                {
                    ctx.count("iterator_steps");
                    volatile size_t n = 0;
                    for (char c : value) n = n + size_t(c);
                    if (arg) (void)arg->help();
                    if (rng.chance(0.1)) { auto m = std::move(it); it = std::move(m); }
                    if (++steps > args.size() * 100 + 5000)
                        ctx.fail("iterator-does-not-end", "");
                    if (rng.chance(0.01)) break;
                }
                break;
            }
            default: res.emplace(parser->parse(tokens)); break;
            }
            ctx.count("parses");
        }
        catch (ArgosException&) { ctx.count("argos_exceptions"); }
        if (rng.chance(0.5)) parser.reset();
        for (auto& b : blocks) b.reset();
        if (res)
        {
            ctx.count(cat("result_", int(res->result_code())));
            use(ctx, rng, *res, ss);
        }
        ctx.count("output_bytes", ss.str().size());
    }

    void run(Ctx& ctx)
    {
        Rng rng = ctx.rng;
        body(ctx, rng, true);
#ifdef VF_LEAKS
        if (ctx.index % 8 == 0)
        {
            // The same once more (everything that is created only once has
            // been created now), and then it shouldn't change anything.
            static Counters scratch;
            auto* counters = ctx.counters;
            ctx.counters = &scratch;
            body(ctx, rng, false);
            scratch.clear();
            const auto before = __sanitizer_get_current_allocated_bytes();
            body(ctx, rng, false);
            scratch.clear();
            const auto after = __sanitizer_get_current_allocated_bytes();
            ctx.counters = counters;
            ctx.count("leak_checks");
            ctx.check(after <= before, "memory-leak", [&] { return cat(after - before, " bytes"); });
        }
#endif
    }

    void init()
    {
        // Nothing the library writes to standard streams is of interest.
        std::cout.setstate(std::ios::failbit);
        std::cerr.setstate(std::ios::failbit);
    }
}

const Property vf::property = {
    "C01",
    "A case is a set of definitions (half-legal ones included: odd flags, names, aliases, counts, texts, widths, "
    "split rules, callbacks that edit values, insert arguments or report errors), a hostile command line in memory "
    "blocks that are freed as soon as parse returns, and every accessor, conversion, view and formatter applied to "
    "the result. Monitors: address, undefined behaviour and standard library assertions (and its debug mode), CPU "
    "time per case, allocated bytes before and after a repetition, and the type of every exception. Non-trivial: "
    "definitions were accepted and the command line was processed.",
    run,
    {"parses", "argv_parses", "iterator_steps", "help_texts", "api_calls", "argos_exceptions",
     "rejected_definitions", "result_1", "result_2", "result_3", "output_bytes"},
    init};

// A monitor for the character functions of the C library, whose behaviour is
// undefined for characters with negative values.
#define VF_CTYPE(name, mask) \
    extern "C" int name(int c) noexcept \
    { \
        if (c < -1 || c > 255) \
        { \
            fprintf(stderr, "runtime error: " #name " called with %d\n", c); \
            fflush(stderr); \
            abort(); \
        } \
        return (*__ctype_b_loc())[c] & mask; \
    }
VF_CTYPE(isalnum, _ISalnum)
VF_CTYPE(isalpha, _ISalpha)
VF_CTYPE(iscntrl, _IScntrl)
VF_CTYPE(isdigit, _ISdigit)
VF_CTYPE(isgraph, _ISgraph)
VF_CTYPE(islower, _ISlower)
VF_CTYPE(isprint, _ISprint)
VF_CTYPE(ispunct, _ISpunct)
VF_CTYPE(isspace, _ISspace)
VF_CTYPE(isupper, _ISupper)
VF_CTYPE(isxdigit, _ISxdigit)
