// Iterating is equivalent to parsing.
#include "cmdline.hpp"
#include <algorithm>
using namespace vf;

namespace
{
    void run(Ctx& ctx)
    {
        Profile p;
        p.commands = 0.4;
        p.callbacks = 0.15;
        p.actions = 0.3;
        p.insert = 0.2;
        p.special_type = 0.2;
        p.version = 0.05;
        CmdCase c;
        if (!model_case(ctx, p, c))
            return;
        auto it = run_iterator(c.spec, c.args);
        const auto code = it.root.code;
        // The same as when everything is parsed at once.
        ctx.count("monitor_checks");
        std::string d;
        if (code == ParserResultCode::FAILURE)
            d = compare_outcome(c.real, it);
        else
            d = compare(c.real.root, it.root, {});
        if (!d.empty())
            ctx.fail("iterator-and-parse-differ", d + "\nparse:\n" + to_string(c.real.root) + "iterator:\n"
                     + to_string(it.root));
        ctx.check(it.output == c.real.output, "iterator-output-differs", [&] { return it.output + "\n--\n" + c.real.output; });
        ctx.check(it.callbacks == c.real.callbacks, "iterator-callbacks-differ",
                  [&] { return to_string(c.real.callbacks) + "--\n" + to_string(it.callbacks); });
        // What was reported, step by step
        ctx.check(it.events == c.model.events, "events", [&]
            { return "expected:\n" + to_string(c.model.events) + "got:\n" + to_string(it.events); });
        for (auto& e : it.events)
            ctx.count(std::string("event_") + e.kind);
        ctx.nontrivial = it.events.size() > 1;
        // The iterators of a const parser are independent of each other:
        // interleave two of them.
        if (!ctx.rng.chance(0.3))
            return;
        auto rec = std::make_shared<Recorder>();
        vf::TextStream ss;
        const auto parser = make_parser(c.spec, rec, &ss);
        auto args2 = gen_args(ctx.rng, c.spec, p);
        auto m2 = run_model(c.spec, args2);
        if (m2.unspecified)
            return;
        auto a = parser.make_iterator(views(c.args));
        auto b = parser.make_iterator(views(args2));
        std::unique_ptr<argos::IArgumentView> arg;
        std::string_view value;
        bool go_a = true, go_b = true;
        while (go_a || go_b)
        {
            if (go_a && (!go_b || ctx.rng.chance(0.5)))
            {
                if (ctx.rng.chance(0.2)) { auto moved = std::move(a); a = std::move(moved); }
                go_a = a.next(arg, value);
            }
            else
                go_b = b.next(arg, value);
        }
        Outcome ra, rb;
        ctx.describe(describe(c.spec, c.args) + "\ninterleaved with " + join_quoted(args2));
        // The current command is the last one, so compare only what
        // happened if there are no subcommands.
        if (c.spec.root.cmds.empty())
        {
            ra.root = observe(a.parsed_arguments(), c.spec);
            rb.root = observe(b.parsed_arguments(), c.spec);
            expect_outcome(ctx, "interleaved", c.model, ra);
            expect_outcome(ctx, "interleaved", m2, rb);
            ctx.count("interleaved_iterators");
        }
    }
}

const Property vf::property = {
    "C12",
    "A case is a random parser (with subcommands, callbacks and special options) and a command line, parsed at "
    "once and with an iterator. Every step of the iterator (argument, option, command or unknown, its value, "
    "the current command and its values after the step) must be the reference model's; the results, output and "
    "callbacks must be the same as when parsing at once; after the end the iterator stays at the end, after an "
    "error it throws. Non-trivial: there was at least one step.",
    run,
    {"event_A", "event_O", "event_C", "event_U", "event_D", "event_E", "interleaved_iterators"}};
