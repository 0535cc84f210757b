// Callbacks: exactly once per use, in the order of the command line, with
// the right value, and what they do takes effect.
#include "cmdline.hpp"
#include <algorithm>
#include <utility>
using namespace vf;

namespace
{
    bool has_insertions(const CmdSpec& c)
    {
        for (auto& o : c.opts)
            for (auto& a : o.actions)
                if (a.kind == Action::INSERT) return true;
        for (auto& o : c.args)
            for (auto& a : o.actions)
                if (a.kind == Action::INSERT) return true;
        for (auto& s : c.cmds)
            if (has_insertions(s)) return true;
        return false;
    }

    bool has_insertions(const ParserSpec& s)
    {
        for (auto v : {&s.arg_cb_actions, &s.opt_cb_actions})
            for (auto& a : *v)
                if (a.kind == Action::INSERT) return true;
        return has_insertions(s.root);
    }

    std::string ids(const std::vector<CallbackEvent>& v)
    {
        return to_string(v);
    }

    void run(Ctx& ctx)
    {
        Profile p;
        p.callbacks = 0.7;
        p.actions = 0.45;
        p.insert = 0.35;
        p.insert_anywhere = true;
        p.parser_actions = 0.4;
        p.commands = 0.3;
        p.abbrev = p.ci = 0.1;
        p.arg_variable = 0.35;
        p.special_type = 0.12;
        p.mutate = 0.1;
        p.count_ok = 0.95;
        p.terminator = 0.08;
        CmdCase c;
        if (!model_case(ctx, p, c))
            return;
        ctx.check(c.real.callbacks == c.model.callbacks, "callbacks", [&]
            { return "expected:\n" + ids(c.model.callbacks) + "got:\n" + ids(c.real.callbacks); });
        ctx.nontrivial = !c.model.callbacks.empty();
        for (auto& e : c.model.callbacks)
        {
            ctx.count(std::string("callback_") + e.kind);
            if (!e.value.empty()) ctx.count("callback_with_value");
        }
        if (has_insertions(c.spec) && c.model.stats.contains("inserted_tokens"))
        {
            ctx.count("cases_with_insertions");
        }
        else if (!has_insertions(c.spec) && c.model.root.code != ParserResultCode::FAILURE && ctx.rng.chance(0.3))
        {
            // The same spec where callbacks do nothing: the same callbacks
            // must be called, whatever the callbacks do to values.
            auto spec = c.spec;
            std::function<void(CmdSpec&)> strip = [&](CmdSpec& s)
            {
                for (auto& o : s.opts) o.actions.clear();
                for (auto& a : s.args) a.actions.clear();
                for (auto& x : s.cmds) strip(x);
            };
            strip(spec.root);
            spec.arg_cb_at = spec.opt_cb_at = 0;
            auto r = run_parse(spec, c.args);
            if (r.root.code != ParserResultCode::FAILURE) // mandatory options
            {
                bool same = r.callbacks.size() == c.real.callbacks.size();
                for (size_t i = 0; same && i < r.callbacks.size(); ++i)
                    same = r.callbacks[i].kind == c.real.callbacks[i].kind && r.callbacks[i].id == c.real.callbacks[i].id
                        && r.callbacks[i].value == c.real.callbacks[i].value;
                ctx.check(same, "callbacks-depend-on-edits", [&] { return ids(c.real.callbacks) + "--\n" + ids(r.callbacks); });
                ctx.count("stripped_runs");
            }
        }
        // A callback that throws, or reports an error, ends the parsing there
        // and then.
        const auto n = c.model.callbacks.size();
        if (n == 0 || !ctx.rng.chance(0.4))
            return;
        auto rec = std::make_shared<Recorder>();
        vf::TextStream ss;
        rec->watch = true;
        rec->fail_at = 1 + ctx.rng.below(n);
        if (ctx.rng.chance(0.5))
        {
            rec->fail_message = "unacceptable-value";
            rec->fail_with_view = ctx.rng.chance(0.5);
        }
        else
        {
            rec->fail_kind = int(ctx.rng.below(NUM_EXCEPTION_KINDS));
        }
        const bool as_const = ctx.rng.chance(0.5);
        const bool iterate = ctx.rng.chance(0.3);
        auto parser = make_parser(c.spec, rec, &ss);
        ctx.describe(describe(c.spec, c.args) + cat("\ncallback number ", rec->fail_at, " ",
            rec->fail_message.empty() ? cat("throws ", rec->fail_kind) : "reports an error", as_const ? " const" : "",
            iterate ? " iterator" : ""));
        std::string got;
        try
        {
            if (iterate)
            {
                ctx.count("iterations_with_exceptions");
                auto it = as_const ? std::as_const(parser).make_iterator(views(c.args)) : parser.make_iterator(views(c.args));
                std::unique_ptr<argos::IArgumentView> view;
                std::string_view value;
                while (it.next(view, value)) {}
            }
            else
            {
                auto r = as_const ? std::as_const(parser).parse(views(c.args)) : parser.parse(views(c.args));
            }
            got = "nothing";
        }
        catch (...)
        {
            got = current_exception_text();
            if (!rec->fail_message.empty() && got.find("ArgosException") != got.npos) got = "error";
        }
        const auto expected = rec->fail_message.empty() ? exception_text(rec->fail_kind, int(rec->fail_at)) : "error";
        ctx.check(got == expected, "exception-from-callback", [&] { return cat("expected ", expected, ", got ", got); });
        std::vector<CallbackEvent> first(c.model.callbacks.begin(), c.model.callbacks.begin() + std::ptrdiff_t(rec->fail_at));
        ctx.check(rec->callbacks == first, "callbacks-after-exception", [&]
            { return "expected:\n" + ids(first) + "got:\n" + ids(rec->callbacks); });
        if (rec->fail_message.empty())
        {
            // (the version is written before callbacks are called)
            ctx.check(c.real.output.compare(0, ss.str().size(), ss.str()) == 0, "output-when-callback-throws", [&] { return ss.str(); });
            ctx.count("throwing_callbacks");
        }
        else
        {
            const auto& failing = first.back();
            const bool named = ss.str().find(rec->fail_message) != std::string::npos;
            ctx.check(named, "message-of-callback-missing", [&] { return ss.str(); });
            if (rec->fail_with_view)
            {
                // The message is prefixed with the name or flags
                std::string name;
                std::function<void(const CmdSpec&, bool)> look = [&](const CmdSpec& s, bool root)
                {
                    for (auto& o : effective_options(c.spec, s, root))
                        if (o.id == failing.id && name.empty()) name = o.flags.front();
                    for (auto& a : s.args)
                        if (a.id == failing.id) name = a.name;
                    for (auto& x : s.cmds) look(x, false);
                };
                look(c.spec.root, true);
                const auto out = ss.str();
                const auto pos = out.find(name);
                ctx.check(pos != std::string::npos && pos < out.find(rec->fail_message), "culprit-not-named",
                          [&] { return name + "\n" + out; });
                ctx.count("errors_with_view");
            }
            ctx.count("reporting_callbacks");
        }
        // The parser itself isn't affected by the exception
        if (as_const)
        {
            rec->fail_at = 0;
            rec->callbacks.clear();
            auto res = std::as_const(parser).parse(views(c.args));
            Outcome again;
            again.root = observe(res, c.spec);
            expect_outcome(ctx, "parse-after-exception", c.model, again);
            ctx.check(rec->callbacks == c.model.callbacks, "callbacks-in-second-parse", [&] { return ids(rec->callbacks); });
            ctx.count("parses_after_exceptions");
        }
    }
}

const Property vf::property = {
    "C13",
    "A case is a random parser (subcommands included) where most arguments and options, and the parser itself, "
    "have callbacks that record what they see, and where some append, assign or clear values or insert arguments; "
    "and a command line. The recorded sequence (which callback, which option or argument, its value and the "
    "values the builder has for it at that moment) and the results must be the reference model's. Then one of the "
    "callbacks throws or reports an error, which must end the parsing at that point with that exception. "
    "Non-trivial: at least one callback was due.",
    run,
    {"callback_a", "callback_o", "callback_A", "callback_O", "callback_with_value", "cases_with_insertions",
     "throwing_callbacks", "iterations_with_exceptions", "reporting_callbacks", "errors_with_view", "parses_after_exceptions", "stripped_runs", "parser_callbacks_with_actions",
     "outcome_success", "outcome_stop", "outcome_failure"}};
