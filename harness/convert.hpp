// Values that have found their way into a result, for conversions.
#pragma once
#include "spec.hpp"
#include <cerrno>
#include <limits>

namespace vf
{
    constexpr size_t NO_INDEX = size_t(-1);

    struct Converted
    {
        std::vector<std::string> texts;
        argos::ArgumentValues values;
        argos::ArgumentValue missing;
        std::unique_ptr<vf::TextStream> stream = std::make_unique<vf::TextStream>();
        std::string name; // the name error messages mention
        const char* how = "";

        Converted(Ctx& ctx, const std::vector<std::string>& t, const std::string& what)
            : texts(t), values({}, nullptr, {})
        {
            using namespace argos;
            Rng& rng = ctx.rng;
            // How the values get there
            size_t way = rng.below(6);
            if (way == 4 && (texts.size() != 1 || texts[0].empty())) way = 0;
            if (way == 0)
                for (auto& s : texts)
                    if (s.size() > 1 && s[0] == '-') way = 1;
            static const char* HOW[] = {"positional", "option", "option=", "callback", "initial", "split"};
            if (way == 5)
            {
                if (texts.empty()) way = 1;
                for (auto& s : texts)
                    if (s.find(';') != s.npos) way = 1;
            }
            how = HOW[way];
            ctx.count(std::string("via_") + how);
            ctx.describe(cat(what, " via ", how, ": ", join_quoted(texts)));
            ctx.add_sig(ctx.desc);
            ArgumentParser parser("prog", false);
            parser.auto_exit(false).stream(stream.get()).generate_help_option(false);
            std::vector<std::string> args;
            name = way == 0 ? "num" : "-n, --num";
            std::string key = way == 0 ? "num" : "--num";
            if (way == 0)
            {
                parser.add(Argument("num").count(0, 100));
                args = texts;
            }
            else
            {
                Option o("-n", "--num");
                o.argument("N").operation(OptionOperation::APPEND);
                if (way == 4) o.initial_value(texts[0]);
                if (way == 3)
                {
                    o.callback([this](OptionCallbackArguments& a)
                    {
                        a.builder.clear(a.view);
                        for (auto& s : texts) a.builder.append(a.view, s);
                    });
                }
                parser.add(o);
                if (way == 1)
                    for (auto& s : texts) { args.push_back(rng.chance(0.5) ? "-n" : "--num"); args.push_back(s); }
                if (way == 2)
                    for (auto& s : texts) args.push_back("--num=" + s);
                if (way == 3)
                    args = {"-n", "17"};
                if (way == 5)
                {
                    std::string s;
                    for (auto& x : texts) s += (&x == &texts[0] ? "" : ";") + x;
                    args = {"-n", s};
                }
            }
            auto res = parser.parse(views(args));
            if (res.result_code() != ParserResultCode::SUCCESS)
                ctx.fail("not-parsed", stream->str());
            values = res.values(key);
            missing = ArgumentValue();
            if (way == 5)
                values = values.split(';');
            else if (texts.empty() && way != 3)
                missing = res.value(key);
            if (values.size() != texts.size())
                ctx.fail("number-of-values", cat(values.size(), " values"));
            if (!stream->str().empty())
                ctx.fail("unexpected-output", stream->str());
        }

        void finish(Ctx& ctx)
        {
            // Conversions change nothing.
            const auto raw = values.raw_values();
            for (size_t i = 0; i < texts.size(); ++i)
                if (raw[i] != texts[i])
                    ctx.fail("value-changed", quote(std::string(raw[i])));
        }
    };

    template <typename T>
    std::string show(const T& v)
    {
        vf::TextStream ss;
        ss.precision(20);
        if constexpr (requires { v.begin(); } && !std::is_same_v<T, std::string>)
        {
            for (auto& x : v) ss << x << " ";
        }
        else
            ss << v;
        return ss.str();
    }

    // get() gives the expected value, or throws ArgosException after
    // displaying a message if there's no expected value.
    template <typename T, typename F, typename Eq = std::equal_to<T>>
    void expect_conversion(Ctx& ctx, const std::string& what, Converted& c, size_t index, const std::optional<T>& exp,
                           F get, Eq eq = {})
    {
        for (int i = 0; i < 2; ++i)
        {
            ctx.count("monitor_checks");
            // Left by something else
            errno = ctx.rng.pick({0, ERANGE, EINVAL, ENOENT});
            c.stream->str({});
            std::optional<T> got;
            std::string msg;
            const auto ex = exception_of([&] { got = get(); }, &msg);
            const auto out = c.stream->str();
            if (exp)
            {
                if (!ex.empty())
                    ctx.fail("refused", what + ": " + ex + " " + msg + out);
                if (!eq(*got, *exp))
                    ctx.fail("wrong-value", what + " gives " + show(*got) + " instead of " + show(*exp));
                if (!out.empty())
                    ctx.fail("unexpected-output", what + ": " + out);
            }
            else
            {
                if (ex.empty())
                    ctx.fail("not-refused", what + " gives " + show(*got));
                if (ex != "argos::ArgosException")
                    ctx.fail("wrong-exception", what + ": " + ex);
                if (out.compare(0, 6, "prog: ") != 0 || out.find("Invalid value") == out.npos
                    || (index != NO_INDEX && out.find(c.name + ":") != 6))
                    ctx.fail("error-message", what + ": " + out);
            }
        }
    }
}
