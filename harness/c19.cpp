// C19: Splitting values and accessing lists conserve the text and the order.
#include "spec.hpp"
#include <utility>

using namespace vf;
using namespace argos;

namespace
{
    struct Part
    {
        std::string text;
        int source;
        bool operator==(const Part&) const = default;
    };

    std::string str(const std::vector<Part>& v)
    {
        std::string r;
        for (auto& p : v) r += cat(quote(p.text), "@", p.source, " ");
        return r;
    }

    int source_of(const ArgumentValue& v)
    {
        auto a = v.argument();
        return a ? a->id() : 0;
    }

    // Errors name the option or argument that all the values come from.
    std::string error_start(const std::vector<Part>& list)
    {
        std::string name;
        for (auto& p : list)
            if (p.source != list[0].source) return "prog: ";
        if (!list.empty()) name = list[0].source == 1 ? "-l, --list: " : list[0].source == 2 ? "--other: " : "arg: ";
        return "prog: " + name;
    }

    void check_error(Ctx& ctx, const std::string& what, const std::vector<Part>& list, const std::string& ex, const std::string& text)
    {
        const auto start = error_start(list);
        bool ok = ex == "argos::ArgosException" && text.compare(0, start.size(), start) == 0;
        if (ok && start == "prog: ")
            for (auto s : {"-l, --list: ", "--other: ", "arg: "}) ok = ok && text.compare(start.size(), std::string_view(s).size(), s) != 0;
        if (!ok) ctx.fail("wrong-error", what + " of " + str(list) + ": " + ex + " " + text);
        ctx.count(start == "prog: " ? "unnamed_errors" : "named_errors");
    }

    // Reads the list in all possible ways.
    void check_list(Ctx& ctx, const std::string& what, const ArgumentValues& values, const std::vector<Part>& exp,
                    vf::TextStream& stream)
    {
        const auto bad = [&](const char* how, const std::vector<Part>& got)
        {
            ctx.count("monitor_checks");
            if (got != exp)
                ctx.fail(how, cat(what, ": expected ", str(exp), "got ", str(got)));
        };
        std::vector<Part> got;
        if (values.size() != exp.size() || values.empty() != exp.empty() || bool(values) == exp.empty())
            ctx.fail("size", cat(what, ": ", values.size(), " instead of ", exp.size()));
        for (size_t i = 0; i < exp.size(); ++i)
        {
            const auto v = values.value(i);
            if (!v) ctx.fail("empty-value", what);
            got.push_back({v.as_string("d"), source_of(v)});
        }
        bad("by-index", got);
        got.clear();
        for (size_t i = exp.size(); i-- > 0;)
        {
            const auto v = values[i];
            got.insert(got.begin(), {std::string(*v.value()), source_of(v)});
        }
        bad("by-operator", got);
        got.clear();
        for (const auto v : values)
            got.push_back({std::string(*v.value()), source_of(v)});
        bad("by-iterator", got);
        got.clear();
        auto it = values.begin();
        for (size_t i = 0; i < exp.size(); ++i)
        {
            const auto before = it;
            if (before == values.end() || !(before != values.end()))
                ctx.fail("iterator-at-end", what);
            const auto v = *it++;
            if (!(before == std::as_const(before)) || it == before)
                ctx.fail("iterator-comparison", what);
            auto again = before;
            if (++again != it)
                ctx.fail("iterator-increment", what);
            got.push_back({v.as_string(), source_of(v)});
        }
        if (it != values.end())
            ctx.fail("iterator-not-at-end", what);
        bad("by-post-increment", got);
        got.clear();
        for (auto& v : values.values())
            got.push_back({v.as_string(), source_of(v)});
        bad("values()", got);
        std::vector<std::string> texts, raw;
        for (auto& p : exp) texts.push_back(p.text);
        for (auto v : values.raw_values()) raw.emplace_back(v);
        if (raw != texts || values.as_strings() != texts || (!texts.empty() && values.as_strings({"d", "e"}) != texts))
            ctx.fail("raw-values", cat(what, ": ", join_quoted(raw)));
        // One beyond the end
        if (exp.empty())
        {
            const auto v = values.value(ctx.rng.below(3));
            if (v || v.value() || v.as_string("x") != "x")
                ctx.fail("value-of-empty-list", what);
            ctx.count("empty_lists");
        }
        else
        {
            const size_t i = ctx.rng.chance(0.8) ? exp.size() + ctx.rng.below(2) : size_t(-1) - ctx.rng.below(2);
            stream.str({});
            const auto ex = exception_of([&] { (void)(ctx.rng.chance(0.5) ? values.value(i) : values[i]); });
            check_error(ctx, what + " index", exp, ex, stream.str());
            ctx.count("invalid_indexes");
        }
    }

    std::vector<std::string> split(const std::string& s, char sep, size_t max)
    {
        std::vector<std::string> r(1);
        for (char c : s)
        {
            if (c == sep && (max == 0 || r.size() < max)) r.emplace_back();
            else r.back() += c;
        }
        return r;
    }

    struct Limits
    {
        char sep;
        size_t min = 0, max = 0;
        bool n = false;
    };

    Limits gen_limits(Rng& rng)
    {
        Limits l;
        l.sep = rng.pick({',', ',', ',', ':', ';', ' ', '\0', '=', '\xff', '\n', 'a'});
        if (rng.chance(0.3))
        {
            l.n = true;
            l.min = l.max = rng.below(5);
        }
        else
        {
            if (rng.chance(0.6)) l.min = rng.below(4);
            if (rng.chance(0.6)) l.max = rng.chance(0.1) ? size_t(-1) - rng.below(2) : rng.below(6);
        }
        return l;
    }

    std::string str(const Limits& l)
    {
        return cat(l.n ? "split_n" : "split", "(", quote(std::string(1, l.sep)), ", ", l.min, ", ", l.max, ")");
    }

    // Splits src, which can be a value or values
    template <typename Source>
    bool split_and_check(Ctx& ctx, const std::string& what, const Source& src, const std::vector<Part>& from,
                         const Limits& l, vf::TextStream& stream, int depth)
    {
        std::vector<Part> exp;
        bool ok = true;
        for (auto& f : from)
        {
            const auto parts = split(f.text, l.sep, l.max);
            ok = ok && parts.size() >= l.min;
            // The oracle itself conserves the text
            std::string joined;
            for (size_t i = 0; i < parts.size(); ++i)
                joined += (i ? std::string(1, l.sep) : "") + parts[i];
            if (joined != f.text || (l.max && parts.size() > l.max))
                throw HarnessError("split");
            for (auto& p : parts) exp.push_back({p, f.source});
            if (l.max && parts.size() == l.max && parts.back().find(l.sep) != std::string::npos) ctx.count("rest_in_last_part");
        }
        stream.str({});
        const auto desc = what + "." + str(l);
        std::optional<ArgumentValues> got;
        std::string msg;
        const auto ex = exception_of([&]
        {
            got = l.n ? src.split_n(l.sep, l.max)
                : l.min == 0 && l.max == 0 && ctx.rng.chance(0.5) ? src.split(l.sep)
                : l.max == 0 && ctx.rng.chance(0.5) ? src.split(l.sep, l.min) : src.split(l.sep, l.min, l.max);
        }, &msg);
        ctx.count("monitor_checks");
        if (!ok)
        {
            if (ex.empty())
                ctx.fail("too-few-parts-accepted", desc + " of " + str(from));
            check_error(ctx, desc, from, ex, stream.str());
            ctx.count("too_few_parts");
            return false;
        }
        if (!ex.empty())
            ctx.fail("split-refused", desc + " of " + str(from) + ": " + msg + " " + stream.str());
        if (!stream.str().empty())
            ctx.fail("unexpected-output", stream.str());
        check_list(ctx, desc, *got, exp, stream);
        ctx.count("splits");
        if (exp.size() > from.size()) ctx.count("splits_with_more_parts");
        if (depth > 0)
        {
            const auto l2 = gen_limits(ctx.rng);
            split_and_check(ctx, desc, *got, exp, l2, stream, depth - 1);
            if (!exp.empty())
            {
                const auto i = ctx.rng.below(exp.size());
                split_and_check(ctx, cat(desc, "[", i, "]"), got->value(i), {exp[i]}, gen_limits(ctx.rng), stream, depth - 1);
            }
            // The list itself is the same as before.
            check_list(ctx, desc + " afterwards", *got, exp, stream);
        }
        return true;
    }

    std::string gen_text(Rng& rng)
    {
        if (rng.chance(0.08))
            return rng.pick({"", ",", ",,", ":", ",a", "a,", "\xff", "--", "a=b,c=d"});
        std::string s;
        const size_t n = rng.below(rng.chance(0.1) ? 60 : 12);
        const std::string chars = rng.chance(0.5) ? "ab,," : std::string("a,b:;c =\0,\xff\n-1", 15);
        for (size_t i = 0; i < n; ++i) s += chars[rng.below(chars.size())];
        return s;
    }

    void run(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        // Values of several options and an argument
        vf::TextStream stream;
        std::vector<std::string> args;
        std::vector<Part> exp;
        const bool shared = rng.chance(0.5);
        const bool arg_alias = rng.chance(0.5);
        const int n = rng.chance(0.1) ? 0 : rng.range(1, 5);
        const bool same = rng.chance(0.06);
        const std::string same_text = rng.chance(0.6) ? "" : gen_text(rng);
        for (int i = 0; i < n; ++i)
        {
            auto s = same ? same_text : gen_text(rng);
            const auto which = shared ? rng.below(3) : 0;
            if (which == 2 && (s.empty() || s[0] != '-'))
            {
                args.push_back(s);
                if (arg_alias) exp.push_back({s, 3});
            }
            else if (which == 1)
            {
                args.push_back("--other=" + s);
                exp.push_back({s, 2});
            }
            else
            {
                args.push_back(rng.pick({"--list", "-l"}));
                args.push_back(s);
                exp.push_back({s, 1});
            }
        }
        std::vector<Limits> limits;
        ctx.describe(cat(join_quoted(args), shared ? " shared" : "", arg_alias ? " arg" : ""));
        ctx.add_sig(ctx.desc);
        ctx.nontrivial = !exp.empty();

        ArgumentParser parser("prog", false);
        parser.auto_exit(false).stream(&stream);
        parser.add(Option("-l", "--list").argument("L").operation(OptionOperation::APPEND).id(1));
        parser.add(Option("--other").argument("L").operation(OptionOperation::APPEND).alias("--list").id(2));
        Argument arg("arg");
        arg.count(0, 100).id(3);
        if (arg_alias) arg.alias("-l");
        parser.add(arg);
        const auto res = parser.parse(views(args));
        if (res.result_code() != ParserResultCode::SUCCESS)
            ctx.fail("not-parsed", stream.str());
        const auto values = res.values(rng.pick({"-l", "--list", "--other"}));
        check_list(ctx, "values", values, exp, stream);
        for (int i = 0; i < 3; ++i)
        {
            split_and_check(ctx, "values", values, exp, gen_limits(rng), stream, 1);
            if (!exp.empty())
            {
                const auto j = rng.below(exp.size());
                split_and_check(ctx, cat("value ", j), values.value(j), {exp[j]}, gen_limits(rng), stream, 1);
            }
        }
        if (exp.size() == 1)
            split_and_check(ctx, "value", res.value("--other"), exp, gen_limits(rng), stream, 0);
        if (exp.empty())
        {
            // A missing value gives an empty list, whatever the limits
            auto l = gen_limits(rng);
            check_list(ctx, "split of missing value", res.value("-l").split(l.sep, l.min, l.max), {}, stream);
        }
        check_list(ctx, "values afterwards", values, exp, stream);
        ctx.count("lists");
        ctx.count("list_values", exp.size());
    }
}

namespace vf
{
    const Property property = {
        "C19",
        "lists of values from options and arguments, split with several separators and limits; non-trivial: the list isn't empty",
        run,
        {"lists", "empty_lists", "splits", "splits_with_more_parts", "rest_in_last_part", "too_few_parts", "invalid_indexes", "named_errors", "unnamed_errors"},
    };
}
