// C18: Floating point, boolean and string conversions are exact or refused.
#include "spec.hpp"
#include "convert.hpp"
#include <bit>
#include <charconv>
#include <cmath>
#include <cstring>

using namespace vf;
using namespace argos;

namespace
{
    // The whole of s, after the sign, is a number.
    bool is_number(std::string_view s)
    {
        std::string t;
        for (char c : s)
            t += c >= 'A' && c <= 'Z' ? char(c + 32) : c;
        if (t == "inf" || t == "infinity" || t == "nan")
            return true;
        if (t.size() > 4 && t.compare(0, 4, "nan(") == 0 && t.back() == ')')
        {
            for (size_t i = 4; i + 1 < t.size(); ++i)
                if (!((t[i] >= 'a' && t[i] <= 'z') || (t[i] >= '0' && t[i] <= '9') || t[i] == '_')) return false;
            return true;
        }
        const bool hex = t.size() > 2 && t[0] == '0' && t[1] == 'x';
        size_t i = hex ? 2 : 0, n = 0;
        const auto digits = [&](bool h)
        {
            const auto start = i;
            while (i < t.size() && ((t[i] >= '0' && t[i] <= '9') || (h && t[i] >= 'a' && t[i] <= 'f'))) ++i;
            return i - start;
        };
        n = digits(hex);
        if (i < t.size() && t[i] == '.')
        {
            ++i;
            n += digits(hex);
        }
        if (n == 0)
            return false;
        if (i < t.size() && t[i] == (hex ? 'p' : 'e'))
        {
            ++i;
            if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
            if (digits(false) == 0)
                return false;
        }
        return i == t.size();
    }

    // std::from_chars is independent of the C library's functions, and both
    // must round to nearest.
    template <typename T>
    std::optional<T> read_number(std::string_view s, bool& denormal)
    {
        denormal = false;
        size_t i = 0;
        while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) ++i;
        bool negative = false;
        if (i < s.size() && (s[i] == '-' || s[i] == '+'))
            negative = s[i++] == '-';
        if (!is_number(s.substr(i)))
            return {};
        auto format = std::chars_format::general;
        if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] | 32) == 'x')
        {
            format = std::chars_format::hex;
            i += 2;
        }
        T value = 0;
        const auto end = s.data() + s.size();
        const auto [p, ec] = std::from_chars(s.data() + i, end, value, format);
        if (ec == std::errc::result_out_of_range && p == end)
        {
            // The underflow of a denormal result isn't always an error
            return {};
        }
        if (ec != std::errc() || p != end)
            throw HarnessError("from_chars: " + std::string(s));
        if (value != 0 && std::fabs(value) < std::numeric_limits<T>::min() * 2)
            denormal = true;
        return negative ? -value : value;
    }

    struct Same
    {
        template <typename T>
        bool operator()(const T& a, const T& b) const
        {
            if constexpr (std::is_floating_point_v<T>)
                return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b);
            else
                return std::equal(a.begin(), a.end(), b.begin(), b.end(), *this);
        }
    };

    std::string print(const char* format, double v)
    {
        char buf[2000];
        snprintf(buf, sizeof buf, format, v);
        return buf;
    }

    std::string gen_text(Rng& rng)
    {
        static const std::vector<std::string> ODD = {"", ".", "-", "+", "e", "1e", "1e+", ".e1", "0x", "0x.", "0x.p1", "0x1p", "0x1p4", "0x1.8p-1",
            "0X1.FFFFFFFFFFFFFp1023", "0x1p1024", "inf", "-INF", "Infinity", "infinite", "nan", "NAN", "-nan", "nan(12)", "nan(", "nanx",
            "1e308", "1e309", "-1e309", "1e400", "1.7976931348623157e308", "1.7976931348623159e308", "3.4028235e38", "3.4028236e38", "3.5e38",
            "1e-400", "1e-37", "2e-308", "1e-46", "0", "-0", "0.0", "-0.0e99", "0e999999999999", "1e-999999999999", "1,5", "1.5.2", "1.5f", "1.5 ", " 1.5",
            "\t\n1.5", "1d", "1..", ".5", "5.", "+.5e-1", "--1", "+-1", "1_000", "one", "true", "false", "0", "FALSE", "False", "no", "1", "false ", " false", "00",
            "9007199254740993", "9007199254740992.999999999999999999999", "0.1", "16777217", "16777216.999999", "\xe2\x88\x92" "1", "1e1.5", "0b1"};
        if (rng.chance(0.25))
            return rng.pick(ODD);
        if (rng.chance(0.04))
        {
            std::string s;
            for (size_t n = rng.below(9); n > 0; --n)
                s += rng.pick({'0', '1', '9', 'x', 'e', '-', '+', ' ', '.', '\0', '\xff', 'p', 'i', 'n', 'f', 'a'});
            return s;
        }
        std::string s;
        double v = 0;
        switch (rng.below(5))
        {
        case 0: v = std::bit_cast<double>(rng.next()); break;
        case 1: v = std::bit_cast<float>(uint32_t(rng.next())); break;
        case 2: v = double(int64_t(rng.next())) / double(1ull << rng.below(60)); break;
        case 3: v = double(rng.range(-1000, 1000)) / rng.pick({1, 2, 3, 7, 10, 100}); break;
        default:
            // Half way between two numbers, or almost
            v = rng.chance(0.5) ? std::bit_cast<double>(rng.next()) : std::bit_cast<float>(uint32_t(rng.next()));
            break;
        }
        if (std::isnan(v)) v = 1.5;
        switch (rng.below(6))
        {
        case 0: s = print("%.17g", v); break;
        case 1: s = print("%.9g", v); break;
        case 2: s = print("%a", v); break;
        case 3: s = print("%f", v); break;
        case 4: s = print("%.40e", v); break;
        default:
        {
            // Exact half way point
            const float f = float(v);
            if (std::isfinite(f))
                s = print("%.1100g", (double(f) + double(std::nextafter(f, INFINITY))) / 2);
            else
                s = print("%.20g", v);
            if (rng.chance(0.5) && s.find_first_of("en") == s.npos && s.find('.') != s.npos)
                s += "0000000000000000000000000000001";
        }
        }
        if (rng.chance(0.15))
        {
            const std::string flaws(" .,-+xe\0f9\n_L:d", 15);
            s.insert(rng.chance(0.6) ? s.size() : rng.below(s.size() + 1), 1, flaws[rng.below(flaws.size())]);
        }
        return s;
    }

    template <typename T, typename Get, typename GetAll>
    void check_type(Ctx& ctx, const char* type, Converted& c, Get get, GetAll get_all)
    {
        const T def = T(ctx.rng.range(-1000, 1000)) / 8;
        std::vector<T> list;
        bool list_ok = true, denormals = false;
        for (size_t i = 0; i < c.texts.size(); ++i)
        {
            bool denormal = false;
            auto exp = read_number<T>(c.texts[i], denormal);
            if (denormal)
            {
                // Either is fine, but nothing else.
                const auto v = c.values.value(i);
                const auto ex = exception_of([&] { exp = get(v, def); });
                if (ex.empty() && !Same()(*exp, *read_number<T>(c.texts[i], denormal)))
                    ctx.fail("wrong-value", cat(type, " of ", quote(c.texts[i])));
                denormals = true;
                ctx.count("denormal");
                continue;
            }
            if (exp && list_ok) list.push_back(*exp);
            list_ok = list_ok && exp;
            const auto v = c.values.value(i);
            expect_conversion<T>(ctx, cat(type, " of ", quote(c.texts[i])), c, i, exp, [&] { return get(v, def); }, Same());
            ctx.count(exp ? "converted" : "refused");
            if (exp && std::isinf(*exp)) ctx.count("infinite");
        }
        if (denormals)
            return;
        if (c.texts.empty())
        {
            const auto v = c.missing;
            expect_conversion<T>(ctx, cat(type, " of a missing value"), c, 0, def, [&] { return get(v, def); });
            ctx.count("defaults");
        }
        const std::vector<T> defs(ctx.rng.below(3), def);
        if (c.texts.empty())
            list = defs;
        expect_conversion<std::vector<T>>(ctx, cat(type, "s of ", join_quoted(c.texts)), c, NO_INDEX,
                                          list_ok ? std::optional(list) : std::nullopt,
                                          [&] { return get_all(c.values, defs); }, Same());
        ctx.count(list_ok ? "lists_converted" : "lists_refused");
    }

    void run(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        std::vector<std::string> texts;
        const int n = rng.chance(0.7) ? 1 : rng.range(0, 4);
        for (int i = 0; i < n; ++i)
            texts.push_back(gen_text(rng));
        Converted c(ctx, texts, "floats");
        ctx.nontrivial = !texts.empty();
        check_type<float>(ctx, "as_float", c, [](auto& v, auto d) { return v.as_float(d); },
                          [](auto& v, auto& d) { return v.as_floats(d); });
        check_type<double>(ctx, "as_double", c, [](auto& v, auto d) { return v.as_double(d); },
                           [](auto& v, auto& d) { return v.as_doubles(d); });
        // Never refused
        for (size_t i = 0; i < texts.size(); ++i)
        {
            const auto v = c.values.value(i);
            const bool truth = !texts[i].empty() && texts[i] != "0" && texts[i] != "false";
            for (bool def : {false, true})
            {
                expect_conversion<bool>(ctx, cat("as_bool(", def, ") of ", quote(texts[i])), c, i, truth,
                                        [&] { return v.as_bool(def); });
            }
            ctx.count(truth ? "true" : "false");
            expect_conversion<std::string>(ctx, "as_string of " + quote(texts[i]), c, i, texts[i],
                                           [&] { return v.as_string("default"); });
            if (!v || !v.value() || *v.value() != texts[i])
                ctx.fail("value", quote(texts[i]));
        }
        if (texts.empty())
        {
            if (c.missing || c.missing.value())
                ctx.fail("missing-has-value", "");
            for (bool def : {false, true})
                expect_conversion<bool>(ctx, "as_bool of missing value", c, 0, def, [&] { return c.missing.as_bool(def); });
            expect_conversion<std::string>(ctx, "as_string of missing value", c, 0, std::string("default"),
                                           [&] { return c.missing.as_string("default"); });
        }
        const std::vector<std::string> defs(rng.below(3), "default");
        expect_conversion<std::vector<std::string>>(ctx, "as_strings", c, 0, texts.empty() ? defs : texts,
                                                    [&] { return c.values.as_strings(defs); });
        // Round trip
        const auto d = std::bit_cast<double>(rng.next());
        const auto f = std::bit_cast<float>(uint32_t(rng.next()));
        if (std::isfinite(d) && std::isfinite(f) && std::fabs(d) > 1e-300 && std::fabs(f) > 1e-37f)
        {
            const auto format = rng.pick({"%.17g", "%.20e", "%a", "%.1074g"});
            const auto dt = print(format, d), ft = print(rng.pick({"%.9g", "%.12e", "%a"}), f);
            ctx.desc += cat("\nround trip of ", dt, " ", ft);
            vf::TextStream ss;
            ArgumentParser p("prog", false);
            p.auto_exit(false).stream(&ss).add(Option("-d").argument("N")).add(Option("-f").argument("N"));
            const auto res = p.parse(std::vector<std::string_view>{"-d", dt, "-f", ft});
            if (res.value("-d").as_double() != d)
                ctx.fail("round-trip", cat(dt, " gives ", print("%.17g", res.value("-d").as_double())));
            if (res.value("-f").as_float() != f)
                ctx.fail("round-trip", cat(ft, " gives ", print("%.9g", res.value("-f").as_float())));
            ctx.count("round_trips");
        }
        c.finish(ctx);
    }
}

namespace vf
{
    const Property property = {
        "C18",
        "a list of texts, converted to floating point numbers, booleans and strings; non-trivial: there is at least one text",
        run,
        {"converted", "refused", "true", "false", "defaults", "infinite", "lists_converted", "lists_refused", "round_trips"},
    };
}
