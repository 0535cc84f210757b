// C17: Integer conversions are exact or refused.
#include "spec.hpp"
#include "convert.hpp"
#include <cerrno>
#include <climits>

using namespace vf;
using namespace argos;

namespace
{
    using Wide = unsigned __int128;

    // What the text denotes. Texts can be too large even for 128 bits.
    struct Number
    {
        bool valid = false;
        bool negative = false;
        bool huge = false;
        Wide magnitude = 0;
        // The C library may or may not understand 0b
        bool unspecified = false;
    };

    int digit(char c)
    {
        if ('0' <= c && c <= '9') return c - '0';
        if ('a' <= c && c <= 'z') return c - 'a' + 10;
        if ('A' <= c && c <= 'Z') return c - 'A' + 10;
        return 99;
    }

    Number read_number(std::string_view s, int base)
    {
        Number n;
        if (base != 0 && (base < 2 || base > 36))
            return n;
        size_t i = 0;
        while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) ++i;
        if (i < s.size() && (s[i] == '-' || s[i] == '+'))
            n.negative = s[i++] == '-';
        const auto prefix = [&](char c, int b)
        {
            return i + 2 < s.size() && s[i] == '0' && (s[i + 1] | 32) == c && digit(s[i + 2]) < b;
        };
        if ((base == 0 || base == 2) && prefix('b', 2))
            n.unspecified = true;
        if ((base == 0 || base == 16) && prefix('x', 16))
        {
            base = 16;
            i += 2;
        }
        else if (base == 0)
            base = i < s.size() && s[i] == '0' ? 8 : 10;
        if (i == s.size())
            return n;
        for (; i < s.size(); ++i)
        {
            const int d = digit(s[i]);
            if (d >= base) return n;
            if (n.magnitude >> 100) n.huge = true;
            else n.magnitude = n.magnitude * unsigned(base) + unsigned(d);
        }
        n.valid = true;
        return n;
    }

    template <typename T>
    std::optional<T> expected(const Number& n)
    {
        if (!n.valid || n.huge) return {};
        using L = std::numeric_limits<T>;
        if (std::is_signed_v<T>)
        {
            if (n.magnitude > Wide(L::max()) + (n.negative ? 1 : 0)) return {};
            return n.negative ? T(-__int128(n.magnitude)) : T(n.magnitude);
        }
        // As strtoul: the negative of the number, modulo 2^64
        if (n.magnitude > Wide(ULONG_MAX)) return {};
        const unsigned long v = n.negative ? 0ul - (unsigned long)(n.magnitude) : (unsigned long)(n.magnitude);
        if (v > L::max()) return {};
        return T(v);
    }

    std::string digits(Wide v, int base, bool upper)
    {
        std::string s;
        do
        {
            const int d = int(v % unsigned(base));
            s.insert(s.begin(), char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10));
            v /= unsigned(base);
        }
        while (v);
        return s;
    }

    std::string gen_text(Rng& rng, int base)
    {
        static const std::vector<std::string> ODD = {"", "-", "+", " ", "0x", "0X", "0xg", "x1", "+-1", "--1",
            "- 1", "1 ", " 1", "\t\n\v\f\r12", "1.0", "1e3", "1,000", "1'000", "0", "-0", "+0", "00", "08", "09", "0x0", "-0x1",
            "0b1", "0b2", "1_000", "\xd9\xa3", "\xc2\xa0" "1", "one", "true", "0xFFFFFFFFFFFFFFFF", "0o17", "017", "1L", "1u",
            "2147483648", "-2147483649", "4294967296", "9223372036854775808", "18446744073709551616", "-9223372036854775809",
            "340282366920938463463374607431768211456", "340282366920938463463374607431768211457", "z", "Z", "zz"};
        if (rng.chance(0.12))
            return rng.pick(ODD);
        if (rng.chance(0.04))
        {
            std::string s;
            for (size_t n = rng.below(8); n > 0; --n)
                s += rng.pick({'0', '1', '9', 'x', 'F', '-', '+', ' ', '.', '\0', '\xff', 'a', '\n'});
            return s;
        }
        const int b = base >= 2 && base <= 36 ? base : base == 0 ? rng.pick({8, 10, 16}) : 10;
        Wide v = 0;
        switch (rng.below(4))
        {
        case 0: v = rng.below(300); break;
        case 1:
        {
            // Close to a limit of one of the types
            const int bits = rng.pick({7, 8, 15, 16, 31, 31, 32, 32, 63, 63, 64, 64, 65, 96});
            v = (Wide(1) << bits) + rng.below(5) - 2;
            break;
        }
        case 2: v = rng.next() >> rng.below(64); break;
        default: v = (Wide(rng.next()) << 20) ^ rng.next(); break;
        }
        auto s = digits(v, b, rng.chance(0.5));
        if (rng.chance(0.05))
            s += digits(rng.next(), b, false);
        if (rng.chance(0.1))
            s.insert(0, rng.below(30), '0');
        if (b == 16 && rng.chance(base == 0 ? 0.9 : 0.4))
            s = (rng.chance(0.5) ? "0x" : "0X") + s;
        else if (b == 8 && base == 0)
            s = "0" + s;
        if (rng.chance(0.3))
            s = (rng.chance(0.7) ? "-" : "+") + s;
        if (rng.chance(0.08))
            s = rng.pick({" ", "  ", "\t", "\n"}) + s;
        if (rng.chance(0.12))
        {
            // A flaw somewhere
            const std::string flaws(" .,-+xgzZ9\0\n_L:", 16);
            const size_t where = rng.chance(0.6) ? s.size() : rng.below(s.size() + 1);
            s.insert(where, 1, flaws[rng.below(flaws.size())]);
        }
        return s;
    }

    template <typename T, typename Get, typename GetAll>
    void check_type(Ctx& ctx, const char* type, Converted& c, int base, Get get, GetAll get_all)
    {
        Rng& rng = ctx.rng;
        const T def = T(rng.next());
        std::vector<T> list;
        bool list_ok = true, unspecified = false;
        for (size_t i = 0; i < c.texts.size(); ++i)
        {
            const auto n = read_number(c.texts[i], base);
            if (n.unspecified)
            {
                ctx.count("skipped_binary_prefix");
                unspecified = true;
                continue;
            }
            const auto exp = expected<T>(n);
            if (exp && list_ok) list.push_back(*exp);
            list_ok = list_ok && exp;
            const auto v = c.values.value(i);
            expect_conversion<T>(ctx, cat("as_", type, "(", +def, ", ", base, ") of ", quote(c.texts[i])), c, i, exp,
                                 [&] { return get(v, def, base); });
            ctx.count(exp ? "converted" : n.valid ? "refused_out_of_range" : "refused_invalid");
            if (n.valid && n.negative && n.magnitude != 0) ctx.count("negative");
        }
        if (unspecified)
            return;
        if (c.texts.empty())
        {
            const auto v = c.missing;
            expect_conversion<T>(ctx, cat("as_", type, " of a missing value"), c, 0, def, [&] { return get(v, def, base); });
            ctx.count("defaults");
        }
        const std::vector<T> defs(rng.below(3), def);
        if (c.texts.empty())
            list = defs;
        expect_conversion<std::vector<T>>(ctx, cat("as_", type, "s(", base, ") of ", join_quoted(c.texts)), c, NO_INDEX,
                                          list_ok ? std::optional(list) : std::nullopt,
                                          [&] { return get_all(c.values, defs, base); });
        ctx.count(list_ok ? "lists_converted" : "lists_refused");
    }

    void run(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        const int base = rng.chance(0.45) ? 10
            : rng.pick({0, 0, 2, 3, 7, 8, 8, 16, 16, 16, 20, 35, 36, 36, rng.range(2, 36), rng.chance(0.2) ? rng.pick({1, -1, 37, INT_MIN, INT_MAX}) : 10});
        std::vector<std::string> texts;
        const int n = rng.chance(0.7) ? 1 : rng.range(0, 4);
        for (int i = 0; i < n; ++i)
            texts.push_back(gen_text(rng, base));
        Converted c(ctx, texts, cat("base ", base));
        ctx.add_sig(uint64_t(base));
        ctx.nontrivial = !texts.empty();
#define CHECK_TYPE(type, name, list) \
        check_type<type>(ctx, #name, c, base, \
            [](auto& v, auto d, int b) { return v.name(d, b); }, \
            [](auto& v, auto& d, int b) { return v.list(d, b); })
        CHECK_TYPE(int, as_int, as_ints);
        CHECK_TYPE(unsigned, as_uint, as_uints);
        CHECK_TYPE(long, as_long, as_longs);
        CHECK_TYPE(long long, as_llong, as_llongs);
        CHECK_TYPE(unsigned long, as_ulong, as_ulongs);
        CHECK_TYPE(unsigned long long, as_ullong, as_ullongs);
        if (base == 10 && texts.size() == 1)
        {
            // The default arguments
            const auto exp = expected<int>(read_number(texts[0], 10));
            expect_conversion<int>(ctx, "as_int() of " + quote(texts[0]), c, 0, exp, [&] { return c.values.value(0).as_int(); });
        }
        c.finish(ctx);
    }
}

namespace vf
{
    const Property property = {
        "C17",
        "a list of values, read as all integer types in one base; non-trivial: there is at least one value",
        run,
        {"converted", "refused_out_of_range", "refused_invalid", "negative", "defaults", "lists_converted", "lists_refused"},
    };
}
