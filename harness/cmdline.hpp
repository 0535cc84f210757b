// Cases where a parser and a command line are generated, and where the
// outcome is compared with that of the reference model.
#pragma once
#include "spec.hpp"
#include <algorithm>
#include <set>

namespace vf
{
    inline const char* outcome_name(const Outcome& m)
    {
        switch (m.root.code)
        {
        case ParserResultCode::SUCCESS: return "success";
        case ParserResultCode::STOP: return "stop";
        case ParserResultCode::FAILURE: return "failure";
        default: return "none";
        }
    }

    struct CmdCase
    {
        ParserSpec spec;
        std::vector<std::string> args;
        Outcome model;
        Outcome real;
    };

    inline void count_model(Ctx& ctx, const Outcome& m)
    {
        ctx.count(cat("outcome_", outcome_name(m)));
        if (!m.error.empty())
            ctx.count("error_" + m.error);
        for (auto& [k, v] : m.stats)
            ctx.count(k, v);
        ctx.count("events", m.events.size());
    }

    // Returns false if the documentation doesn't say what the outcome is.
    inline bool predict(Ctx& ctx, CmdCase& c)
    {
        ctx.describe(describe(c.spec, c.args));
        ctx.add_sig(ctx.desc);
        c.model = run_model(c.spec, c.args);
        if (c.model.unspecified)
        {
            ctx.count("skipped_unspecified");
            return false;
        }
        count_model(ctx, c.model);
        return true;
    }

    inline void expect_outcome(Ctx& ctx, const std::string& key, const Outcome& expected,
                               const Outcome& actual, const CompareFlags& flags = {})
    {
        ctx.count("monitor_checks");
        auto d = compare_outcome(expected, actual, flags);
        if (!d.empty())
        {
            ctx.fail(key, d + "\nexpected" + (expected.error.empty() ? "" : " (" + expected.error + ")") + ":\n"
                     + to_string(expected.root) + "got:\n" + to_string(actual.root) + actual.output);
        }
    }

    // Generates a case, runs it and compares. Returns false if it was
    // skipped.
    inline bool model_case(Ctx& ctx, const Profile& p, CmdCase& c, const CompareFlags& flags = {})
    {
        c.spec = gen_spec(ctx.rng, p);
        c.args = gen_args(ctx.rng, c.spec, p);
        if (!predict(ctx, c))
            return false;
        c.real = run_parse(c.spec, c.args);
        expect_outcome(ctx, "outcome", c.model, c.real, flags);
        return true;
    }

    inline std::string lower_case(std::string s)
    {
        for (auto& ch : s)
            if (ch >= 'A' && ch <= 'Z') ch = char(ch + 32);
        return s;
    }

    inline std::string squeeze(const std::string& s)
    {
        std::string r;
        for (char c : s)
            if (c != ' ' && c != '\n' && c != '\t' && c != '\r') r += c;
        return r;
    }

    // Removes the next number in s and returns it, or -1.
    inline long next_number(std::string& s)
    {
        const char* digits = "0123456789";
        auto b = s.find_first_of(digits);
        if (b == s.npos) return -1;
        auto e = std::min(s.size(), s.find_first_not_of(digits, b));
        const bool whole = (b == 0 || !isalnum((unsigned char)s[b - 1])) && (e == s.size() || !isalnum((unsigned char)s[e]));
        const long n = e - b < 9 && whole ? stol(s.substr(b, e - b)) : -2;
        s.erase(0, e);
        return n;
    }

    // The message says what's wrong, and where.
    inline void check_message(Ctx& ctx, const CmdCase& c)
    {
        const auto& m = c.model;
        const auto name = squeeze(m.error_command + ":");
        const auto end = c.real.output.find("\nUSAGE");
        const auto text = c.real.output.substr(0, end);
        if (m.error_command.size() > 60) return;
        ctx.check(squeeze(text).compare(0, name.size(), name) == 0, "error-attributed-to-other-command",
                  [&] { return cat("expected ", quote(m.error_command), ", got ", quote(c.real.output)); });
        if (m.error == "too-few")
        {
            // The number that are needed and the number received.
            auto pos = m.error_subject.find(' ');
            const long lo = stol(m.error_subject), received = stol(m.error_subject.substr(pos));
            // (the name can have spaces in it)
            std::string rest = text.substr(text.find(':', m.error_command.size()) + 1);
            std::set<long> numbers;
            for (long n = 0; (n = next_number(rest)) != -1;) numbers.insert(n);
            ctx.check(numbers == std::set<long>{lo, received}, "wrong-counts-in-message",
                      [&] { return cat("expected ", m.error_subject, ", got ", quote(c.real.output)); });
            ctx.count("messages_with_counts");
        }
        else
        {
            if (m.error_subject.size() > 30) return;
            for (unsigned char ch : m.error_subject)
                if (ch < 32) return;
            ctx.check(squeeze(text.substr(m.error_command.size())).find(squeeze(m.error_subject)) != text.npos, "message-does-not-name-what-is-wrong",
                      [&] { return cat("expected ", m.error, " ", quote(m.error_subject), ", got ", quote(c.real.output)); });
            if (!m.error_subject.empty()) ctx.count("messages_with_subjects");
        }
    }
}
