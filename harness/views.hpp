// Texts with everything views tell, and everything they should tell.
#pragma once
#include "spec.hpp"

namespace vf
{
    inline std::string dump_common(const argos::IArgumentView& v)
    {
        return cat("#", id_of(v), " help=", quote(v.help()), " section=", quote(v.section()), " visibility=",
                   unsigned(v.visibility()));
    }

    inline std::string dump(const argos::ArgumentView& v)
    {
        return cat("argument ", dump_common(v), " name=", quote(v.name()), " alias=", quote(v.alias()), " count=",
                   v.count().first, "..", v.count().second, v.optional() ? " optional" : "");
    }

    inline std::string dump(const argos::OptionView& v)
    {
        // The constant is an implementation detail for CLEAR
        return cat("option ", dump_common(v), " flags=", join_quoted(v.flags()), " alias=", quote(v.alias()), " argument=",
                   quote(v.argument()), " constant=",
                   v.operation() == OptionOperation::CLEAR ? "" : quote(v.constant()), " initial=", quote(v.initial_value()),
                   " operation=", int(v.operation()), " type=", int(v.type()), v.optional() ? " optional" : "");
    }

    inline std::string dump_shallow(const argos::CommandView& v)
    {
        return cat("command ", dump_common(v), " name=", quote(v.name()));
    }

    // The root's id, section etc. cannot be set
    inline std::string dump_tree(const argos::CommandView& v, int depth = 0)
    {
        const std::string pad(size_t(depth) * 2, ' ');
        auto r = pad + dump_shallow(v) + (v.require_subcommand() ? " require" : "") + "\n";
        for (auto& a : v.arguments()) r += pad + "  " + dump(a) + "\n";
        for (auto& o : v.options()) r += pad + "  " + dump(o) + "\n";
        for (auto& c : v.subcommands()) r += dump_tree(c, depth + 1);
        return r;
    }

    inline std::string dump_any(const argos::IArgumentView& v)
    {
        if (auto a = dynamic_cast<const argos::ArgumentView*>(&v)) return dump(*a);
        if (auto o = dynamic_cast<const argos::OptionView*>(&v)) return dump(*o);
        if (auto c = dynamic_cast<const argos::CommandView*>(&v)) return dump_shallow(*c);
        return "unknown";
    }

    template <typename T>
    std::string spec_common(const T& s, const std::string& help)
    {
        return cat("#", s.id, " help=", quote(help), " section=", quote(s.section), " visibility=", unsigned(s.visibility));
    }

    inline std::string dump(const ArgSpec& s)
    {
        return cat("argument ", spec_common(s, s.help), " name=", quote(s.name), " alias=", quote(s.alias), " count=",
                   s.min, "..", s.max, s.min == 0 ? " optional" : "");
    }

    inline std::string dump(const OptSpec& s)
    {
        return cat("option ", spec_common(s, s.help), " flags=", join_quoted(s.flags), " alias=", quote(s.alias), " argument=",
                   quote(s.argument), " constant=", s.op == OptionOperation::CLEAR ? "" : quote(s.constant), " initial=",
                   quote(s.initial), " operation=", int(s.op), " type=", int(s.type), s.mandatory ? "" : " optional");
    }

    inline std::string help_of(const CmdSpec& s)
    {
        auto it = s.texts.find(TextId::HELP);
        return it == s.texts.end() ? std::string() : it->second;
    }

    inline std::string dump_shallow(const CmdSpec& s)
    {
        return cat("command ", spec_common(s, help_of(s)), " name=", quote(s.name));
    }

    inline std::string dump_tree(const ParserSpec& spec, const CmdSpec& s, int depth = 0)
    {
        const std::string pad(size_t(depth) * 2, ' ');
        auto r = pad + dump_shallow(s) + (s.require.value_or(!s.cmds.empty()) ? " require" : "") + "\n";
        for (auto& a : s.args) r += pad + "  " + dump(a) + "\n";
        for (auto& o : effective_options(spec, s, &s == &spec.root)) r += pad + "  " + dump(o) + "\n";
        for (auto& c : s.cmds) r += dump_tree(spec, c, depth + 1);
        return r;
    }

    // id -> what a view should tell
    inline void dump_all(const ParserSpec& spec, const CmdSpec& s, std::map<std::string, std::string>& out, const std::string& path)
    {
        for (auto& a : s.args) out[cat(path, "/", a.id)] = dump(a);
        for (auto& o : effective_options(spec, s, &s == &spec.root)) out[cat(path, "/", o.id)] = dump(o);
        for (auto& c : s.cmds)
        {
            out[cat(path, "/", c.id)] = dump_shallow(c);
            dump_all(spec, c, out, cat(path, "/", c.id));
        }
    }
}
