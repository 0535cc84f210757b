#include "decorate.hpp"

namespace vf
{
    using namespace argos;

    // ---- Generators ------------------------------------------------------

    namespace
    {
        const std::vector<std::string> VOCABULARY = {
            "the", "file", "a", "to", "of", "is", "read", "value", "when", "option", "(see", "below).", "default:", "42,", "well-known",
            "written", "output", "directory", "e.g.", "i.e.", "<x>", "[y]", "it's", "bl\xc3\xa5" "b\xc3\xa6r", "\xe6\x97\xa5\xe6\x9c\xac", "50%",
            "--foo", "-x", "/y", "and", "or", "not", "characteristically", "x=1", "end.", "\"quoted\"", "{}", "\\", "%s", "\xf0\x9f\x98\x80"};
    }

    std::string gen_help_text(Rng& rng, const Decoration& d)
    {
        std::string s;
        const int lines = d.odd_layout && rng.chance(0.2) ? rng.range(1, 4) : 1;
        for (int l = 0; l < lines; ++l)
        {
            if (l)
                s += rng.pick({"\n", "\n", "\n\n", "\r\n"});
            if (d.odd_layout && rng.chance(0.15))
                s += rng.pick({"- ", "* ", "1. ", "12. ", "  ", "\t", "  - "});
            const int n = rng.range(1, d.long_texts && rng.chance(0.4) ? 30 : 5);
            for (int i = 0; i < n; ++i)
            {
                if (i)
                    s += d.odd_layout && rng.chance(0.05) ? rng.pick({"  ", "\t", "   "}) : " ";
                s += rng.pick(VOCABULARY);
            }
        }
        if (d.odd_layout && rng.chance(0.05))
            s += rng.pick({"\n", " ", "\n\n", "\t"});
        return s;
    }

    namespace
    {
        struct Decorator
        {
            Rng& rng;
            const Decoration& d;

            std::string section()
            {
                if (!rng.chance(d.section)) return {};
                return rng.pick({"GENERAL", "Special options", "OPTIONS", "ARGUMENTS", "COMMANDS", "x", "Other things:", "\xc3\x86"});
            }

            Visibility visibility()
            {
                if (!rng.chance(d.hidden)) return Visibility::NORMAL;
                return rng.pick({Visibility::HIDDEN, Visibility::USAGE, Visibility::TEXT});
            }

            template <typename T>
            void item(T& t)
            {
                if (rng.chance(d.help)) t.help = gen_help_text(rng, d);
                t.section = section();
                t.visibility = visibility();
            }

            void command(CmdSpec& c)
            {
                for (auto& a : c.args) item(a);
                for (auto& o : c.opts) item(o);
                for (auto& s : c.cmds)
                {
                    s.section = section();
                    s.visibility = visibility();
                    command(s);
                }
                if (!c.require.value_or(true) && !c.cmds.empty())
                {
                    // There would be empty brackets
                    bool visible = false;
                    for (auto& s : c.cmds)
                        visible = visible || (s.visibility & Visibility::USAGE) != Visibility::HIDDEN;
                    if (!visible) c.cmds[0].visibility = Visibility::NORMAL;
                }
                c.generated_section = section();
                for (auto id : {TextId::INITIAL_TEXT, TextId::USAGE, TextId::ABOUT, TextId::FINAL_TEXT, TextId::ERROR_USAGE, TextId::HELP})
                {
                    const double p = id == TextId::HELP ? d.help : id == TextId::USAGE || id == TextId::ERROR_USAGE ? d.text / 2 : d.text;
                    if (rng.chance(p))
                        c.texts[id] = rng.chance(0.1) ? "" : gen_help_text(rng, d);
                }
                for (auto id : {TextId::USAGE_TITLE, TextId::SUBCOMMANDS_TITLE, TextId::ARGUMENTS_TITLE, TextId::OPTIONS_TITLE})
                {
                    if (rng.chance(d.text / 2))
                        c.texts[id] = rng.chance(0.1) ? "" : rng.pick({"Title", "A title of some words:", "OPTIONS", "GENERAL", "USAGE", "x"});
                }
            }
        };
    }

    void decorate(Rng& rng, ParserSpec& spec, const Decoration& d)
    {
        Decorator dec{rng, d};
        dec.command(spec.root);
    }

    std::vector<const CmdSpec*> gen_path(Rng& rng, const CmdSpec& root)
    {
        std::vector<const CmdSpec*> path{&root};
        while (!path.back()->cmds.empty() && rng.chance(0.7))
            path.push_back(&path.back()->cmds[rng.below(path.back()->cmds.size())]);
        return path;
    }

    std::string full_name(const std::vector<const CmdSpec*>& path)
    {
        std::string s;
        for (auto c : path) s += (s.empty() ? "" : " ") + c->name;
        return s;
    }

    std::vector<std::string> help_args(const ParserSpec& spec, const std::vector<const CmdSpec*>& path)
    {
        std::vector<std::string> r;
        for (size_t i = 1; i < path.size(); ++i) r.push_back(path[i]->name);
        for (auto& o : effective_options(spec, *path.back(), path.size() == 1))
        {
            if (o.type != OptionType::HELP) continue;
            r.push_back(o.flags.front());
            if (o.flags.front().back() == '=') r.back() += "x";
            else if (!o.argument.empty()) r.push_back("x");
            return r;
        }
        return {};
    }

    std::string text_change;

    // ---- Building ----------------------------------------------------------

    namespace
    {
        template <typename T>
        void set_text(Rng* rng, T& t, TextId id, const std::string& s)
        {
            if (!rng)
            {
                t.text(id, s);
                return;
            }
            if constexpr (requires { t.help(s); })
            {
                if (id == TextId::HELP && rng->chance(0.5)) { t.help(s); return; }
            }
            if (id == TextId::ABOUT && rng->chance(0.5)) { t.about(s); return; }
            // Replaced texts leave no traces.
            if (rng->chance(0.1)) t.text(id, "REPLACED");
            if (rng->chance(0.4)) t.text(id, [s] { return s + text_change; });
            else t.text(id, s);
        }

        template <typename T, typename Item>
        void add_item(Rng* rng, T& target, Item item)
        {
            if (rng && rng->chance(0.5)) target.add(item);
            else target.add(std::move(item));
        }

        template <typename T>
        void build(Rng* rng, T& t, const CmdSpec& s, const std::shared_ptr<Recorder>& rec)
        {
            std::string current;
            // Prepares for adding something that belongs in the section
            const auto section = [&](const std::string& name)
            {
                if (!name.empty() && (!rng || rng->chance(0.5)))
                    return name; // explicitly
                if (name != current)
                {
                    current = name;
                    t.current_section(name);
                }
                return std::string();
            };
            const auto texts = [&](bool first)
            {
                for (auto& [id, text] : s.texts)
                {
                    if ((rng && id != TextId::HELP && unsigned(id) % 2 == 0) == first)
                        set_text(rng, t, id, text);
                }
            };
            texts(true);
            // Arguments or commands, and options, in any relative order
            size_t o = 0, i = 0;
            const size_t items = s.args.size() + s.cmds.size();
            while (o < s.opts.size() || i < items)
            {
                if (i == items || (o < s.opts.size() && (!rng || rng->chance(0.5))))
                {
                    auto x = s.opts[o++];
                    x.section = section(x.section);
                    add_item(rng, t, build_option(rng, x, rec));
                }
                else if (i < s.args.size())
                {
                    auto x = s.args[i++];
                    x.section = section(x.section);
                    add_item(rng, t, build_argument(rng, x, rec));
                }
                else
                {
                    auto x = s.cmds[i++ - s.args.size()];
                    x.section = section(x.section);
                    add_item(rng, t, build_command(rng, x, rec));
                }
            }
            if (s.generated_section != current)
                t.current_section(s.generated_section);
            texts(false);
            if (s.require) t.require_subcommand(*s.require);
            if (s.multi) t.allow_multiple_subcommands(true);
        }
    }

    Option build_option(Rng* rng, const OptSpec& s, const std::shared_ptr<Recorder>& rec)
    {
        auto o = make_option(s, rec);
        if (rng && rng->chance(0.4))
            o.help([h = s.help] { return h + text_change; });
        return o;
    }

    Argument build_argument(Rng* rng, const ArgSpec& s, const std::shared_ptr<Recorder>& rec)
    {
        auto a = make_argument(s, rec);
        if (rng && rng->chance(0.4))
            a.help([h = s.help] { return h + text_change; });
        return a;
    }

    Command build_command(Rng* rng, const CmdSpec& s, const std::shared_ptr<Recorder>& rec)
    {
        Command c;
        if (rng && rng->chance(0.5)) c.name(s.name);
        else c = Command(s.name);
        c.id(s.id);
        build(rng, c, s, rec);
        if (!s.section.empty()) c.section(s.section);
        c.visibility(s.visibility);
        return c;
    }

    ArgumentParser build_parser(Rng* rng, const ParserSpec& s, const std::shared_ptr<Recorder>& rec, std::ostream* stream)
    {
        // Everything but the top-level command's contents
        auto empty = s;
        empty.root = {};
        empty.root.name = s.root.name;
        auto p = make_parser(empty, rec, stream);
        build(rng, p, s.root, rec);
        return p;
    }

    // ---- Expectations --------------------------------------------------------

    namespace
    {
        std::vector<std::string> split_words(std::string_view s)
        {
            std::vector<std::string> r(1);
            for (char c : s)
            {
                if (c == ' ' || c == '\n' || c == '\r' || c == '\t')
                {
                    if (!r.back().empty()) r.emplace_back();
                }
                else r.back() += c;
            }
            if (r.back().empty()) r.pop_back();
            return r;
        }

        void put(std::vector<Word>& out, std::string_view text, int first, int rest)
        {
            for (auto& w : split_words(text))
            {
                out.push_back({w, first});
                first = rest;
            }
        }

        std::string argument_name(const ArgSpec& a)
        {
            if (a.name[0] == '<' || a.name[0] == '[')
                return a.name;
            std::string r;
            for (unsigned i = 0; i < a.min; ++i)
                r += (i ? " <" : "<") + a.name + ">";
            if (a.max == a.min) return r;
            if (a.min) r += " ";
            r += "[<" + a.name + ">]";
            if (a.max - a.min > 1) r += "...";
            return r;
        }

        std::string flag_and_argument(const std::string& flag, const OptSpec& o)
        {
            if (o.argument.empty()) return flag;
            return flag + (flag.back() == '=' ? "" : " ") + (o.argument[0] == '<' ? o.argument : "<" + o.argument + ">");
        }

        bool visible(Visibility v, Visibility in)
        {
            return (v & in) != Visibility::HIDDEN;
        }

        std::string text_of(const CmdSpec& c, TextId id)
        {
            auto it = c.texts.find(id);
            return it == c.texts.end() ? std::string() : it->second;
        }

        void usage(std::vector<Block>& out, const ParserSpec& spec, const std::vector<const CmdSpec*>& path)
        {
            auto& c = *path.back();
            if (c.texts.contains(TextId::USAGE) && text_of(c, TextId::USAGE).empty())
                return;
            if (c.texts.contains(TextId::USAGE_TITLE)) out.push_back({Block::TEXT, text_of(c, TextId::USAGE_TITLE), {}, {}});
            else out.push_back({Block::TITLE, "USAGE", {}, {}});
            if (c.texts.contains(TextId::USAGE))
            {
                out.push_back({Block::TEXT, text_of(c, TextId::USAGE), {}, {}});
                return;
            }
            const auto name = full_name(path);
            const auto opts = effective_options(spec, c, path.size() == 1);
            const auto stops = [](const OptSpec& o)
            {
                return o.type == OptionType::HELP || o.type == OptionType::STOP || o.type == OptionType::EXIT;
            };
            for (auto& o : opts)
            {
                if (!stops(o) || !visible(o.visibility, Visibility::USAGE)) continue;
                auto flag = o.flags.front();
                for (auto& f : o.flags)
                    if (f.size() > 2) { flag = f; break; }
                out.push_back({Block::USAGE, name, {flag_and_argument(flag, o)}, {}});
            }
            Block line{Block::USAGE, name, {}, {}};
            for (auto& o : opts)
            {
                if (stops(o) || !visible(o.visibility, Visibility::USAGE)) continue;
                const auto f = flag_and_argument(o.flags.front(), o);
                line.units.push_back(o.mandatory ? f : "[" + f + "]");
            }
            for (auto& a : c.args)
            {
                if (visible(a.visibility, Visibility::USAGE)) line.units.push_back(argument_name(a));
            }
            auto& cmds = line.commands;
            for (auto& s : c.cmds)
            {
                if (!visible(s.visibility, Visibility::USAGE)) continue;
                if (!cmds.empty()) cmds.push_back("|");
                cmds.push_back(s.name);
            }
            if (!cmds.empty() && !c.require.value_or(true))
            {
                cmds.insert(cmds.begin(), "[");
                cmds.push_back("]");
            }
            out.push_back(line);
        }

        std::vector<Word> to_words(const std::vector<Block>& blocks)
        {
            std::vector<Word> out;
            for (auto& b : blocks)
            {
                switch (b.kind)
                {
                case Block::TEXT: put(out, b.text, Word::START, Word::FREE); break;
                case Block::TITLE: put(out, b.text, 0, Word::FREE); break;
                case Block::LABEL: put(out, b.text, 2, Word::INNER); break;
                case Block::HELP: put(out, b.text, Word::INNER, Word::INNER); break;
                case Block::USAGE:
                {
                    auto line = b.text;
                    for (auto& u : b.units) line += " " + u;
                    put(out, line, 2, Word::INNER);
                    for (size_t i = 0; i < b.commands.size(); ++i)
                        out.push_back({b.commands[i], Word::INNER, i > 0});
                    break;
                }
                }
            }
            return out;
        }
    }

    std::vector<Block> help_blocks(const ParserSpec& spec, const std::vector<const CmdSpec*>& path)
    {
        auto& c = *path.back();
        std::vector<Block> out;
        out.push_back({Block::TEXT, text_of(c, TextId::INITIAL_TEXT), {}, {}});
        usage(out, spec, path);
        auto about = text_of(c, TextId::ABOUT);
        out.push_back({Block::TEXT, about.empty() ? text_of(c, TextId::HELP) : about, {}, {}});

        struct Section { std::string title; std::vector<std::pair<std::string, std::string>> items; };
        std::vector<Section> sections;
        const auto add = [&](const std::string& section, TextId id, const char* def, Visibility v,
                             const std::string& name, const std::string& help)
        {
            if (!visible(v, Visibility::TEXT)) return;
            auto title = section;
            if (title.empty()) title = c.texts.contains(id) ? text_of(c, id) : def;
            for (auto& s : sections)
            {
                if (s.title == title) { s.items.emplace_back(name, help); return; }
            }
            sections.push_back({title, {{name, help}}});
        };
        for (auto& a : c.args)
            add(a.section, TextId::ARGUMENTS_TITLE, "ARGUMENTS", a.visibility, argument_name(a), a.help);
        for (auto& s : c.cmds)
            add(s.section, TextId::SUBCOMMANDS_TITLE, "COMMANDS", s.visibility, s.name, text_of(s, TextId::HELP));
        for (auto& o : effective_options(spec, c, path.size() == 1))
        {
            std::string name;
            for (auto& f : o.flags) name += (name.empty() ? "" : ", ") + flag_and_argument(f, o);
            add(o.section, TextId::OPTIONS_TITLE, "OPTIONS", o.visibility, name, o.help);
        }
        for (auto& s : sections)
        {
            out.push_back({Block::TITLE, s.title, {}, {}});
            for (auto& [name, help] : s.items)
            {
                out.push_back({Block::LABEL, name, {}, {}});
                if (!help.empty()) out.push_back({Block::HELP, help, {}, {}});
            }
        }
        out.push_back({Block::TEXT, text_of(c, TextId::FINAL_TEXT), {}, {}});
        return out;
    }

    std::vector<Block> error_blocks(const ParserSpec& spec, const std::vector<const CmdSpec*>& path, const std::string& message)
    {
        auto& c = *path.back();
        std::vector<Block> out;
        out.push_back({Block::TEXT, full_name(path) + ": " + message, {}, {}});
        if (c.texts.contains(TextId::ERROR_USAGE))
            out.push_back({Block::TEXT, text_of(c, TextId::ERROR_USAGE), {}, {}});
        else
            usage(out, spec, path);
        return out;
    }

    std::vector<Word> help_words(const ParserSpec& spec, const std::vector<const CmdSpec*>& path)
    {
        return to_words(help_blocks(spec, path));
    }

    std::vector<Word> error_words(const ParserSpec& spec, const std::vector<const CmdSpec*>& path, const std::string& message)
    {
        auto out = to_words(error_blocks(spec, path, message));
        // The message needn't be on a line of its own.
        for (size_t i = 0, n = split_words(full_name(path) + ": " + message).size(); i < n && i < out.size(); ++i)
            out[i].indent = Word::FREE;
        if (!out.empty()) out[0].indent = 0;
        return out;
    }

    std::string compare_words(const std::vector<Word>& expected, const std::string& text, Counters* counters)
    {
        size_t pos = 0, n = 0;
        const auto count = [&](const char* name) { if (counters) ++(*counters)[name]; };
        while (pos < text.size())
        {
            auto end = text.find('\n', pos);
            if (end == text.npos)
                return "the last line isn't terminated";
            const auto line = text.substr(pos, end - pos);
            pos = end + 1;
            const auto words = split_words(line);
            const auto indent = int(line.find_first_not_of(' '));
            for (size_t i = 0; i < words.size(); ++i, ++n)
            {
                if (n == expected.size())
                    return "unexpected text after the end: " + quote(words[i]);
                auto& e = expected[n];
                auto t = e.text;
                if (e.glued && i > 0)
                    return cat("separated words: ", quote(line));
                while (t.size() < words[i].size() && n + 1 < expected.size() && expected[n + 1].glued)
                    t += expected[++n].text;
                if (t != words[i])
                    return cat("word ", n, ": expected ", quote(t), ", got ", quote(words[i]), " in line ", quote(line));
                if (i > 0 && (e.indent >= 0 || e.indent == Word::START))
                    return cat("word ", n, ", ", quote(e.text), ", should be the first on its line: ", quote(line));
                if (i == 0 && e.indent >= 0 && indent != e.indent)
                    return cat("the indentation should be ", e.indent, ": ", quote(line));
                if (i == 0 && e.indent == Word::INNER && indent <= 2)
                    return cat("the indentation should be more than 2: ", quote(line));
                count("words");
                if (i == 0 && e.indent == 2) count("help_entries");
                if (i == 0 && e.indent == 0) count("help_headings");
            }
        }
        if (n != expected.size())
            return cat("missing text: ", quote(expected[n].text), " etc.");
        return {};
    }
}
