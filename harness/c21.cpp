// C21: Help and error texts are laid out within the line width without
// losing text.
#include "cmdline.hpp"
#include "decorate.hpp"
#include "terminal.hpp"
#include <algorithm>
#include <memory>

using namespace vf;
using namespace argos;

namespace
{
    // ---- Texts ---------------------------------------------------------------

    bool valid_utf8(std::string_view s)
    {
        for (size_t i = 0; i < s.size();)
        {
            const auto c = uint8_t(s[i]);
            const size_t n = c < 0x80 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c & 0xF8) == 0xF0 ? 4 : 0;
            if (n == 0 || i + n > s.size()) return false;
            for (size_t j = 1; j < n; ++j)
                if ((uint8_t(s[i + j]) & 0xC0) != 0x80) return false;
            i += n;
        }
        return true;
    }

    // The bytes of texts that aren't UTF-8 count as characters
    size_t width(std::string_view s)
    {
        if (!valid_utf8(s)) return s.size();
        size_t n = 0;
        for (char c : s) n += (uint8_t(c) & 0xC0) != 0x80;
        return n;
    }

    bool is_letter_or_digit(char c)
    {
        return ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9');
    }

    bool has_continuation(std::string_view s)
    {
        return std::any_of(s.begin(), s.end(), [](char c) { return (uint8_t(c) & 0xC0) == 0x80; });
    }

    bool is_marker(std::string_view s)
    {
        if (s == "-" || s == "*") return true;
        if (s.size() < 2 || s.back() != '.') return false;
        for (char c : s.substr(0, s.size() - 1))
            if (c < '0' || c > '9') return false;
        return true;
    }

    // ---- Splitting rules -------------------------------------------------------

    struct SplitRules
    {
        // word in lower case -> where it can be split, and whether a
        // hyphen is added
        std::map<std::string, std::map<size_t, bool>> rules;

        void add(const std::string& rule)
        {
            std::string word;
            std::map<size_t, bool> splits;
            for (char c : rule)
            {
                if (c == ' ') splits[word.size()] = word.back() != '-';
                else word += c;
            }
            rules.emplace(lower_case(word), splits);
        }

        const std::map<size_t, bool>* find(std::string_view word) const
        {
            const auto end = word.find_last_not_of(".,;:!?()[]{}<>\"'`");
            auto it = rules.find(lower_case(std::string(word.substr(0, end + 1))));
            return it == rules.end() ? nullptr : &it->second;
        }
    };

    // ---- What the output consists of -------------------------------------------

    constexpr int ANY = -1;

    struct Token
    {
        std::string text;
        // Spaces before it on the same line. ANY: at least one.
        int gap = 0;
        // Preceded by a tab
        bool tab = false;
        int max_gap = 4;
        size_t par = 0;
        // Words in the same unit are kept together, if possible.
        int unit = -1;
        bool unit_start = false;
    };

    struct Paragraph
    {
        enum { EXACT, HELP, LABEL, USAGE } kind = EXACT;
        // Relative to the help text column for HELP, otherwise absolute
        int indent = 0;       // of the first line
        int continuation = 0; // of the rest
        // The first of a help text can follow the label.
        bool may_follow = false;
        // The number of empty lines above it, if it matters.
        int blank_lines = ANY;
    };

    struct Document
    {
        std::vector<Token> tokens;
        std::vector<Paragraph> pars;
        int units = 0;

        void text(const std::string& s, decltype(Paragraph::EXACT) kind, int base, bool aligned, int line_width)
        {
            // Lines
            std::vector<std::string> lines(1);
            for (size_t i = 0; i < s.size(); ++i)
            {
                if (s[i] == '\r')
                {
                    if (i + 1 < s.size() && s[i + 1] == '\n') ++i;
                    lines.emplace_back();
                }
                else if (s[i] == '\n') lines.emplace_back();
                else lines.back() += s[i];
            }
            int blanks = ANY;
            for (size_t l = 0; l < lines.size(); ++l)
            {
                auto& line = lines[l];
                std::vector<Token> toks;
                std::string gap;
                for (size_t i = 0; i < line.size();)
                {
                    const auto space = line[i] == ' ' || line[i] == '\t';
                    auto end = space ? line.find_first_not_of(" \t", i) : line.find_first_of(" \t", i);
                    if (end == line.npos) end = line.size();
                    auto part = line.substr(i, end - i);
                    i = end;
                    if (space) gap = part;
                    else
                    {
                        Token t;
                        t.text = part;
                        t.gap = gap.find('\t') == gap.npos ? int(gap.size()) : ANY;
                        t.tab = !gap.empty() && gap.back() == '\t';
                        t.max_gap = 4 * int(std::ranges::count(gap, '\t')) + int(gap.size());
                        t.par = pars.size();
                        toks.push_back(t);
                        gap.clear();
                    }
                }
                if (toks.empty())
                {
                    if (blanks != ANY) ++blanks;
                    continue;
                }
                Paragraph p;
                p.kind = kind;
                p.indent = toks[0].gap == ANY ? ANY : base + toks[0].gap;
                // Text can't be indented by more than the line's width.
                if (kind == Paragraph::EXACT && p.indent >= line_width) p.indent = ANY;
                p.continuation = !aligned ? base : p.indent;
                if (aligned && is_marker(toks[0].text) && toks.size() > 1)
                {
                    p.continuation = toks[1].gap == ANY || p.indent == ANY ? ANY
                        : p.indent + int(toks[0].text.size()) + toks[1].gap;
                    if (kind == Paragraph::EXACT && p.continuation >= line_width) p.continuation = ANY;
                }
                p.may_follow = kind == Paragraph::HELP && l == 0;
                p.blank_lines = blanks;
                blanks = 0;
                pars.push_back(p);
                tokens.insert(tokens.end(), toks.begin(), toks.end());
            }
        }

        void usage(const Block& b, int line_width)
        {
            Paragraph p;
            p.kind = Paragraph::USAGE;
            p.indent = 2;
            const int name_end = 2 + int(width(b.text));
            p.continuation = name_end + 1 < line_width ? name_end + 1 : ANY;
            Token t;
            t.par = pars.size();
            std::istringstream ss(b.text);
            for (t.gap = 0; ss >> t.text; t.gap = 1)
                tokens.push_back(t);
            for (auto& u : b.units)
            {
                std::istringstream us(u);
                t.unit = units++;
                t.unit_start = true;
                while (us >> t.text)
                {
                    tokens.push_back(t);
                    t.unit_start = false;
                }
            }
            t.unit = -1;
            t.unit_start = false;
            for (auto& c : b.commands)
            {
                t.text = c;
                tokens.push_back(t);
                t.gap = 0;
            }
            pars.push_back(p);
        }
    };

    Document make_document(const std::vector<Block>& blocks, int line_width)
    {
        Document d;
        for (auto& b : blocks)
        {
            switch (b.kind)
            {
            case Block::TEXT:
            case Block::TITLE: d.text(b.text, Paragraph::EXACT, 0, true, line_width); break;
            case Block::LABEL: d.text(b.text, Paragraph::LABEL, 2, false, line_width); break;
            case Block::HELP: d.text(b.text, Paragraph::HELP, 0, true, line_width); break;
            case Block::USAGE: d.usage(b, line_width); break;
            }
        }
        return d;
    }

    // ---- The monitor -------------------------------------------------------------

    struct Piece
    {
        int col;
        int gap;
        std::string text;
    };

    struct Line
    {
        std::string text;
        std::vector<Piece> pieces;
        int end = 0;
    };

    class LayoutMonitor
    {
    public:
        LayoutMonitor(const Document& d, const SplitRules& r, int line_width, std::string_view text)
            : m_doc(d), m_rules(r), m_width(line_width)
        {
            size_t pos = 0;
            while (pos < text.size())
            {
                auto end = text.find('\n', pos);
                if (end == text.npos) { m_error = "the last line isn't terminated"; return; }
                Line l;
                l.text = text.substr(pos, end - pos);
                pos = end + 1;
                int col = 0;
                int gap = 0;
                for (size_t i = 0; i < l.text.size();)
                {
                    auto e = l.text[i] == ' ' ? l.text.find_first_not_of(' ', i) : l.text.find(' ', i);
                    if (e == l.text.npos) e = l.text.size();
                    const auto part = l.text.substr(i, e - i);
                    if (part[0] == ' ') gap = int(part.size());
                    else
                    {
                        l.pieces.push_back({col, gap, part});
                        gap = 0;
                    }
                    col += int(width(part));
                    i = e;
                }
                l.end = col;
                m_lines.push_back(l);
            }
            m_starts.resize(m_lines.size() + 1);
        }

        // Empty if all is well
        std::string run(Counters& counters)
        {
            if (!m_error.empty()) return m_error;
            for (auto& l : m_lines)
            {
                if (l.text.find_first_of("\t\r") != l.text.npos) return "control character in " + quote(l.text);
                if (!l.text.empty() && l.text.back() == ' ') return "trailing space: " + quote(l.text);
                for (auto& p : l.pieces)
                {
                    // (texts that aren't UTF-8 have no such bytes)
                    if (!valid_utf8(p.text) && has_continuation(p.text)) return "a character is split: " + quote(l.text);
                    if (!valid_utf8(p.text)) ++counters["other_encodings"];
                }
                if (l.end > m_width && !((l.pieces.size() == 1 || ends_unit(l)) && m_width - l.pieces[0].col <= 2))
                    return cat("a line has ", l.end, " characters: ", quote(l.text));
                if (l.end > m_width && l.pieces[0].col >= m_width)
                    return "text outside of the line: " + quote(l.text);
                if (l.end > m_width) ++counters["too_narrow_lines"];
                if (l.end == m_width) ++counters["full_lines"];
            }
            if (!match(0, 0, 0, 0, 0))
                return m_error.empty() ? "no match" : m_error;
            counters["lines"] += m_lines.size();
            for (auto& [k, n] : m_counts) counters[k] += n;
            return {};
        }

    private:
        const Document& m_doc;
        const SplitRules& m_rules;
        int m_width;
        std::vector<Line> m_lines;
        // The token (and its part) that each line starts with
        std::vector<std::pair<size_t, size_t>> m_starts;
        std::string m_error;
        size_t m_error_pos = 0;
        int m_column = ANY; // of help texts
        Counters m_counts;
        int m_steps = 0;

        bool bad(size_t line, size_t piece, const std::string& msg)
        {
            if (m_error.empty() || line * 1000 + piece > m_error_pos)
            {
                m_error_pos = line * 1000 + piece;
                m_error = cat(msg, " in line ", line + 1, ": ", line < m_lines.size() ? quote(m_lines[line].text) : "(end)");
            }
            return false;
        }

        // The line's text is (the end of) a single unit, which has spaces
        bool ends_unit(const Line& line) const
        {
            const auto text = line.text.substr(line.text.find_first_not_of(' '));
            std::string unit;
            for (size_t t = 0; t < m_doc.tokens.size(); ++t)
            {
                auto& tok = m_doc.tokens[t];
                if (tok.unit < 0) continue;
                if (t > 0 && m_doc.tokens[t - 1].unit == tok.unit) unit += " " + tok.text;
                else unit = tok.text;
                if ((t + 1 == m_doc.tokens.size() || m_doc.tokens[t + 1].unit != tok.unit) && unit.ends_with(text)) return true;
            }
            return false;
        }

        // The width from the given place to the end of the unit or word
        int unit_width(size_t t, size_t o) const
        {
            auto w = width(std::string_view(m_doc.tokens[t].text).substr(o));
            const auto u = m_doc.tokens[t].unit;
            if (u < 0) return int(w);
            for (++t; t < m_doc.tokens.size() && m_doc.tokens[t].unit == u; ++t)
                w += 1 + width(m_doc.tokens[t].text);
            return int(w);
        }

        // Whether the word or unit at the start of the line was too
        // long for a line.
        bool too_long(size_t line, size_t t) const
        {
            const auto [st, so] = m_starts[line];
            auto& a = m_doc.tokens[st];
            auto& b = m_doc.tokens[t];
            if (st != t && (a.unit < 0 || a.unit != b.unit)) return false;
            return unit_width(st, so) > m_width - m_lines[line].pieces[0].col;
        }

        // The last place where the rules split what remains of a word within
        // the given width, 0 if there's none.
        size_t best_split(std::string_view word, size_t start, int max_width) const
        {
            const auto* splits = m_rules.find(word);
            size_t best = 0;
            if (splits)
                for (auto [pos, hyphen] : *splits)
                    if (pos > start + 1 && int(width(word.substr(start, pos - start))) + hyphen <= max_width) best = pos;
            return best;
        }

        bool match(size_t l, size_t pj, size_t k, size_t t, size_t o)
        {
            if (++m_steps > 2000000) throw HarnessError("layout monitor");
            if (l == m_lines.size())
            {
                if (t == m_doc.tokens.size() && o == 0) return true;
                return bad(l, pj, "missing text: " + quote(m_doc.tokens[t].text.substr(o)) + " etc.");
            }
            auto& line = m_lines[l];
            if (line.pieces.empty())
            {
                if (o > 0 || (t < m_doc.tokens.size() && t > 0 && m_doc.tokens[t].par == m_doc.tokens[t - 1].par))
                    return bad(l, pj, "unexpected empty line");
                return match(l + 1, 0, 0, t, o);
            }
            if (pj == line.pieces.size())
                return match(l + 1, 0, 0, t, o);
            auto& piece = line.pieces[pj];
            if (t == m_doc.tokens.size())
                return bad(l, pj, "unexpected text: " + quote(piece.text));
            auto& tok = m_doc.tokens[t];
            auto& par = m_doc.pars[tok.par];
            const bool par_start = o == 0 && (t == 0 || m_doc.tokens[t - 1].par != tok.par);
            const bool fresh = pj == 0 && k == 0;
            if (fresh) m_starts[l] = {t, o};

            const auto old_column = m_column;
            // Position
            if (par_start)
            {
                if (!fresh && !(par.may_follow && k == 0))
                    return bad(l, pj, cat(quote(tok.text), " should start a line"));
                if (par.kind == Paragraph::HELP)
                {
                    if (par.indent != ANY)
                    {
                        if (m_column == ANY)
                        {
                            if (piece.col - par.indent <= 2) return bad(l, pj, "the help text isn't indented");
                            m_column = piece.col - par.indent;
                        }
                        if (piece.col - par.indent != m_column)
                            return bad(l, pj, cat(quote(tok.text), " isn't in column ", m_column + par.indent));
                        ++m_counts["aligned_help_texts"];
                    }
                }
                else if (par.indent != ANY && piece.col != par.indent)
                    return bad(l, pj, cat(quote(tok.text), " isn't in column ", par.indent));
                if (par.blank_lines != ANY)
                {
                    int n = 0;
                    for (size_t i = l; i > 0 && m_lines[i - 1].pieces.empty(); --i) ++n;
                    if (n != par.blank_lines)
                    {
                        m_column = old_column;
                        return bad(l, pj, cat("there should be ", par.blank_lines, " empty lines before ", quote(tok.text)));
                    }
                }
                // (tabs are dropped if the word can't follow them)
                if (tok.tab && piece.col % 4 != 0 && !(fresh && piece.col + 16 + unit_width(t, 0) > m_width))
                {
                    m_column = old_column;
                    return bad(l, pj, cat("there's a tab before ", quote(tok.text), ", but it's in column ", piece.col));
                }
                if (par.kind == Paragraph::EXACT && piece.col > 30) ++m_counts["much_indented"];
                ++m_counts["paragraphs"];
            }
            else if (fresh)
            {
                // A continuation line
                if (m_lines[l - 1].pieces.empty())
                    return bad(l, pj, "unexpected empty line above");
                bool ok = true;
                const bool inside = tok.unit >= 0 && !(o == 0 && tok.unit_start);
                if (par.continuation == ANY || (par.may_follow && (par.indent != 0 || par.continuation != 0)))
                    ok = true;
                else if (par.kind == Paragraph::HELP)
                    ok = m_column == ANY || piece.col == m_column + par.continuation;
                else if (par.kind == Paragraph::LABEL)
                    ok = piece.col >= par.continuation;
                else
                    ok = piece.col == par.continuation || (inside && piece.col == par.continuation + 1);
                if (!ok)
                    return bad(l, pj, cat("the continuation line should start in column ", par.continuation));
                if (o == 0)
                {
                    // Why wasn't it on the previous line?
                    auto& above = m_lines[l - 1];
                    if (inside)
                    {
                        if (!too_long(l - 1, t))
                            return bad(l, pj, cat("line break before ", quote(tok.text)));
                        ++m_counts["broken_units"];
                    }
                    else
                    {
                        const auto gap = tok.gap == ANY ? tok.max_gap : tok.gap;
                        if (above.end + gap + unit_width(t, 0) <= m_width)
                            return bad(l, pj, cat("unnecessary line break before ", quote(tok.text)));
                        if (tok.unit < 0 && tok.gap != ANY && par.kind != Paragraph::USAGE
                            && best_split(tok.text, 0, m_width - above.end - gap) > 0)
                            return bad(l, pj, cat("the splitting rule of ", quote(tok.text), " isn't used"));
                        ++m_counts["line_breaks"];
                        if (par.continuation > 0 && par.kind == Paragraph::EXACT) ++m_counts["aligned_lines"];
                    }
                }
            }
            else if (o == 0)
            {
                if (tok.tab)
                {
                    if (piece.col % 4 != 0)
                        return bad(l, pj, cat("there's a tab before ", quote(tok.text), ", but it's in column ", piece.col));
                    ++m_counts["tabs"];
                }
                // (a unit that's too long for a line may be broken at a space)
                const bool broken = k > 0 && tok.unit >= 0 && !tok.unit_start && pj + 1 == line.pieces.size()
                                    && piece.text.substr(k) == "-";
                if (!broken && k > 0 ? tok.gap != 0 : !broken && tok.gap != ANY && piece.gap != tok.gap)
                    return bad(l, pj, cat("there should be ", tok.gap, " spaces before ", quote(tok.text)));
            }

            const auto rest = std::string_view(tok.text).substr(o);
            const auto avail = std::string_view(piece.text).substr(k);
            // The whole word
            if (avail.substr(0, rest.size()) == rest)
            {
                const bool end = avail.size() == rest.size();
                if (end ? match(l, pj + 1, 0, t + 1, 0) : match(l, pj, k + rest.size(), t + 1, 0))
                {
                    ++m_counts["words"];
                    return true;
                }
            }
            else if (rest.substr(0, avail.size()) != avail
                     && !(avail.back() == '-' && rest.substr(0, avail.size() - 1) == avail.substr(0, avail.size() - 1)))
                bad(l, pj, cat("expected ", quote(rest), ", got ", quote(avail)));
            // A part of it
            if (pj + 1 == line.pieces.size())
            {
                for (int hyphen = 0; hyphen < 2; ++hyphen)
                {
                    if (hyphen && avail.back() != '-') break;
                    const auto part = avail.substr(0, avail.size() - size_t(hyphen));
                    if (part.size() >= rest.size() || rest.substr(0, part.size()) != part) continue;
                    if (part.empty() && tok.unit < 0) continue;
                    const char* kind = nullptr;
                    if (const auto* splits = tok.unit < 0 ? m_rules.find(tok.text) : nullptr)
                    {
                        auto it = splits->find(o + part.size());
                        if (it != splits->end() && it->second == bool(hyphen)) kind = "rule_splits";
                    }
                    if (kind)
                    {
                        const auto used = int(width(part)) + hyphen;
                        const auto best = best_split(tok.text, o, m_width - line.end + used);
                        if (best > o + part.size())
                        {
                            bad(l, pj, cat("more of ", quote(tok.text), " could have been on the line"));
                            continue;
                        }
                    }
                    const auto start = m_starts[l];
                    if (!kind && (start.first == t || (tok.unit >= 0 && m_doc.tokens[start.first].unit == tok.unit)) && too_long(l, t))
                    {
                        kind = "forced_splits";
                        if (!hyphen && !part.empty() && is_letter_or_digit(part.back()) && is_letter_or_digit(rest[part.size()]))
                        {
                            bad(l, pj, cat("there's no hyphen where ", quote(tok.text), " is split"));
                            continue;
                        }
                    }
                    if (!kind)
                    {
                        bad(l, pj, cat("unnecessarily split word ", quote(tok.text)));
                        continue;
                    }
                    if (match(l + 1, 0, 0, t, o + part.size()))
                    {
                        ++m_counts[kind];
                        return true;
                    }
                }
            }
            m_column = old_column;
            return false;
        }
    };

    // ---- Generators ----------------------------------------------------------------

    const std::vector<std::string> RULES = {
        "char ac ter is ti cally", "compre hen sive", "well- known", "Br\xc3\xb8nn \xc3\xb8y sunds registeret", "multi- task ing",
        "ab surd", "in compre hensi bili ties", "a bout", "un- be- liev able", "\xe6\x97\xa5\xe6\x9c\xac \xe8\xaa\x9e\xe6\x97\xa5"};

    std::string without_spaces(std::string s)
    {
        std::erase(s, ' ');
        return s;
    }

    const std::string& random_char(Rng& rng)
    {
        static const std::vector<std::string> CHARS = {
            "a", "b", "c", "x", "y", "Z", "0", "1", "7", "-", "/", ".", "_", ":", "=", "\xc3\xa6", "\xe6\x97\xa5", "\xf0\x9f\x98\x80"};
        static const std::vector<std::string> LETTERS = {"a", "b", "c", "d", "e"};
        return rng.chance(0.5) ? rng.pick(CHARS) : rng.pick(LETTERS);
    }

    std::string gen_word(Rng& rng, double long_words)
    {
        if (rng.chance(0.12))
        {
            auto w = without_spaces(rng.pick(RULES));
            if (rng.chance(0.2)) for (auto& c : w) if (c >= 'a' && c <= 'z') c = char(c - 32);
            if (rng.chance(0.3)) w += rng.pick({".", ",", ").", "!?", "..."});
            return w;
        }
        if (rng.chance(0.02)) return rng.pick({"-", "*", "1.", "--", "12.", ".", "-\xc3\xa5."});
        size_t n = rng.below(9) + 1;
        if (rng.chance(long_words)) n = size_t(rng.range(10, rng.chance(0.3) ? 200 : 50));
        std::string s;
        const int alphabet = rng.chance(0.03) ? 4 : rng.range(0, 3);
        while (n-- > 0)
        {
            if (alphabet == 0) s += random_char(rng);
            else if (alphabet == 1) s += char('a' + rng.below(26));
            else if (alphabet == 2) s += rng.pick({"\xc3\xa6", "\xe6\x97\xa5", "e"});
            // (Latin-1)
            else if (alphabet == 4) s += std::string(1, rng.pick({'\xe6', '\xf8', '\xe5', '\xc6', '\xff'})) + rng.pick({'r', 'd', 'n', '5'});
            else s += "abcdefgh-/"[rng.below(rng.chance(0.7) ? 8 : 10)];
        }
        return s;
    }

    std::string gen_text(Rng& rng, double long_words, int line_width = 0)
    {
        if (rng.chance(0.04)) return rng.pick({"", "-", "\n", "x", "*\n", " ", "1.\nThe other line has more words than the first one, and it is long."});
        std::string s;
        const int lines = rng.chance(0.3) ? rng.range(2, 5) : 1;
        for (int l = 0; l < lines; ++l)
        {
            if (l) s += rng.pick({"\n", "\n", "\n", "\n\n", "\r\n", "\n\n\n", "\r", "\n    \n", "\n\t\n", "\n  \n\n", " \n"});
            if (rng.chance(0.3)) s += rng.pick({"- ", "* ", "1. ", "12. ", "  ", "    ", "  - ", "    * ", "-  ", "\t", "\t- ", "\t  ", " \t", "\t \t* ", "-\t", "- \t"});
            if (line_width && rng.chance(0.03))
                s += std::string(size_t(line_width + rng.range(-8, 3)), ' ') + rng.pick({"", "", "- ", "1. ", "-  "});
            const int n = rng.chance(0.5) ? rng.range(1, 6) : rng.range(5, 40);
            const bool tabs = rng.chance(0.05);
            for (int i = 0; i < n; ++i)
            {
                if (i) s += rng.chance(0.03) ? rng.pick({"  ", "     "}) : tabs && rng.chance(0.1) ? "\t" : " ";
                s += gen_word(rng, long_words);
            }
        }
        if (rng.chance(0.05)) s += rng.pick({"\n", " ", "\n\n", "\t"});
        return s;
    }

    void change_texts(Rng& rng, CmdSpec& c, double long_words, int line_width)
    {
        const auto change = [&](std::string& s)
        {
            if (!s.empty()) s = gen_text(rng, long_words);
        };
        for (auto& o : c.opts)
        {
            change(o.help);
            if (!o.argument.empty() && rng.chance(0.2))
                o.argument = "ARG" + std::string(size_t(rng.range(1, 60)), rng.pick({'A', '_', '7'}));
        }
        int n = 0;
        for (auto& a : c.args)
        {
            change(a.help);
            if (rng.chance(0.2))
            {
                a.name = cat("n", n++);
                for (int i = rng.range(1, 60); i > 0; --i) a.name += random_char(rng);
            }
        }
        for (auto& [id, text] : c.texts)
            if (!text.empty()) text = gen_text(rng, long_words, id == TextId::HELP ? 0 : line_width);
        for (auto& s : c.cmds) change_texts(rng, s, long_words, line_width);
    }

    void check(Ctx& ctx, const char* key, const std::vector<Block>& blocks, const SplitRules& rules, unsigned line_width,
               const std::string& text)
    {
        ctx.count("monitor_checks");
        const auto doc = make_document(blocks, int(line_width));
        const auto diff = LayoutMonitor(doc, rules, int(line_width), text).run(*ctx.counters);
        if (!diff.empty())
            ctx.fail(key, diff + "\n" + text);
    }

    void run(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        Profile p;
        p.commands = 0.4;
        p.alias = p.arg_alias = 0;
        p.mandatory = 0.1;
        auto spec = gen_spec(rng, p);
        Decoration d;
        d.hidden = 0.05;
        d.section = rng.pick({0.0, 0.3});
        d.text = rng.pick({0.0, 0.4});
        decorate(rng, spec, d);
        spec.line_width = unsigned(rng.chance(0.7) ? rng.range(40, 80) : rng.range(40, 200));
        change_texts(rng, spec.root, rng.pick({0.0, 0.02, 0.15}), int(spec.line_width));
        SplitRules rules;
        for (auto& r : RULES)
        {
            if (!rng.chance(0.5)) continue;
            auto rule = r;
            if (rng.chance(0.1))
                for (auto& c : rule)
                    if (c >= 'a' && c <= 'z') c = char(c - 32);
            spec.split_rules.push_back(rule);
            rules.add(rule);
        }
        const auto path = gen_path(rng, spec.root);
        // There must be room for some characters after the names of nested
        // commands, if they're on the line at all.
        if (const int room = int(spec.line_width) - int(full_name(path).size()) - 3; room > 0 && room <= 12)
            spec.line_width += 13;
        const auto message = std::string(rng.pick({"Error:", "bad", "x", "-"})) + " " + gen_text(rng, 0.05, int(spec.line_width));
        ctx.describe(describe(spec) + "help of " + full_name(path) + "\nmessage " + quote(message));
        ctx.add_sig(ctx.desc);

        vf::TextStream ss;
        auto rec = std::make_shared<Recorder>();
        // The line width is that of the terminal if it isn't set, otherwise
        // the terminal doesn't matter.
        std::unique_ptr<Terminal> terminal;
        auto line_width = spec.line_width;
        if (rng.chance(0.25))
        {
            const bool unset = rng.chance(0.7);
            unsigned columns = unset ? line_width : unsigned(rng.range(0, 200));
            if (unset && rng.chance(0.1))
            {
                columns = 0; // Unknown
                line_width = 80;
            }
            terminal = std::make_unique<Terminal>(columns);
            if (terminal->ok() && unset)
            {
                spec.line_width = 0;
                ctx.describe(ctx.desc + cat("\nterminal width ", columns));
                ctx.count("terminal_widths");
            }
            else if (terminal->ok())
                ctx.count("ignored_terminal_widths");
        }
        auto parser = build_parser(&rng, spec, rec, &ss);
        std::vector<std::string> names;
        for (size_t i = 1; i < path.size(); ++i) names.push_back(path[i]->name);
        parser.write_subcommand_help_text(names);
        check(ctx, "help-layout", help_blocks(spec, path), rules, line_width, ss.str());
        ctx.nontrivial = true;
        ctx.count("help_texts");

        // Error messages of the root command
        auto args = gen_args(rng, spec, p);
        ss.str({});
        if (const auto ex = exception_of([&]
            {
                const auto res = parser.parse(views(args));
                ss.str({});
                res.error(message);
            }); ex != "argos::ArgosException")
            ctx.fail("error-did-not-throw", ex);
        check(ctx, "error-layout", error_blocks(spec, {&spec.root}, message), rules, line_width, ss.str());
        ctx.count("error_texts");
    }
}

namespace vf
{
    const Property property = {
        "C21",
        "a parser with long and short texts, lists and indented texts, long names, and word splitting rules, and a line width between 40 and 200; "
        "every case is non-trivial",
        run,
        {"help_texts", "error_texts", "lines", "full_lines", "words", "paragraphs", "line_breaks", "aligned_lines", "aligned_help_texts",
         "forced_splits", "rule_splits", "other_encodings", "tabs", "much_indented"},
    };
}
