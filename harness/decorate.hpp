// Help texts, sections, visibilities and varied ways to define the same
// parser, and what the help texts must contain.
#pragma once
#include "spec.hpp"

namespace vf
{
    struct Decoration
    {
        double help = 0.7, hidden = 0.2, section = 0.3, text = 0.25;
        bool long_texts = true;
        bool odd_layout = true; // lists, tabs, multiple lines and spaces
    };

    std::string gen_help_text(Rng& rng, const Decoration& d);

    // Adds texts etc. to the spec.
    void decorate(Rng& rng, ParserSpec& spec, const Decoration& d);

    // Defines the parser through one of the many equivalent sequences of
    // calls. A null rng gives the plain one.
    argos::ArgumentParser build_parser(Rng* rng, const ParserSpec& spec, const std::shared_ptr<Recorder>& rec,
                                       std::ostream* stream);
    argos::Command build_command(Rng* rng, const CmdSpec& spec, const std::shared_ptr<Recorder>& rec);
    argos::Option build_option(Rng* rng, const OptSpec& spec, const std::shared_ptr<Recorder>& rec);
    argos::Argument build_argument(Rng* rng, const ArgSpec& spec, const std::shared_ptr<Recorder>& rec);

    // A random path to a command, the first one is the root.
    std::vector<const CmdSpec*> gen_path(Rng& rng, const CmdSpec& root);

    std::string full_name(const std::vector<const CmdSpec*>& path);

    struct Word
    {
        enum : int { FREE = -1, INNER = -2, START = -3 };
        std::string text;
        // The indentation, if the word must be the first on its line. FREE:
        // no requirement, INNER: if it is the first on its line, the
        // indentation must be greater than two, START: first on its line.
        int indent = FREE;
        // Not separated from the previous word, except by a line break.
        bool glued = false;
    };

    std::vector<Word> help_words(const ParserSpec& spec, const std::vector<const CmdSpec*>& path);
    std::vector<Word> error_words(const ParserSpec& spec, const std::vector<const CmdSpec*>& path,
                                  const std::string& message);

    // Empty if the text has these words, otherwise the difference.
    std::string compare_words(const std::vector<Word>& expected, const std::string& text, Counters* counters = nullptr);

    // Arguments that make the parser display the help of the command, empty
    // if it can't.
    std::vector<std::string> help_args(const ParserSpec& spec, const std::vector<const CmdSpec*>& path);

    // What the text functions add to their texts at the moment
    extern std::string text_change;

    // The parts of a help or error text, in order.
    struct Block
    {
        enum Kind { TEXT, TITLE, LABEL, HELP, USAGE } kind;
        // USAGE: the name of the command
        std::string text;
        // USAGE only: what follows the name, separated by spaces
        std::vector<std::string> units;
        // USAGE only: the commands, only separated by line breaks
        std::vector<std::string> commands;
    };

    std::vector<Block> help_blocks(const ParserSpec& spec, const std::vector<const CmdSpec*>& path);
    std::vector<Block> error_blocks(const ParserSpec& spec, const std::vector<const CmdSpec*>& path,
                                    const std::string& message);
}
