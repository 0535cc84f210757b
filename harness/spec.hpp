// Descriptions of parsers, the reference model and the observation of the
// real parser. Nothing here uses Argos' internals.
#pragma once
#include <memory>
#include <optional>
#include <Argos/Argos.hpp>
#include "vf.hpp"

namespace vf
{
    using argos::OptionOperation;
    using argos::OptionStyle;
    using argos::OptionType;
    using argos::ParserResultCode;
    using argos::TextId;
    using argos::Visibility;

    constexpr int VERSION_ID = -1;
    constexpr int HELP_ID = -2;

    // What a callback does.
    struct Action
    {
        enum Kind { APPEND, ASSIGN, CLEAR, INSERT } kind = APPEND;
        std::string name;  // name of a value, empty: use the view
        std::string value;
        std::vector<std::string> tokens; // for INSERT
        unsigned at = 0; // the call that does it, 0: every call
    };

    struct ArgSpec
    {
        int id = 0;
        std::string name;
        std::string alias;
        unsigned min = 1, max = 1;
        bool callback = false;
        std::vector<Action> actions;
        std::string help, section;
        Visibility visibility = Visibility::NORMAL;
    };

    struct OptSpec
    {
        int id = 0;
        std::vector<std::string> flags;
        std::string argument, constant, initial, alias;
        OptionOperation op = OptionOperation::ASSIGN;
        OptionType type = OptionType::NORMAL;
        bool mandatory = false;
        bool callback = false;
        std::vector<Action> actions;
        std::string help, section;
        Visibility visibility = Visibility::NORMAL;
    };

    struct CmdSpec
    {
        int id = 0;
        std::string name;
        std::vector<OptSpec> opts;
        std::vector<ArgSpec> args;
        std::vector<CmdSpec> cmds;
        std::optional<bool> require;
        bool multi = false;
        std::map<TextId, std::string> texts;
        std::string section;
        // The current section in the end, where generated options go.
        std::string generated_section;
        Visibility visibility = Visibility::NORMAL;
    };

    struct ParserSpec
    {
        CmdSpec root;
        OptionStyle style = OptionStyle::STANDARD;
        bool abbrev = false, ci = false;
        bool ignore_opts = false, ignore_args = false;
        bool gen_help = true;
        std::string version;
        unsigned line_width = 0;
        std::vector<std::string> split_rules;
        bool global_arg_cb = false, global_opt_cb = false;
        // What the parser's own callbacks do, the n'th time they're called
        std::vector<Action> arg_cb_actions, opt_cb_actions;
        unsigned arg_cb_at = 0, opt_cb_at = 0;
        // Let the name come from argv
        bool unnamed = false;
    };

    std::string describe(const ParserSpec& spec);
    std::string describe(const ParserSpec& spec, const std::vector<std::string>& args);

    // ---- Observations -------------------------------------------------

    struct Value
    {
        std::string text;
        int source = 0; // id of the option or argument it came from, 0: none
        bool operator==(const Value&) const = default;
    };

    struct Event
    {
        // A: argument, O: option, C: command, U: unknown, D: done, E: error
        char kind = 0;
        int id = 0;
        std::string value;
        // Current command and its values after the event.
        std::string state;
        bool operator==(const Event&) const = default;
    };

    struct CallbackEvent
    {
        // a: argument's own, o: option's own, A: parser's argument callback,
        // O: parser's option callback
        char kind = 0;
        int id = 0;
        std::string value;
        // The values the builder gives for the view when the callback is
        // called. Empty for options without values (NONE).
        std::string seen;
        bool operator==(const CallbackEvent&) const = default;
    };

    struct Node
    {
        int cmd_id = 0;
        ParserResultCode code = ParserResultCode::NONE;
        // Value name -> values
        std::map<std::string, std::vector<Value>> values;
        std::vector<std::string> unprocessed;
        int stop_id = 0;
        std::vector<Node> subs;
    };

    struct Outcome
    {
        Node root;
        std::vector<Event> events;
        std::vector<CallbackEvent> callbacks;
        // For the model: what kind of error stopped the parser. For the real
        // thing: whatever was written to the stream.
        std::string error;
        // Model only: text the error message should mention, and the
        // full name of the command it is attributed to.
        std::string error_subject;
        std::string error_command;
        // Model only: number of tokens whose processing can't be predicted
        // from the documentation.
        bool unspecified = false;
        // Model only, statistics.
        Counters stats;
        std::string output;
    };

    std::string to_string(const Node& node, int indent = 0);
    std::string to_string(const std::vector<Event>& events);
    std::string to_string(const std::vector<CallbackEvent>& events);
    std::string state_of(const Node& node);

    // ---- Model ---------------------------------------------------------

    // The options of a command, including the generated ones.
    std::vector<OptSpec> effective_options(const ParserSpec& spec, const CmdSpec& cmd, bool is_root);

    const OptSpec* find_option(const std::vector<OptSpec>& opts, std::string_view flag,
                               bool abbrev, bool ci);

    // Names of each group of options and arguments that share values.
    // name -> canonical name
    std::map<std::string, std::string> value_groups(const CmdSpec& cmd, const std::vector<OptSpec>& opts);

    bool is_option_token(std::string_view tok, OptionStyle style);

    Outcome run_model(const ParserSpec& spec, const std::vector<std::string>& args);

    // ---- The real thing ------------------------------------------------

    // Thrown by callbacks when they've been told to.
    struct CallbackException
    {
        int number;
    };

    constexpr int NUM_EXCEPTION_KINDS = 8;
    // Throws an exception of the given kind
    [[noreturn]] void throw_kind(int kind, int number);
    // Describes the exception of the given kind, or the current one
    std::string exception_text(int kind, int number);
    std::string current_exception_text();

    struct Recorder
    {
        // The texts are made by functions, and differ from time to time
        bool live_texts = false;
        bool watch = false; // check the builder's stream and program name
        std::ostream* stream = nullptr;
        std::string program_name;
        // The number of the callback that throws or reports an error
        size_t fail_at = 0;
        std::string fail_message; // empty: throw an exception
        int fail_kind = 0;        // which kind, 0: CallbackException
        bool fail_with_view = false;
        std::vector<CallbackEvent> callbacks;
        // Called by all callbacks, if set
        std::function<void(const CallbackEvent&)> hook;
    };

    // What the functions of live texts add to them
    extern thread_local unsigned text_time;
    std::string text_at_this_time(const std::string& text);

    // Overrides the recorder in the current thread.
    extern thread_local Recorder* thread_recorder;

    argos::Option make_option(const OptSpec& spec, const std::shared_ptr<Recorder>& rec);
    argos::Argument make_argument(const ArgSpec& spec, const std::shared_ptr<Recorder>& rec);
    argos::Command make_command(const CmdSpec& spec, const std::shared_ptr<Recorder>& rec);
    argos::ArgumentParser make_parser(const ParserSpec& spec, const std::shared_ptr<Recorder>& rec,
                                      std::ostream* stream);

    int id_of(const argos::IArgumentView& view);
    Node observe(const argos::ParsedArguments& args, const ParserSpec& spec);
    // Values etc. of just this command
    Node observe_shallow(const argos::ParsedArguments& args, const CmdSpec& cmd,
                         const std::vector<OptSpec>& opts);
    const CmdSpec* find_command_by_id(const CmdSpec& root, int id);

    // One of the equivalent ways to parse or iterate: with a const parser or
    // not, and with strings or argv, which can give an unnamed parser its name.
    // Must live as long as its iterators.
    class Invocation
    {
    public:
        Invocation(const ParserSpec& spec, const std::vector<std::string>& args, uint64_t salt);

        const ParserSpec spec; // the parser must be made from this one
        argos::ParsedArguments parse(argos::ArgumentParser& parser);
        argos::ArgumentIterator iterate(argos::ArgumentParser& parser);
    private:
        static bool can_use_argv(const std::vector<std::string>& args);
        const std::vector<std::string>& m_args;
        uint64_t m_way;
        bool m_argv;
        std::vector<std::vector<char>> m_strings;
        std::vector<char*> m_pointers;
    };

    Outcome run_parse(const ParserSpec& spec, const std::vector<std::string>& args);
    Outcome run_iterator(const ParserSpec& spec, const std::vector<std::string>& args);

    std::vector<std::string_view> views(const std::vector<std::string>& v);

    // ---- Comparison ------------------------------------------------------

    struct CompareFlags
    {
        bool values = true;
        bool sources = true;
        bool unprocessed = true;
        bool codes = true;
        bool stop = true;
    };

    // Empty string if they are equal, otherwise the first difference.
    std::string compare(const Node& expected, const Node& actual, const CompareFlags& flags);

    // Compares result codes only if the parser failed.
    std::string compare_outcome(const Outcome& expected, const Outcome& actual,
                                const CompareFlags& flags = {});

    // ---- Generators --------------------------------------------------------

    struct Profile
    {
        double style_standard = 1, style_slash = 1, style_dash = 1;
        double abbrev = 0.2, ci = 0.2, ignore_opts = 0.15, ignore_args = 0.15;
        double gen_help = 0.6, version = 0.15;
        double large = 0.02; // many options, arguments and commands
        int min_opts = 0, max_opts = 5;
        int min_args = 0, max_args = 3;
        double commands = 0.0;       // chance that a command has subcommands
        int max_depth = 3;
        double multi = 0.4;
        double op_none = 0.06, op_append = 0.25, op_clear = 0.12;
        double has_argument = 0.5, has_constant = 0.3;
        double alias = 0.25, initial = 0.15, mandatory = 0.15;
        double special_type = 0.15;  // options with types other than NORMAL
        double arg_variable = 0.5;
        double arg_alias = 0.15;
        double callbacks = 0.0, actions = 0.0, insert = 0.0, parser_actions = 0.0;
        // The probability of hundreds of options in the top-level command
        double huge = 0.0;
        bool insert_anywhere = false; // by arguments, and with variable counts
        double equal_flag = 0.15;    // flags ending with '='
        // Command lines
        double mutate = 0.35;        // chance of errors etc.
        double satisfy = 0.9;        // chance that each mandatory item is given
        double count_ok = 0.85;      // chance that the number of arguments is fine
        int max_optional_uses = 5;
        double cluster = 0.5;
        double terminator = 0.15;    // chance of inserting an option with a special type
        double unknown = 0.1;        // unknown options and excess arguments
        bool hostile_values = true;
    };

    ParserSpec gen_spec(Rng& rng, const Profile& profile);
    std::vector<std::string> gen_args(Rng& rng, const ParserSpec& spec, const Profile& profile);
    std::string gen_value(Rng& rng, bool hostile);
    std::string gen_positional(Rng& rng, OptionStyle style, bool hostile);
}
