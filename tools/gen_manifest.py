#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

S = "src/Argos/"
ITER = S + "ArgumentIteratorImpl.cpp"
CMD = S + "CommandData.cpp"
STDIT = S + "StandardOptionIterator.cpp"
OPTIT = S + "OptionIterator.cpp"
COUNTER = S + "ArgumentCounter.cpp"
IMPL = S + "ParsedArgumentsImpl.cpp"
PARSER = S + "ArgumentParser.cpp"
HELP = S + "HelpText.cpp"
FMT = S + "TextFormatter.cpp"
WRITER = S + "TextWriter.cpp"
SPLIT = S + "WordSplitter.cpp"
STR = S + "StringUtilities.cpp"
VALUE = S + "ArgumentValue.cpp"
VALUES = S + "ArgumentValues.cpp"
PVAL = S + "ParseValue.cpp"
BUILDER = S + "ParsedArgumentsBuilder.cpp"
PARSED = S + "ParsedArguments.cpp"

MON = "runtime monitoring: the real library (built with address and undefined behaviour sanitizers) runs "
MODEL = MON + "generated workloads while an online oracle, a reference model written from the documentation, checks every observation"

P = []


def prop(n, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(dict(id="C%02d" % n, title=title, statement=statement, over=over, qtext=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, observe=list(observe)))


prop(1, "Memory safety, termination and only documented exceptions",
     "Whatever the definitions (valid or not), the help texts, the command line bytes, and the values callbacks insert, "
     "edit or report errors about, defining, parsing, iterating, writing help and reading results never access invalid or "
     "uninitialized memory, never have undefined behaviour, never leak memory, and always terminate. The only exception the library itself "
     "lets out is its own exception type.",
     ["inputs", "configurations", "histories"],
     "All definitions (half-legal ones included), option styles, command line bytes, callback behaviours and sequences of API calls.",
     "The tests use some hundred well-formed inputs and run without sanitizers; out-of-range accesses, dangling string views and "
     "endless loops appear only for particular bytes, widths and histories.",
     [ITER, OPTIT, STDIT, IMPL, STR, FMT, SPLIT, VALUE, CMD],
     [("removed values are kept alive", IMPL + " clear_value/keep_value"), ("argument list owned by the iterator", OPTIT),
      ("checks of moved-from objects", "src/Argos/Option.cpp, Argument.cpp, Command.cpp check()")],
     "runtime monitoring with sanitizers: ASan+UBSan, libstdc++ debug mode, valgrind memcheck and (thorough) libFuzzer, over generated definitions, "
     "command lines and API histories, with leak accounting and an exception type monitor",
     "Exploration of millions of generated cases, not a proof. Uninitialized reads only by memcheck's share of the cases.",
     ["sanitizer reports", "allocated bytes", "exception types", "CPU time per case"])

prop(2, "Standard style command lines are split into flags and values as documented",
     "With the standard option style, short flags without values can be clustered in one token, a short flag that takes a value gets the rest of its token or else the "
     "next token verbatim, a long flag gets the text after '=' (possibly empty) or else the next token verbatim, and a token that doesn't start with "
     "'-', or is just '-', is a positional argument. Respelling a command line with equivalent spellings (clustered or separate, "
     "'=' or a separate token) doesn't change the result.",
     ["inputs", "configurations"], "All sets of options and all command lines.",
     "Spellings, clusters and value placements combine without bound; the tests try a few dozen combinations.",
     [STDIT, ITER], [("token splitter", STDIT + " next/next_value"), ("flag lookup", CMD + " find_option")], MODEL,
     "Clusters with a dash or an ignored unknown flag inside are left out: the documentation doesn't define them.",
     ["values, sources, result codes and unprocessed arguments of parse()"])

prop(3, "Slash and dash style command lines are split into flags and values as documented",
     "With the slash and dash option styles, every token of two or more characters that starts with the prefix is one flag (never a cluster), the value of a flag is the text after the first '=' "
     "or else the next token verbatim, and other tokens are positional arguments. Writing '=' or a separate token "
     "makes no difference to the result.",
     ["inputs", "configurations"], "All sets of options and all command lines.",
     "As for the standard style; the tests have only a handful of slash and dash style command lines.",
     [OPTIT, ITER], [("token splitter", OPTIT + " next/next_value"), ("option test", STR + " is_option")], MODEL,
     "Exploration of generated command lines.", ["values, sources, result codes and unprocessed arguments of parse()"])

prop(4, "Flags are found by exact, case-insensitive or unambiguous abbreviated names only",
     "An exact flag always selects its own option; with abbreviations enabled, a proper prefix selects an option exactly when one "
     "flag begins with it; with case-insensitivity enabled, ASCII letter case never matters for flags and "
     "commands. Without these settings, only exact flags and names match, and the outcome doesn't depend on the order of the definitions.",
     ["inputs", "configurations"], "All sets of flags with shared prefixes and all spellings, with every combination of the settings.",
     "It depends on the neighbours of a flag in sorted order; the tests use only a few sets of flags.",
     [CMD, STR], [("sorted index and lookup", CMD + " build_option_index/find_option_impl"), ("case-insensitive comparison", STR)],
     MODEL, "Two flags of the same option that share a prefix make it ambiguous, as the code has it.",
     ["which option each token selects"])

prop(5, "Option operations store, append, clear and initialise values as documented",
     "ASSIGN replaces all earlier values, APPEND adds a value last, CLEAR removes all values, NONE stores nothing; the stored value is the constant if there "
     "is one (\"1\" for plain flags) or else the argument, and initial values are there until something replaces or removes them. After any sequence of options "
     "the values of every name are those of folding the operations in command line order.",
     ["inputs", "histories"], "All sets of options with all operations and all sequences of uses.",
     "Sequences of interacting operations are unbounded; tests use sequences of one to three.",
     [ITER, IMPL], [("operations", ITER + " process_option"), ("value store", IMPL + " append/assign/clear_value")], MODEL,
     "Exploration of generated sequences.", ["values by name after parse() and after each step of an iterator"])

prop(6, "Names joined by aliases share values, others are independent, sources are kept",
     "All flags of an option, and all options and arguments joined directly or indirectly by aliases within a command, give the same "
     "values in the same order, by name or by view, and no name outside the group is affected. Each value "
     "knows which option or argument it came from, and asking for a single value when there are several is an error.",
     ["inputs", "configurations"], "All alias graphs over options and arguments, and all command lines.",
     "The outcome depends on the whole graph of aliases and the order of definitions; tests have one alias at a time.",
     [CMD, S + "ParserData.cpp", IMPL, PARSED], [("value ids", CMD + " finish_initialization"), ("name table", IMPL + " constructor")],
     MODEL, "Values edited by callbacks through a name have no source.", ["ParsedArguments and ArgumentValue(s)"])

prop(7, "Positional values are distributed in order with minimums first",
     "The number of positional values on the command line decides how many each argument gets: every argument gets its minimum, and earlier arguments get as many as possible of the rest "
     "(up to their maximum). The values of the arguments, in order, are exactly "
     "the positional values in order, whatever options are interspersed.",
     ["inputs", "configurations"], "All lists of argument counts (including unlimited ones), numbers of values and interspersed options.",
     "The counting depends on lookahead over the whole command line, including options with values, terminators and special options.",
     [COUNTER, ITER], [("lookahead", ITER + " count_arguments"), ("distribution", COUNTER)], MODEL,
     "Exploration of generated definitions and command lines.", ["values of each argument"])

prop(8, "A command line is accepted exactly when it is complete",
     "A command line with known options is accepted exactly when every argument has its minimum and no values are left over, every mandatory option of every "
     "command on it has a value, every option that needs a value has one, and required subcommands are given; otherwise it is reported as a failure with an error message naming "
     "what is wrong. A terminating option makes the completeness checks unnecessary for help, stop and exit options only.",
     ["inputs", "configurations"], "All definitions and all command lines.",
     "Acceptance is a joint condition over counts, mandatory options, commands and terminators.",
     [ITER, COUNTER], [("final checks", ITER + " check_argument_and_option_counts/has_all_mandatory_options")], MODEL,
     "Exploration of generated command lines, about half of them wrong in one way.", ["result code and error output"])

prop(9, "Help, stop, exit and last-argument/last-option options end what they should",
     "A help, stop or exit option ends the parsing at once with a stop result that names the option; a last-argument option ends the arguments and leaves the rest unprocessed after the completeness checks; after a last-option option "
     "every token is a positional argument. Nothing after the end has any effect on values and all of it is listed as unprocessed, in order.",
     ["inputs", "configurations"], "All positions of all special option types (clusters and subcommands included) in all command lines.",
     "Position, cluster, command level and lookahead interact; tests put the option in a few places.",
     [ITER, STDIT, OPTIT], [("option types", ITER + " process_option"), ("remaining arguments", OPTIT + ", " + STDIT)], MODEL,
     "Last-option and last-argument options inside a cluster are left out (undocumented).",
     ["result code, stop option, unprocessed arguments"])

prop(10, "Undefined options and arguments are rejected, or ignored without side effects",
     "Unless ignoring is enabled, any undefined option or superfluous argument is an error that names it; when it is enabled, exactly the undefined tokens are listed as unprocessed, "
     "in order, and the result is otherwise that of the command line without them. Filtering argv afterwards leaves the program "
     "name and exactly the unprocessed arguments, in order.",
     ["inputs", "configurations"], "All positions and kinds of undefined tokens, both settings, and all argv.",
     "Removing or adding tokens changes lookahead and cluster handling; tests insert a token or two.",
     [ITER, PARSED], [("unknown tokens", ITER + " process_option/process_argument"), ("filter", PARSED + " filter_parsed_arguments")],
     MODEL + ", and a metamorphic monitor: the same command line without the undefined tokens", "Unknown flags inside clusters are left out.",
     ["unprocessed arguments, argv after filtering"])

prop(11, "Subcommands are entered, nested and alternated according to the definitions",
     "A token selects the subcommand of the current command with that name, later options and arguments belong to the innermost command, and when a parent allows "
     "multiple subcommands a complete command is followed by any number of siblings, each with its own values and in command line order. Unknown and missing required subcommands are errors, every command on the command line gets "
     "the final result code, and the same value name in different commands never mixes.",
     ["inputs", "configurations"], "All trees of commands and all command lines.",
     "Trees, repeated commands, counts and terminators interact; tests use one or two levels.",
     [ITER, CMD, PARSED], [("entering and reactivating commands", ITER + " process_command/reactivate_multi_command_parent"), ("lookup", CMD + " find_command")],
     MODEL, "Only the innermost parent that allows multiple subcommands is searched for siblings, as the code has it.",
     ["the tree of results"])

prop(12, "Iterating over the arguments is equivalent to parsing them",
     "An iterator reports, one at a time and in command line order, each option, argument, command and undefined token with its value, with the values and the current command up to date "
     "after each step, then stays at the end or, after an error, throws. The final results, output and callbacks are those of parsing the same command line in one go, also when iterators are moved or interleaved.",
     ["inputs", "histories"], "All definitions, command lines and interleavings of iterators.",
     "The tests iterate over two or three command lines.",
     [S + "ArgumentIterator.cpp", ITER], [("next", ITER + " next"), ("public iterator", S + "ArgumentIterator.cpp next")],
     MODEL + "; the recorded event sequence is compared step by step", "Exploration of generated cases.", ["the sequence of events"])

prop(13, "Callbacks run exactly once per use, in order, and their effects are applied",
     "Each use of an option or argument calls its own callback and then the parser's general one exactly once, in command line order, with the right view and value and with the values already updated; "
     "values appended, assigned or cleared by callbacks and arguments inserted by them take effect as if they were part of the command line right after that point (values already given stay with their argument, and none gets more than its maximum). An exception or error "
     "from a callback ends the parsing immediately and reaches the caller, and a const parser can be used again afterwards.",
     ["inputs", "histories", "fault_sequences"], "All placements of callbacks and effects, and an exception or error at any callback.",
     "The tests call a callback once or twice and never throw from a chosen position.",
     [ITER, BUILDER, IMPL], [("calls", ITER + " process_option/process_argument"), ("effects", ITER + " update_arguments, " + BUILDER)],
     MODEL + "; exactly-once and order checkers over the log of callbacks; exceptions injected at every position",
     "Callbacks insert literal tokens only, at their first or every call.", ["the log of callbacks"])

prop(14, "A const parser is never changed by use, sequentially or concurrently",
     "Any history of parsing, iterating and writing help with the same const parser gives each time what a new parser would have given, and earlier results stay the same. Threads that share a const parser or a result, or use "
     "different parsers, don't disturb each other and have no data races.",
     ["histories", "schedules"], "All histories of uses and all interleavings of threads.",
     "There are no tests with threads, and hardly any that use a parser twice.",
     [PARSER, CMD, S + "ParserData.cpp"], [("copy for each parse", PARSER + " make_copy"), ("deep copies", CMD + " copy constructor")],
     "runtime monitoring: ThreadSanitizer and a result oracle over threads with injected delays; history checker with the address sanitizer",
     "Sampled interleavings; the streams that the user shares between threads are the user's responsibility.",
     ["results, output, race reports"])

prop(15, "Invalid definitions and used-up objects are rejected, valid ones accepted",
     "Definitions the documentation forbids (missing names or flags, flags that don't fit the option style, conflicting flags, impossible counts, contradictory option settings, arguments mixed with subcommands) and any use of an object that has been added, "
     "moved from or consumed by parsing always throw the library's exception, at the latest when the parser is used. Definitions without such mistakes are always accepted, and rejected calls leave the parser usable.",
     ["configurations", "histories"], "All definitions with and without mistakes, and all histories of moves and adds.",
     "The tests try each mistake once in a fixed context.",
     [CMD, S + "OptionData.cpp", S + "Option.cpp", S + "Argument.cpp", S + "Command.cpp", PARSER],
     [("checks when adding", CMD + " add"), ("checks before parsing", CMD + " finish_initialization")],
     MON + "generated definitions with one injected mistake; the oracle knows where the exception is due",
     "Exploration of generated definitions.", ["exceptions"])

prop(16, "Copies and moves of definitions are complete and independent",
     "A copy of an option, argument or command behaves in every respect as the original, changing or adding one never affects the other, and a moved definition or parser behaves as the original did. Copying from a "
     "command adds copies of all its options, arguments, subcommands and texts, as if they had been added one by one, and leaves the source as it was.",
     ["configurations", "histories"], "All definitions and all histories of copying, moving, modifying and adding.",
     "A forgotten member shows only when that member matters; tests check a few.",
     [CMD, S + "Option.cpp", S + "Argument.cpp", S + "Command.cpp", S + "ArgumentData.hpp", S + "OptionData.hpp"],
     [("copy constructors and assignments", CMD), ("copy_from", CMD + " copy_from")],
     MON + "parsers assembled through random histories of copies and moves; the oracle is a parser built directly",
     "Exploration; every observable (help, results, views, callbacks) is compared.", ["help texts, results, views, callbacks"])

prop(17, "Integer conversions are exact or refused",
     "Converting a value to any integer type in any base gives the number the text denotes when the whole text is a valid number that the type can represent, and is otherwise reported as an error, never silently truncated, wrapped or partly parsed. "
     "Which signs, prefixes and leading spaces a number can have follows the C functions the documentation refers to (strtol, and strtoul for unsigned types). Missing values give the default, and lists convert each value likewise.",
     ["inputs"], "All strings, bases and integer types.",
     "Boundary values, bases, signs and trailing characters multiply; the tests try a few dozen.",
     [PVAL, VALUE, VALUES], [("conversion", PVAL + " parse_integer")],
     MON + "generated texts and an oracle with 128-bit arithmetic", "Negative texts for unsigned types follow strtoul, which the documentation refers to.",
     ["converted values and errors"])

prop(18, "Floating point, boolean and string conversions are exact or refused",
     "Texts that are complete floating point numbers in range convert to the nearest representable number, everything else is reported as an error; booleans and strings follow "
     "the documentation for every text, and missing values give the default. Printing a number with enough digits and converting it gives the same number.",
     ["inputs"], "All strings.", "The tests try about twenty strings.",
     [PVAL, VALUE, VALUES], [("conversion", PVAL + " parse_floating_point"), ("as_bool", VALUE)],
     MON + "generated texts and numbers, an exact rational oracle and a round trip monitor", "Denormal results are left out (the C library may report a range error).",
     ["converted values and errors"])

prop(19, "Splitting values and accessing lists conserve the text and the order",
     "Splitting a value gives its parts in order, so that joining them with the separator gives the original text, with at most the maximum number of parts where the last one contains the rest; fewer than the minimum is an error. "
     "Lists of values have the same size and contents whichever way they are read: by index, iterator, converted or split lists.",
     ["inputs"], "All texts, separators and limits.", "The tests split a few strings.",
     [STR, VALUE, VALUES, S + "ArgumentValueIterator.cpp"], [("split_string", STR), ("list access", VALUES)],
     MON + "generated lists, and a conservation monitor", "Exploration.", ["parts, sizes, sources, errors"])

prop(20, "Help texts describe exactly the visible definitions, under the right headings",
     "The help text lists every visible command, argument and option exactly once, with all its flags, argument name and complete help text, under its section's heading and in "
     "definition order, nothing that is hidden there, and each custom text in its place. The generated usage mentions exactly the visible ones, with brackets around what is optional, also for subcommands.",
     ["configurations"], "All definitions, visibilities, sections and texts.",
     "The tests compare some fixed help texts.",
     [HELP, S + "Option.cpp", CMD], [("sections", HELP + " write_argument_sections"), ("usage", HELP + " write_usage")],
     MON + "generated definitions; a parser of the help text checks conservation (all that is due, once, in order, nothing else)",
     "Exploration of generated definitions.", ["help output"])

prop(21, "Help and error texts are laid out within the line width without losing text",
     "No line of a help or error text is wider than the line width (in characters, or bytes for text that isn't UTF-8; that of the terminal, or 80 if there is none, unless the program sets it) unless it holds a single unsplittable unit, words are kept whole unless they don't fit on a line or a word splitting rule applies, and removing the "
     "line breaks, indentation and split hyphens gives back the original words in order. A hyphen marks where a word is split between two letters or digits. Line breaks and empty lines in the texts are kept, and lines are otherwise only broken where the next word doesn't fit. "
     "Lines have no trailing spaces, tabs go to the next column that's a multiple of four, and list items, indented paragraphs and the help texts of all items are aligned.",
     ["inputs", "configurations"], "All texts, line widths and word splitting rules.",
     "Line breaking depends on the lengths of all words and the width; the tests use a few texts and widths.",
     [FMT, WRITER, SPLIT, STR, HELP], [("word wrapping", FMT + " write_words/append_word"), ("splitting", SPLIT)],
     MON + "generated texts and widths; layout monitors (width, conservation of words, alignment)",
     "Widths below 40 only for memory safety (C01).", ["help output"])

prop(22, "Errors, help and exits go to the right stream with the right exit code",
     "With automatic exit, help and exit options end the process with the normal exit code and every error (usage errors, conversion errors, errors reported by the program) with the error exit code; without it the process never exits. "
     "Messages start with the full name of the command, and go to the assigned stream, or else help to standard output and errors to standard error.",
     ["inputs", "configurations"], "All kinds of errors, settings, exit codes, streams and command levels.",
     "The tests run with automatic exit disabled, since it would end them.",
     [ITER, HELP, IMPL, PARSER], [("error", ITER + " error"), ("exit codes", ITER + " process_option, " + IMPL + " error")],
     MON + "forked children whose exit status and output are observed", "Exploration of generated cases.",
     ["exit status, standard output, standard error, stream"])

prop(23, "Views and introspection report the definitions and the results faithfully",
     "The views of arguments, options, subcommands and of the current command report each property as it was defined, in definition order, and "
     "the result, its views and the printed result agree with each other. Identifiers and views identify the same definitions before, during and after parsing.",
     ["configurations", "inputs"], "All definitions and command lines.",
     "The tests read a few properties of a few views.",
     [S + "ArgumentView.cpp", S + "OptionView.cpp", S + "CommandView.cpp", PARSED], [("views", S + "OptionView.cpp etc.")],
     MON + "generated definitions; the oracle is the definition", "Exploration.", ["views, print()"])

prop(24, "Results and views stay valid as long as they exist",
     "Results, values, views, iterators and subcommand results remain valid and unchanged after the parser, the command line strings, the parent "
     "results and other copies have been destroyed, moved or overwritten, in any order.",
     ["histories"], "All orders of destroying, copying and moving the objects.",
     "Lifetimes combine in many orders, and errors are invisible without a sanitizer.",
     [IMPL, PARSED, VALUE, VALUES, ITER], [("shared ownership", IMPL + " shared pointers"), ("values stored by copy", IMPL + " append_value")],
     "runtime monitoring: address sanitizer with freed command line memory, and a monitor that compares every observation with the first one, over random histories of destruction",
     "Views are documented to be backed by the result.", ["all accessors, sanitizer reports"])

prop(25, "The two-file version of the library does what the library does",
     "The two-file version of the library that the repository's tool (tools/make_single_src) makes from the sources compiles on its own, and programs that use it "
     "get the same results, values, callbacks, help texts, error messages and exceptions as programs that use the library. The two-file version in single_src also does what is documented.",
     ["inputs", "configurations"], "All definitions, command lines, texts and conversions.",
     "No test makes, compiles or runs the two-file version: local names, macros and headers that meet in one file can change the meaning of the code, "
     "the tool can drop or reorder lines, and the copy in the repository can be damaged or left behind.",
     ["tools/make_single_src/mergecpp.py", "tools/make_single_src/make_argos_cpp.sh.in", "single_src/Argos/Argos.cpp", "single_src/Argos/Argos.hpp"],
     [("concatenation in order of dependencies", "tools/make_single_src/mergecpp.py get_file_inclusion_order"),
      ("redundant includes are removed", "tools/make_single_src/mergecpp.py remove_redundant_includes")],
     "runtime monitoring: the library and the two-file version (both with address and undefined behaviour sanitizers) run the same cases and log what they observe, an offline "
     "checker compares the logs; the version in the repository runs against the reference model",
     "Exploration of generated cases; the script for Linux only.", ["logs of all observations"])

prop(26, "What fails in the middle of an operation reaches the caller and breaks nothing",
     "When memory runs out, the output stream fails or throws, or a text function of the program throws, in the middle of defining, parsing, converting or writing help, "
     "the caller gets that very exception (a stream's failure just stays in its state, and its settings are left alone), nothing leaks or is destroyed twice, and everything that existed before can be used and destroyed. "
     "A finished parser, its results and its help texts give the same afterwards as if the failed operation had not taken place.",
     ["fault_sequences", "histories", "configurations"], "All definitions and command lines, every allocation, write and text function that can fail.",
     "No test makes anything fail, and each operation has hundreds of points where it can.",
     [PARSER, ITER, IMPL, HELP, FMT, WRITER, CMD, VALUES], [("formatter and stream", WRITER), ("deferred texts", S + "TextSource.hpp / HelpText")],
     "runtime monitoring and fault injection: failing allocations (replaced operator new), failing and throwing streams and text functions; monitors compare the exception, the number of blocks in use, "
     "later results and help texts with the reference model and with undisturbed runs; address sanitizer",
     "Exploration. Failing definitions only have to leave the parser safe to use and destroy.",
     ["exceptions, live memory blocks, later results and texts"], )

prop(27, "The example programs do what they say",
     "Each program in examples (append_clear_option, area, commands, hello, list_options, rot13, table, whereis), built with the library, does for every command line what its help text, README and the library's rules "
     "for command lines say: writes the expected output to standard output (or the given file) and ends with exit code 0, or writes a usage error to standard error, nothing else, and ends with the usage error code. --help and --version write the texts of the program's definitions.",
     ["inputs"], "All command lines.",
     "The examples aren't run by any test; they use the library as programs do: automatic exit, standard streams, argv, the environment and several features together.",
     ["examples/table/table.cpp", "examples/rot13/rot13.cpp", "examples/commands/commands.cpp", "examples/whereis/whereis.cpp", "examples/hello/hello.cpp",
      "examples/area/area.cpp", "examples/list_options/list_options.cpp", "examples/append_clear_option/append_clear_option.cpp", PARSER, ITER, VALUES],
     [("parse(argc, argv) with automatic exit", PARSER + " parse"), ("exit codes", ITER + " process_option, error")],
     "runtime monitoring: processes of the programs (built with address and undefined behaviour sanitizers) run with generated command lines, and their exit status, streams and files are compared with the reference model",
     "Exploration of generated command lines.", ["exit status, standard output, standard error, files"])


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            if len(p["title"]) > 80:
                sys.exit("title too long: " + p["title"])
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []
    for p in P:
        if p["id"] not in CHECKS:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    na = [{"property": p["id"], "reason": "no check yet"} for p in P if p["id"] not in CHECKS]
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
                   "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
