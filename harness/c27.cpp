// C27: The example programs do what they say.
#include "cmdline.hpp"
#include <cmath>
#include "decorate.hpp"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vf;
using namespace argos;
namespace fs = std::filesystem;

namespace
{
    using Strings = std::vector<std::string>;

    // ---- Processes -----------------------------------------------------

    struct Process
    {
        int code = -1;   // exit code
        int signal = 0;
        std::string out, err;
    };

    // The directory the programs run in, with the files in FILES.
    const char* const FILES[] = {"d1/a", "d1/b.txt", "d1/-x", "d2/a", "d2/c.txt", "d2/c.md", "d3/b"};
    constexpr char PATH[] = "PATH=d1:d2:d3";

    const std::string& directory()
    {
        static const std::string dir = []
        {
            const char* top = std::getenv("VF_TMP");
            if (!top) throw HarnessError("VF_TMP isn't set");
            const auto d = cat(top, "/examples-", getpid());
            for (auto f : FILES)
            {
                fs::create_directories(fs::path(d + "/" + f).parent_path());
                std::ofstream(d + "/" + f) << "";
            }
            return d;
        }();
        return dir;
    }

    std::string contents(const std::string& path)
    {
        std::ifstream f(path, std::ios::binary);
        return {std::istreambuf_iterator<char>(f), {}};
    }

    Process run_program(const std::string& name, const Strings& args)
    {
        const char* top = std::getenv("VF_EXAMPLES");
        if (!top) throw HarnessError("VF_EXAMPLES isn't set");
        const auto exe = cat(top, "/", name);
        const auto out = directory() + "/../" + cat("out-", getpid()), err = directory() + "/../" + cat("err-", getpid());
        std::vector<char*> argv{const_cast<char*>(exe.c_str())};
        for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
        argv.push_back(nullptr);
        const auto set = [](const char* s) { return std::getenv(s) ? cat(s, "=", std::getenv(s)) : cat(s, "="); };
        const Strings vars{PATH, "LC_ALL=C", set("ASAN_OPTIONS"), set("UBSAN_OPTIONS")};
        std::vector<char*> env;
        for (auto& v : vars) env.push_back(const_cast<char*>(v.c_str()));
        env.push_back(nullptr);
        const auto pid = fork();
        if (pid < 0) throw HarnessError("fork");
        if (pid == 0)
        {
            const int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            const int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            const int i = open("/dev/null", O_RDONLY);
            rlimit cpu{60, 60}, size{32 << 20, 32 << 20};
            setrlimit(RLIMIT_CPU, &cpu);
            setrlimit(RLIMIT_FSIZE, &size);
            if (o < 0 || e < 0 || i < 0 || dup2(i, 0) < 0 || dup2(o, 1) < 0 || dup2(e, 2) < 0
                || chdir(directory().c_str()) != 0)
            {
                _exit(126);
            }
            execve(exe.c_str(), argv.data(), env.data());
            _exit(126);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0)
            if (errno != EINTR) throw HarnessError("waitpid");
        Process p;
        if (WIFSIGNALED(status)) p.signal = WTERMSIG(status);
        else p.code = WEXITSTATUS(status);
        p.out = contents(out);
        p.err = contents(err);
        if (p.code == 126) throw HarnessError("can't run " + exe);
        return p;
    }

    // ---- The programs --------------------------------------------------

    ArgSpec arg(int id, const char* name, unsigned min, unsigned max, const char* help)
    {
        ArgSpec a;
        a.id = id;
        a.name = name;
        a.min = min;
        a.max = max;
        a.help = help;
        return a;
    }

    OptSpec opt(int id, Strings flags, const char* argument, const char* help)
    {
        OptSpec o;
        o.id = id;
        o.flags = std::move(flags);
        o.argument = argument;
        o.help = help;
        return o;
    }

    // What a program should do with a command line it accepts
    struct Expected
    {
        bool known = true;
        bool error = false;  // reports an error
        std::string out;     // what it writes, if there's no error
        std::string defective; // what it's known to write instead
        std::optional<std::string> file, text; // the file it writes, and its contents
    };

    struct Program
    {
        std::string name;
        ParserSpec spec;
        Strings values; // likely values
        std::function<Expected(const Outcome&)> run;
    };

    enum class Number { VALID, INVALID, UNKNOWN };

    // Numbers that are surely valid or invalid
    Number number(const std::string& s, int& n)
    {
        size_t i = !s.empty() && s[0] == '-';
        if (s.size() > i && s.size() - i <= 4 && s.find_first_not_of("0123456789", i) == std::string::npos)
        {
            n = std::atoi(s.c_str());
            return Number::VALID;
        }
        const unsigned char c = s.empty() ? 'x' : static_cast<unsigned char>(s[0]);
        if (c == '.' || c == '+' || c == '-' || std::isspace(c) || std::isdigit(c) || c == 'i' || c == 'I' || c == 'n' || c == 'N')
            return Number::UNKNOWN;
        return Number::INVALID;
    }

    // Decimal numbers that are surely valid and can be represented exactly, or else as number().
    Number decimal_number(const std::string& s, double& n)
    {
        size_t i = s.find_first_not_of(' ');
        if (i == s.npos) i = s.size();
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        const auto dot = s.find('.', i);
        const auto whole = s.substr(i, dot == s.npos ? s.npos : dot - i);
        const auto rest = dot == s.npos ? "0" : s.substr(dot + 1);
        if (!whole.empty() && whole.size() <= 4 && whole.find_first_not_of("0123456789") == whole.npos
            && (rest == "0" || rest == "5" || rest == "25" || rest == "75" || rest == "125"))
        {
            n = std::strtod(s.c_str(), nullptr);
            return Number::VALID;
        }
        int m = 0;
        const auto r = number(s, m);
        n = m;
        return r;
    }

    Strings values(const Node& n, const std::string& name)
    {
        Strings r;
        const auto it = n.values.find(name);
        if (it == n.values.end()) return r;
        for (auto& v : it->second) r.push_back(v.text);
        return r;
    }

    std::string value(const Node& n, const std::string& name, const std::string& missing)
    {
        const auto v = values(n, name);
        if (v.size() > 1) throw HarnessError("several values of " + name);
        return v.empty() ? missing : v[0];
    }

    Strings split(const Strings& values, char separator)
    {
        Strings r;
        for (auto& v : values)
        {
            size_t from = 0;
            for (size_t at; (at = v.find(separator, from)) != std::string::npos; from = at + 1)
                r.push_back(v.substr(from, at - from));
            r.push_back(v.substr(from));
        }
        return r;
    }

    // Number of repetitions etc.
    bool get_number(Expected& e, const Node& n, const std::string& name, int missing, int& result)
    {
        result = missing;
        const auto v = values(n, name);
        if (v.empty()) return true;
        switch (number(v[0], result))
        {
        case Number::VALID: return true;
        case Number::INVALID: e.error = true; return false;
        case Number::UNKNOWN: e.known = false; return false;
        }
        return false;
    }

    std::vector<Program> make_programs()
    {
        std::vector<Program> r;
        const auto common = [](const char* name, const char* about)
        {
            ParserSpec s;
            s.root.id = 0;
            s.root.name = name;
            s.root.texts[TextId::ABOUT] = about;
            return s;
        };
        {
            Program p{"append_clear_option", common("append_clear_option", "Demonstrates APPEND and CLEAR options."), {"a", "b", "", "c d"}, {}};
            auto a = opt(1, {"-i", "--include="}, "VALUE", "Appends VALUE to the list of values.");
            a.op = OptionOperation::APPEND;
            a.alias = "--include";
            auto c = opt(2, {"--include"}, "", "Clears the list of values.");
            c.op = OptionOperation::CLEAR;
            p.spec.root.opts = {a, c};
            p.run = [](const Outcome& o)
            {
                Expected e;
                for (auto& s : values(o.root, "--include")) e.out += s + "\n";
                return e;
            };
            r.push_back(p);
        }
        {
            Program p{"area", common("example2", "Computes the area of a triangle or quadrilateral."),
                      {"0,0", "1,0", "3,4", "10,20", "7,7", "-1,2", "100,-3", "999,1000", "2,5", "1.5,-0.25", "3, 4", "+2,+7.75", " 1,  -6.5", "0.125,12", "1,2,3", "1", "a,b", "1,", ","}, {}};
            p.spec.root.args = {arg(1, "X,Y", 3, 4, "The coordinates of the corners in a triangle or quadrilateral.")};
            p.run = [](const Outcome& o)
            {
                Expected e;
                std::vector<std::pair<double, double>> c;
                for (auto& s : values(o.root, "X,Y"))
                {
                    const auto at = s.find(',');
                    if (at == std::string::npos || s.find(',', at + 1) != std::string::npos)
                    {
                        // (the second part of the latter may begin with a number, but isn't one)
                        e.error = true;
                        return e;
                    }
                    double x = 0, y = 0;
                    const auto nx = decimal_number(s.substr(0, at), x), ny = decimal_number(s.substr(at + 1), y);
                    if (nx == Number::INVALID || ny == Number::INVALID) { e.error = true; return e; }
                    if (nx == Number::UNKNOWN || ny == Number::UNKNOWN) { e.known = false; return e; }
                    c.emplace_back(x, y);
                }
                // The shoelace formula
                double sum = 0;
                for (size_t i = 0; i < c.size(); ++i)
                {
                    auto& [x1, y1] = c[i];
                    auto& [x2, y2] = c[(i + 1) % c.size()];
                    sum += x1 * y2 - x2 * y1;
                }
                vf::TextStream ss;
                ss << std::abs(sum) / 2 << "\n";
                e.out = ss.str();
                return e;
            };
            r.push_back(p);
        }
        {
            Program p{"hello", common("hello", "Displays a greeting to someone or something."), {"1", "2", "0", "17", "-3", "planet", "foo", ""}, {}};
            p.spec.root.args = {arg(1, "NAME", 0, 1, "The person or thing to greet.")};
            p.spec.root.opts = {opt(2, {"-n", "--number"}, "NUM", "The number of times to repeat the greeting.")};
            p.run = [](const Outcome& o)
            {
                Expected e;
                int n = 0;
                if (!get_number(e, o.root, "-n", 1, n)) return e;
                for (int i = 0; i < n; ++i) e.out += "Hello " + value(o.root, "NAME", "world") + "!\n";
                return e;
            };
            r.push_back(p);
        }
        {
            Program p{"commands", common("commands", "Performs an operation of some kind."), {"1", "2", "0", "12", "birthday", "foo", "greet", "congratulate"}, {}};
            p.spec.version = "1.0.0";
            CmdSpec g, c;
            g.id = 3;
            g.name = "greet";
            g.texts[TextId::ABOUT] = "Prints a greeting.";
            g.args = {arg(4, "NAME", 0, 1, "The person or thing to greet.")};
            g.opts = {opt(5, {"-n", "--number"}, "NUM", "The number of times to repeat the greeting.")};
            c.id = 6;
            c.name = "congratulate";
            c.texts[TextId::ABOUT] = "Prints a congratulation.";
            c.args = {arg(7, "NAME", 0, 1, "The person or thing to greet.")};
            c.opts = {opt(8, {"-o", "--occasion"}, "OCCASION", "The occasion for the congratulation."),
                      opt(9, {"-n", "--number"}, "NUM", "The number of times to repeat the congratulation.")};
            p.spec.root.cmds = {g, c};
            p.run = [](const Outcome& o)
            {
                Expected e;
                int n = 0;
                if (o.root.subs.empty()) return e; // --version
                if (o.root.subs.size() != 1) throw HarnessError("subcommands");
                auto& s = o.root.subs[0];
                if (!get_number(e, s, "-n", 1, n)) return e;
                std::string a = "Hello";
                if (s.cmd_id == 6)
                {
                    a = "Congratulations";
                    if (const auto v = values(s, "-o"); !v.empty()) a += " on your " + v[0];
                }
                for (int i = 0; i < n; ++i) e.out += a + ", " + value(s, "NAME", "world") + "!\n";
                return e;
            };
            r.push_back(p);
        }
        {
            Program p{"list_options", common("list_options", "A small example that demonstrates different ways to work with options that build lists of values."),
                      {"a", "a:b", ":", "", "x:y:z:", "c d"}, {}};
            auto s = opt(1, {"-s", "--add-single"}, "VALUE", "Add a single value to a list.");
            auto m = opt(2, {"-m", "--add-multi"}, "VALUE[:VALUE]...",
                         "Add one or more values to a list. Use colon, ':', as separator when supplying more than one value.");
            s.op = m.op = OptionOperation::APPEND;
            p.spec.root.opts = {s, m};
            p.run = [](const Outcome& o)
            {
                Expected e;
                const auto list = [&](const char* title, const Strings& values)
                {
                    e.out += title;
                    for (auto& v : values) e.out += "  " + v + "\n";
                };
                list("single (one value at a time):\n", values(o.root, "-s"));
                list("single (all at once):\n", values(o.root, "-s"));
                list("multi (one value at a time):\n", split(values(o.root, "-m"), ':'));
                list("multi (all at once):\n", split(values(o.root, "-m"), ':'));
                return e;
            };
            r.push_back(p);
        }
        {
            Program p{"rot13", common("example2", "Obfuscates (or reveals) text with the rot-13 algorithm."),
                      {"Hello", "world", "abcxyz", "AZ-az", "1", "25", "26", "-1", "-13", "-40", "9999", "foo", "-n", "\xC3\xA5z"}, {}};
            p.spec.root.args = {arg(1, "WORD", 1, INT_MAX, "One or more words.")};
            auto last = opt(4, {"--"}, "", "Marks the end of the options. Allows words to start with dashes ('-').");
            last.type = OptionType::LAST_OPTION;
            p.spec.root.opts = {opt(2, {"-v", "--verbose"}, "", "Display additional information."),
                                opt(3, {"-n", "--number"}, "NUM", "Set the number letters are rotated by. Default is 13."), last};
            p.run = [](const Outcome& o)
            {
                Expected e;
                int n = 0;
                if (!get_number(e, o.root, "-n", 13, n)) return e;
                if (!values(o.root, "-v").empty()) e.out += "n = " + std::to_string(n) + "\n";
                e.defective = e.out;
                bool first = true;
                for (auto& w : values(o.root, "WORD"))
                {
                    if (!first) e.out += ' ';
                    if (!first) e.defective += ' ';
                    first = false;
                    for (char c : w)
                    {
                        const int base = c >= 'A' && c <= 'Z' ? 'A' : c >= 'a' && c <= 'z' ? 'a' : 0;
                        e.defective += base ? char(base + (c - base + n) % 26) : c;
                        std::string letters = "abcdefghijklmnopqrstuvwxyz";
                        if (c >= 'A' && c <= 'Z') letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
                        const auto at = letters.find(c);
                        e.out += at == std::string::npos ? c : letters[size_t(((long(at) + n) % 26 + 26) % 26)];
                    }
                }
                e.out += "\n";
                e.defective += "\n";
                if (n >= 0) e.defective.clear();
                return e;
            };
            r.push_back(p);
        }
        {
            Program p{"table", common("table", "Prints the arguments as cells in a table. The program also demonstrates one way to use option and argument callbacks."),
                      {"a", "bb", "ccc dd", "", "-", "12345", "out.txt"}, {}};
            p.spec.root.args = {arg(1, "TEXT", 1, UINT16_MAX, "Text of the next table cell.")};
            p.spec.root.args[0].callback = true;
            auto row = opt(3, {"-r", "--row"}, "", "Next file will be placed at the beginning of a new row.");
            auto col = opt(4, {"-c", "--column"}, "", "Skip one column forward.");
            row.callback = col.callback = true;
            p.spec.root.opts = {opt(2, {"-o", "--output"}, "FILE", "File name for output. stdout is used by default."), row, col,
                                opt(5, {"--borders"}, "", "Print borders between cells.")};
            p.run = [](const Outcome& o)
            {
                Expected e;
                std::vector<std::map<size_t, std::string>> rows(1);
                size_t column = 0, last = 0;
                std::map<size_t, size_t> widths;
                for (auto& c : o.callbacks)
                {
                    if (c.id == 1)
                    {
                        rows.back()[column] = c.value;
                        widths[column] = std::max(widths[column], c.value.size());
                        last = rows.size();
                        ++column;
                    }
                    else if (c.id == 3)
                    {
                        rows.emplace_back();
                        column = 0;
                    }
                    else if (c.id == 4)
                        ++column;
                }
                if (last == 0) throw HarnessError("no cells");
                rows.resize(last);
                const size_t columns = widths.rbegin()->first + 1;
                const bool borders = !values(o.root, "--borders").empty();
                std::string text;
                for (size_t i = 0; i < rows.size(); ++i)
                {
                    if (borders && i)
                    {
                        for (size_t j = 0; j < columns; ++j)
                        {
                            if (j) text += '+';
                            text += std::string(widths[j], '-');
                        }
                        text += '\n';
                    }
                    for (size_t j = 0; j < columns; ++j)
                    {
                        if (j) text += borders ? '|' : ' ';
                        const auto cell = rows[i].count(j) ? rows[i][j] : std::string();
                        text += cell + std::string(widths[j] - cell.size(), ' ');
                    }
                    text += '\n';
                }
                if (const auto f = values(o.root, "-o"); f.empty())
                    e.out = text;
                else
                {
                    // Just simple names
                    e.known = !f[0].empty() && f[0].size() < 30 && f[0].find_first_not_of("abcdefghijklmnopqrstuvwxyz.") == std::string::npos
                              && f[0][0] != '.';
                    e.file = f[0];
                    e.text = text;
                }
                return e;
            };
            r.push_back(p);
        }
        {
            Program p{"whereis", common("whereis", "Searches the directories in the PATH environment variable for the given file (or files)."),
                      {"a", "b", "c", "b.txt", ".txt", ".md:.txt", "d1", "d3:d1", "d2:", ":", "", "-x", "nothing"}, {}};
            p.spec.version = "1.0.0";
            p.spec.root.args = {arg(1, "FILE", 1, UINT_MAX, "The file or files to locate.")};
            auto paths = opt(2, {"-p", "--paths"}, "<PATH>[:<PATH>]...",
                             "Search the given path or paths rather than the ones in the PATH environment variable. Use : as separator between the different paths.");
            paths.initial = PATH + 5;
            auto ext = opt(3, {"-e", "--extensions"}, "<EXT>[:<EXT>]...",
                           "File name extensions to test while looking for FILE. Must include the leading '.'. This option can be used"
                           " multiple times, multiple extensions can be set at once by separating them with ':'.");
            ext.op = OptionOperation::APPEND;
            auto last = opt(4, {"--"}, "", "Marks the end of the options. Makes it possible to look for file names starting with dashes ('-').");
            last.type = OptionType::LAST_OPTION;
            auto quiet = opt(5, {"-q", "--quiet"}, "", "Do not show additional information (negates --verbose).");
            quiet.alias = "--verbose";
            quiet.constant = "0";
            auto verbose = opt(6, {"-v", "--verbose"}, "", "Show additional information.");
            paths.section = ext.section = last.section = "MAIN OPTIONS";
            quiet.section = verbose.section = p.spec.root.generated_section = "OTHER OPTIONS";
            p.spec.root.opts = {paths, ext, last, quiet, verbose};
            p.run = [](const Outcome& o)
            {
                Expected e;
                auto exts = split(values(o.root, "-e"), ':');
                if (exts.empty()) exts = {""};
                const bool is_verbose = value(o.root, "-v", "0") != "0";
                for (auto& d : split(values(o.root, "-p"), ':'))
                {
                    for (auto& f : values(o.root, "FILE"))
                    {
                        bool found = false;
                        for (auto& x : exts)
                        {
                            const auto path = fs::path(d) / (f + x);
                            std::error_code ec;
                            const auto real = path.is_absolute() ? path : directory() / path;
                            if (path.empty() || !fs::exists(real, ec)) 
                            {
                                // Impossible names are errors, or not
                                if (ec) e.known = false;
                                continue;
                            }
                            e.out += path.string() + "\n";
                            found = true;
                        }
                        if (!found && is_verbose) e.out += "not found: " + fs::path(d).string() + "\n";
                    }
                }
                return e;
            };
            r.push_back(p);
        }
        return r;
    }

    // ---- Command lines -----------------------------------------------------

    void collect(const CmdSpec& c, std::vector<Strings>& groups, const Strings& values, Rng& rng)
    {
        for (auto& o : c.opts)
        {
            for (auto& f : o.flags)
            {
                if (o.argument.empty())
                {
                    groups.push_back({f});
                    continue;
                }
                const auto v = rng.pick(values);
                if (f.back() != '=' && rng.chance(0.5)) groups.push_back({f, v});
                else if (rng.chance(0.05)) groups.push_back({f});
                else if (f.size() == 2) groups.push_back({f + v});
                else groups.push_back({(f.back() == '=' ? f : f + "=") + v});
            }
        }
    }

    Strings make_args(Rng& rng, const Program& p)
    {
        Strings args;
        if (rng.chance(0.2))
        {
            Profile profile;
            args = gen_args(rng, p.spec, profile);
            // Give most numbers a chance
            for (auto& a : args)
                if (rng.chance(0.3)) a = rng.pick(p.values);
        }
        else
        {
            std::vector<Strings> groups;
            const CmdSpec* c = &p.spec.root;
            if (!c->cmds.empty() && rng.chance(0.95))
            {
                if (rng.chance(0.05)) args.push_back("--version");
                c = &rng.pick(c->cmds);
                args.push_back(c->name);
            }
            // How often arguments are likely to be fine
            const auto arguments = c->args.empty() ? 0.02 : c->args[0].max == 1 ? 0.15 : p.name == "area" ? 0.97 : 0.6;
            for (int n = p.name == "area" ? rng.range(2, 5) : rng.chance(0.08) ? rng.range(12, 60) : rng.range(0, 7); n--;)
            {
                if (rng.chance(0.03)) args.push_back(rng.pick(Strings{"-h", "--help", "--version", "--unknown", "-z", "--"}));
                else if (rng.chance(arguments)) args.push_back(rng.pick(p.values));
                else
                {
                    groups.clear();
                    collect(*c, groups, p.values, rng);
                    if (groups.empty()) continue;
                    for (auto& a : rng.pick(groups)) args.push_back(a);
                }
            }
        }
        return args;
    }

    // ---- The cases ---------------------------------------------------------

    void run(Ctx& ctx)
    {
        static const auto programs = make_programs();
        Rng& rng = ctx.rng;
        auto& p = rng.pick(programs);
        const auto args = make_args(rng, p);
        size_t size = 0;
        for (auto& a : args)
        {
            size += a.size();
            // The only program that writes files must not find others
            if (a.find('\0') != std::string::npos || (p.name == "table" && a.find('/') != std::string::npos))
                return ctx.count("skipped");
        }
        if (size > 50000) return ctx.count("skipped");
        ctx.describe(cat(p.name, " ", join_quoted(args)));
        ctx.add_sig(ctx.desc);
        const auto model = run_model(p.spec, args);
        if (model.unspecified) return ctx.count("skipped_unspecified");

        Expected e;
        const bool version = model.root.code == ParserResultCode::STOP && model.root.stop_id == VERSION_ID;
        if (model.root.code == ParserResultCode::SUCCESS || version)
        {
            // The programs carry on with what there is after --version
            e = p.run(model);
            if (version) e.out = p.spec.root.name + " 1.0.0\n" + e.out;
            if (!e.known || e.out.size() > 1000000) return ctx.count("skipped_unspecified");
        }
        const auto path = e.file ? directory() + "/" + *e.file : std::string();
        if (!path.empty()) fs::remove(path);
        const auto got = run_program(p.name, args);
        ctx.count("processes");
        ctx.count("program_" + p.name);
        ctx.count("monitor_checks");
        ctx.nontrivial = true;
        const auto all = [&] { return cat("exit code ", got.code, " signal ", got.signal, "\nstdout:\n", got.out, "stderr:\n", got.err); };
        const auto file = path.empty() || !fs::exists(path) ? std::nullopt : std::optional(contents(path));
        if (!path.empty()) fs::remove(path);
        // Defects that are known, with the exact input and what happens
        if (p.name == "commands" && version && model.root.subs.empty() && !e.error
            && !(got.code == 0 && got.out == e.out && got.err.empty()))
        {
            ctx.fail("commands-version-uses-missing-subcommand", all());
        }
        if (p.name == "table" && model.root.code == ParserResultCode::SUCCESS && !e.error && !e.file && got.code == 0
            && got.signal == 0 && got.out.empty() && got.err.empty())
        {
            ctx.fail("table-without-output-file-writes-nothing", all());
        }
        if (!e.defective.empty() && e.defective != e.out && got.code == 0 && got.signal == 0 && got.out == e.defective && got.err.empty())
            ctx.fail("rot13-of-negative-number", all());
        ctx.check(got.signal == 0 && (got.code == 0 || got.code == 64), "abnormal-end", all);
        ctx.check(got.err.find("runtime error:") == std::string::npos && got.err.find("Sanitizer") == std::string::npos, "sanitizer", all);

        if (model.root.code == ParserResultCode::FAILURE || e.error)
        {
            ctx.count(e.error ? "conversion_errors" : "usage_errors");
            ctx.check(got.code == 64, "exit-code-of-error", all);
            ctx.check(got.out == (version ? p.spec.root.name + " 1.0.0\n" : ""), "output-and-error", all);
            const auto name = e.error ? p.spec.root.name : model.error_command;
            ctx.check(got.err.compare(0, p.spec.root.name.size(), p.spec.root.name) == 0
                      && (name.size() > 60 || got.err.compare(0, name.size() + 1, name + ":") == 0 || e.error), "name-in-error", all);
            return;
        }
        ctx.check(got.code == 0, "exit-code", all);
        ctx.check(got.err.empty(), "unexpected-error", all);
        if (model.root.code == ParserResultCode::STOP && !version)
        {
            ctx.count("helps");
            std::vector<const CmdSpec*> commands{&p.spec.root};
            const Node* n = &model.root;
            while (!n->subs.empty())
            {
                n = &n->subs.back();
                commands.push_back(find_command_by_id(p.spec.root, n->cmd_id));
            }
            const auto d = compare_words(help_words(p.spec, commands), got.out, ctx.counters);
            ctx.check(d.empty(), "help-text", [&] { return d + "\n" + all(); });
            return;
        }
        ctx.count(version ? "versions" : "successes");
        ctx.check(got.out == e.out, "output", [&] { return "expected:\n" + e.out + all(); });
        if (e.file)
        {
            ctx.count("files");
            ctx.check(file && *file == *e.text, "file", [&] { return "expected:\n" + *e.text + "file:\n" + file.value_or("none") + all(); });
        }
    }
}

namespace vf
{
    const Property property = {
        "C27",
        "a process of one of the example programs and its command line; non-trivial: the outcome was predicted",
        run,
        {"processes", "successes", "usage_errors", "conversion_errors", "helps", "versions", "files"},
    };
}
