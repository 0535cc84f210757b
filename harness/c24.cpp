// C24: Results and views stay valid as long as they exist.
#include "cmdline.hpp"
#include "decorate.hpp"
#include "views.hpp"
#include <cstring>
#include <utility>

using namespace vf;
using namespace argos;

namespace
{
    // ---- Observations ----------------------------------------------------------

    vf::TextStream& error_stream()
    {
        static vf::TextStream ss;
        return ss;
    }

    std::string error_text(const std::function<void()>& fn)
    {
        error_stream().str({});
        const auto ex = exception_of(fn);
        return ex + " " + error_stream().str();
    }

    std::string observe_item(const ParsedArguments& a)
    {
        vf::TextStream ss;
        print(a, ss);
        ss << "\ncode " << int(a.result_code()) << " name " << a.name() << " unprocessed " << join_quoted(a.unprocessed_arguments()) << "\n"
            << dump_tree(a.command());
        if (a.result_code() == ParserResultCode::STOP) ss << "stop " << dump(a.stop_option()) << "\n";
        for (auto& v : a.all_arguments())
        {
            for (auto x : a.values(*v))
                ss << (x.argument() ? dump_any(*x.argument()) : "-") << a.has(*v);
        }
        for (auto& v : a.all_options())
        {
            if (v->operation() == OptionOperation::NONE) continue;
            for (auto x : a.values(v->flags().front()))
                ss << (x.argument() ? dump_any(*x.argument()) : "-") << a.has(*v);
        }
        for (auto& c : a.all_subcommands()) ss << dump_shallow(*c);
        ss << error_text([&] { a.error("An error"); });
        for (auto& s : a.subcommands()) ss << "---\n" << observe_item(s);
        return ss.str();
    }

    std::string observe_item(const ArgumentValue& v)
    {
        vf::TextStream ss;
        ss << bool(v) << " " << (v ? quote(*v.value()) : "none") << " " << quote(v.as_string("missing")) << "\n";
        if (auto a = v.argument()) ss << dump_any(*a);
        ss << error_text([&] { v.error("An error"); });
        for (auto x : v.split(',')) ss << " " << quote(x.as_string());
        return ss.str();
    }

    std::string observe_item(const ArgumentValues& v)
    {
        vf::TextStream ss;
        ss << v.size();
        for (auto x : v) ss << " " << quote(x.as_string()) << (x.argument() ? dump_any(*x.argument()) : "");
        ss << join_quoted(v.as_strings());
        for (auto& x : v.values()) ss << *x.value() << ".";
        for (auto& a : v.arguments()) ss << "\n  " << dump_any(*a);
        ss << error_text([&] { v.error("An error"); });
        return ss.str();
    }

    // Values and a place in them
    struct Place
    {
        std::unique_ptr<ArgumentValues> values;
        ArgumentValueIterator it;
    };

    std::string observe_item(const Place& p)
    {
        std::string s;
        for (auto it = p.it; it != p.values->end(); ++it) s += quote((*it).as_string());
        return s;
    }

    std::string observe_item(const std::unique_ptr<IArgumentView>& v) { return dump_any(*v); }
    std::string observe_item(const CommandView& v) { return dump_tree(v); }
    std::string observe_item(const OptionView& v) { return dump(v); }
    std::string observe_item(const ArgumentView& v) { return dump(v); }
    std::string observe_item(const std::string_view& s) { return std::string(s); }
    std::string observe_item(const std::string* const& s) { return *s; }
    std::string observe_item(const std::vector<std::string>* const& s) { return join_quoted(*s); }

    // ---- The items ---------------------------------------------------------------

    template <typename T>
    struct Item
    {
        T value;
        int node;
        std::string expected;
    };

    template <typename T>
    using Items = std::vector<Item<T>>;

    const char* name_of(const ParsedArguments*) { return "results"; }
    const char* name_of(const ArgumentValue*) { return "values"; }
    const char* name_of(const ArgumentValues*) { return "value_lists"; }
    const char* name_of(const Place*) { return "value_iterators"; }
    const char* name_of(const std::unique_ptr<IArgumentView>*) { return "views"; }
    const char* name_of(const CommandView*) { return "command_views"; }
    const char* name_of(const OptionView*) { return "option_views"; }
    const char* name_of(const ArgumentView*) { return "argument_views"; }
    const char* name_of(const std::string_view*) { return "string_views"; }
    const char* name_of(const std::string* const*) { return "strings"; }
    const char* name_of(const std::vector<std::string>* const*) { return "string_lists"; }

    // Strings that are gone as soon as this is
    struct CommandLine
    {
        std::vector<std::unique_ptr<char[]>> strings;
        std::vector<char*> argv;
        std::vector<std::string_view> args;

        explicit CommandLine(const std::vector<std::string>& v)
        {
            add("prog");
            for (auto& s : v) add(s);
            argv.push_back(nullptr);
        }

        void add(const std::string& s)
        {
            strings.push_back(std::make_unique<char[]>(s.size() + 1));
            std::memcpy(strings.back().get(), s.c_str(), s.size() + 1);
            if (!argv.empty()) args.emplace_back(strings.back().get(), s.size());
            argv.push_back(strings.back().get());
        }

        int argc() const { return int(argv.size()) - 1; }

        ~CommandLine()
        {
            // Use after free isn't the only way to be wrong
            for (auto& s : strings) std::memset(s.get(), '#', std::strlen(s.get()));
        }
    };

    // Values that belong to the results, not the command line
    bool has_lasting_value(const IArgumentView* arg)
    {
        if (auto o = dynamic_cast<const OptionView*>(arg))
            return o->type() != OptionType::LAST_ARGUMENT && !o->argument().empty();
        return dynamic_cast<const ArgumentView*>(arg) != nullptr;
    }

    struct World
    {
        Ctx& ctx;
        Rng& rng;
        std::vector<ParserSpec> specs;
        std::vector<std::pair<std::unique_ptr<ArgumentParser>, ParserSpec>> parsers;
        struct LiveIterator
        {
            std::unique_ptr<CommandLine> line;
            std::unique_ptr<ArgumentIterator> it;
            std::vector<ParsedArguments> results; // not complete yet
            std::vector<std::pair<std::unique_ptr<IArgumentView>, std::string>> views;
            // The values reported by the iterator, and the results that have them
            struct Value
            {
                ParsedArguments owner;
                std::string_view view;
                std::string text;
            };
            std::vector<Value> values;

            void check_values(Ctx& ctx) const
            {
                for (auto& v : values)
                    if (v.view != v.text) ctx.fail("changed-iterator-value", cat("was: ", v.text, "\nis:  ", v.view));
            }
        };
        std::vector<LiveIterator> iterators;
        Profile profile;
        int nodes = 0;
        std::string trace;

        Items<ParsedArguments> results{};
        Items<ArgumentValue> values{};
        Items<ArgumentValues> lists{};
        Items<Place> places{};
        // Backed by results
        Items<std::unique_ptr<IArgumentView>> views{};
        Items<CommandView> command_views{};
        Items<OptionView> option_views{};
        Items<ArgumentView> argument_views{};
        Items<std::string_view> string_views{};
        Items<const std::string*> strings{};
        Items<const std::vector<std::string>*> string_lists{};

        void log(const std::string& s)
        {
            trace += s + "; ";
            ctx.describe(trace);
        }

        bool is_anchored(int node) const
        {
            const auto has = [&](auto& items)
            {
                for (auto& i : items)
                    if (i.node == node) return true;
                return false;
            };
            return has(results) || has(values) || has(lists) || has(places);
        }

        template <typename T>
        void add(Items<T>& items, T value, int node)
        {
            auto expected = observe_item(value);
            items.push_back({std::move(value), node, std::move(expected)});
            ctx.count(name_of(&items.back().value));
        }

        template <typename T>
        void check(const Item<T>& i)
        {
            const auto got = observe_item(i.value);
            ctx.count("monitor_checks");
            if (got != i.expected)
                ctx.fail(cat("changed-", name_of(&i.value)), cat("was: ", i.expected, "\nis:  ", got));
        }

        template <typename Fn>
        void for_each_list(Fn fn)
        {
            fn(results); fn(values); fn(lists); fn(places); fn(views); fn(command_views); fn(option_views);
            fn(argument_views); fn(string_views); fn(strings); fn(string_lists);
        }

        // Things that refer to results that are gone aren't valid any more.
        void drop_unanchored()
        {
            const auto drop = [&](auto& items) { std::erase_if(items, [&](auto& i) { return !is_anchored(i.node); }); };
            drop(views); drop(command_views); drop(option_views); drop(argument_views);
            drop(string_views); drop(strings); drop(string_lists);
        }

        // The same operations for all results and values
        template <typename T>
        void shuffle_items(Items<T>& items)
        {
            if (items.empty()) return;
            const auto i = rng.below(items.size()), j = rng.below(items.size());
            const auto name = name_of(&items[0].value);
            switch (rng.below(8))
            {
            case 0: // copy
                log(cat("copy ", name, " ", i));
                if constexpr (std::is_copy_constructible_v<T>)
                {
                    auto copy = items[i];
                    items.push_back(std::move(copy));
                }
                ctx.count("copies");
                break;
            case 1: // move
            {
                log(cat("move ", name, " ", i));
                auto moved = std::move(items[i]);
                if (rng.chance(0.5)) std::swap(items[i], items.back());
                else items[i] = std::move(items.back());
                items.pop_back();
                if (items.empty() || rng.chance(0.5)) items.push_back(std::move(moved));
                else items.insert(items.begin(), std::move(moved));
                break;
            }
            case 2: // overwrite
                log(cat("assign ", name, " ", i, " = ", j));
                if constexpr (std::is_copy_assignable_v<T>) items[i] = items[j];
                else if (i != j) { items[i] = std::move(items[j]); items.erase(items.begin() + ptrdiff_t(j)); }
                ctx.count("overwritten");
                break;
            case 3:
                log(cat("swap ", name, " ", i, " ", j));
                std::swap(items[i].value, items[j].value);
                std::swap(items[i].expected, items[j].expected);
                std::swap(items[i].node, items[j].node);
                break;
            case 4:
            case 5:
                log(cat("destroy ", name, " ", i));
                items.erase(items.begin() + ptrdiff_t(i));
                ctx.count("destroyed");
                break;
            case 6:
            {
                log(cat("replace ", name, " ", i));
                auto old = std::move(items[i]);
                items[i] = Item<T>(std::move(old));
                break;
            }
            case 7:
                items.reserve(items.size() * 2 + 1);
                break;
            }
            drop_unanchored();
        }

        void add_results(const ParsedArguments& root)
        {
            add(results, root, nodes++);
            ctx.count("parsed");
        }

        void parse()
        {
            if (parsers.empty() || rng.chance(0.3))
            {
                auto spec = rng.pick(specs);
                auto p = build_parser(&rng, spec, std::make_shared<Recorder>(), &error_stream());
                parsers.emplace_back(std::make_unique<ArgumentParser>(std::move(p)), spec);
                log("new parser");
            }
            const auto i = rng.below(parsers.size());
            auto& [parser, spec] = parsers[i];
            const bool use_const = rng.chance(0.6);
            const bool iterate = rng.chance(0.35);
            log(cat(iterate ? "iterate " : "parse ", i, use_const ? " const" : ""));
            auto line = std::make_unique<CommandLine>(gen_args(rng, spec, profile));
            const auto& const_parser = *parser;
            const bool argv = rng.chance(0.5);
            if (iterate)
            {
                LiveIterator l;
                l.it = std::make_unique<ArgumentIterator>(
                    use_const ? (argv ? const_parser.make_iterator(line->argc(), line->argv.data()) : const_parser.make_iterator(line->args))
                              : (argv ? parser->make_iterator(line->argc(), line->argv.data()) : parser->make_iterator(line->args)));
                l.line = std::move(line);
                iterators.push_back(std::move(l));
                ctx.count("argument_iterators");
            }
            else
            {
                auto res = use_const ? (argv ? const_parser.parse(line->argc(), line->argv.data()) : const_parser.parse(line->args))
                                     : (argv ? parser->parse(line->argc(), line->argv.data()) : parser->parse(line->args));
                line.reset();
                add_results(res);
            }
            if (!use_const || rng.chance(0.3))
            {
                log("destroy parser");
                parsers.erase(parsers.begin() + ptrdiff_t(i));
                ctx.count("parsers_destroyed");
            }
        }

        void step_iterator()
        {
            if (iterators.empty()) return;
            const auto i = rng.below(iterators.size());
            bool finished = false;
            log(cat("step ", i));
            for (int n = rng.range(1, 6); n > 0 && !finished; --n)
            {
                auto& l = iterators[i];
                if (rng.chance(0.3)) l.results.push_back(l.it->parsed_arguments());
                if (rng.chance(0.2)) l.it = std::make_unique<ArgumentIterator>(std::move(*l.it));
                if (rng.chance(0.1))
                {
                    // Move assignment over another, that ends
                    auto other = ArgumentParser("other", false).auto_exit(false).stream(&error_stream()).move()
                        .make_iterator(std::vector<std::string_view>());
                    other = std::move(*l.it);
                    *l.it = std::move(other);
                }
                std::unique_ptr<IArgumentView> arg;
                std::string_view value;
                finished = !l.it->next(arg, value);
                l.check_values(ctx);
                if (!finished && has_lasting_value(arg.get()) && rng.chance(0.5))
                {
                    l.values.push_back({l.it->parsed_arguments(), value, std::string(value)});
                    ctx.count("values_of_steps");
                }
                if (!finished && arg)
                    l.views.emplace_back(std::move(arg), "");
                if (!l.views.empty() && l.views.back().second.empty()) l.views.back().second = dump_any(*l.views.back().first);
                for (auto& [v, s] : l.views)
                    if (dump_any(*v) != s) ctx.fail("changed-iterator-view", s);
                ctx.count("iterator_steps");
            }
            if (finished || rng.chance(0.2))
            {
                log(cat("end ", i));
                auto l = std::move(iterators[i]);
                iterators.erase(iterators.begin() + ptrdiff_t(i));
                if (l.results.empty() || rng.chance(0.5)) l.results.push_back(l.it->parsed_arguments());
                if (rng.chance(0.5)) l.line.reset();
                l.it.reset();
                l.line.reset();
                for (auto& [v, s] : l.views)
                    if (dump_any(*v) != s) ctx.fail("changed-iterator-view", s);
                l.check_values(ctx);
                for (auto& v : l.values)
                {
                    if (rng.chance(0.5)) continue;
                    add(string_views, v.view, nodes);
                    add(results, v.owner, nodes++);
                }
                // They can be the results of different commands
                const auto node = nodes;
                for (auto& r : l.results) add(results, r, nodes++);
                for (auto& [v, s] : l.views)
                    if (rng.chance(0.5)) add(views, std::move(v), node);
                ctx.count("parsed_with_iterator");
            }
        }

        void derive()
        {
            const auto what = rng.below(10);
            if (what < 6 && !results.empty())
            {
                const auto i = rng.below(results.size());
                log(cat("derive from result ", i));
                const auto a = results[i].value;
                const auto node = results[i].node;
                // Subcommands
                for (auto& s : a.subcommands())
                {
                    if (!rng.chance(0.5)) continue;
                    add(results, s, nodes++);
                    ctx.count("subcommand_results");
                }
                auto args = a.all_arguments();
                auto opts = a.all_options();
                auto cmds = a.all_subcommands();
                std::vector<const IArgumentView*> all;
                for (auto& v : args) all.push_back(v.get());
                for (auto& v : opts) all.push_back(v.get());
                for (auto v : all)
                {
                    if (!rng.chance(0.4)) continue;
                    auto l = a.values(*v);
                    if (l.size() == 1 && rng.chance(0.5)) add(values, a.value(*v), node);
                    else if (rng.chance(0.5)) add(lists, std::move(l), node);
                    else
                    {
                        Place p{std::make_unique<ArgumentValues>(std::move(l)), {}};
                        p.it = p.values->begin();
                        if (p.it != p.values->end() && rng.chance(0.5)) p.it++;
                        add(places, std::move(p), node);
                    }
                    if (rng.chance(0.3)) add(strings, &v->section(), node);
                    if (rng.chance(0.3)) add(strings, &v->alias(), node);
                }
                for (auto& v : args)
                    if (rng.chance(0.2)) add(strings, &v->name(), node);
                for (auto& v : opts)
                    if (rng.chance(0.2)) add(string_lists, &v->flags(), node);
                if (rng.chance(0.3)) add(string_lists, &a.unprocessed_arguments(), node);
                if (rng.chance(0.3)) add(string_views, a.name(), node);
                if (rng.chance(0.4)) add(command_views, a.command(), node);
                if (rng.chance(0.2))
                    for (auto& v : a.command().options()) add(option_views, v, node);
                if (rng.chance(0.2))
                    for (auto& v : a.command().arguments()) add(argument_views, v, node);
                if (rng.chance(0.2))
                    for (auto& v : a.command().subcommands()) add(command_views, v, node);
                if (a.result_code() == ParserResultCode::STOP && rng.chance(0.5)) add(option_views, a.stop_option(), node);
                for (auto& v : cmds)
                    if (rng.chance(0.2)) add<std::unique_ptr<IArgumentView>>(views, std::move(v), node);
                for (auto& v : args)
                    if (rng.chance(0.2)) add<std::unique_ptr<IArgumentView>>(views, std::move(v), node);
                for (auto& v : opts)
                    if (rng.chance(0.2)) add<std::unique_ptr<IArgumentView>>(views, std::move(v), node);
            }
            else if (what < 8 && !lists.empty())
            {
                const auto i = rng.below(lists.size());
                log(cat("derive from list ", i));
                const auto l = lists[i].value;
                const auto node = lists[i].node;
                if (!l.empty()) add(values, l.value(rng.below(l.size())), node);
                if (rng.chance(0.5))
                    for (auto& v : l.values()) add(values, v, node);
                // The same values, from iterators
                if (rng.chance(0.5))
                    for (auto v : l)
                        if (rng.chance(0.6)) add(values, v, node);
                if (!l.empty() && rng.chance(0.3))
                {
                    auto it = l.begin();
                    for (auto n = rng.below(l.size()); n > 0; --n) rng.chance(0.5) ? (void)++it : (void)it++;
                    auto other = it;
                    add(values, *other, node);
                    add(values, l[rng.below(l.size())], node);
                }
                if (rng.chance(0.5)) add(lists, l.split(rng.pick({',', 'a', ' '})), node);
                for (auto& a : l.arguments()) add(views, std::move(a), node);
                for (auto s : l.raw_values()) add(string_views, s, node);
            }
            else if (what == 8 && !places.empty())
            {
                const auto i = rng.below(places.size());
                log(cat("derive from iterator ", i));
                const auto node = places[i].node;
                auto& p = places[i].value;
                if (p.it != p.values->end())
                {
                    add(values, *p.it, node);
                    ctx.count("values_from_iterators");
                }
                Place q{std::make_unique<ArgumentValues>(*p.values), {}};
                q.it = q.values->begin();
                add(places, std::move(q), node);
            }
            else if (!values.empty())
            {
                const auto i = rng.below(values.size());
                log(cat("derive from value ", i));
                const auto v = values[i].value;
                const auto node = values[i].node;
                if (v) add(string_views, *v.value(), node);
                if (auto a = v.argument()) add(views, std::move(a), node);
                if (rng.chance(0.5)) add(lists, v.split(rng.pick({',', 'a', ' '})), node);
            }
        }

        void change_parsers()
        {
            if (parsers.empty()) return;
            const auto i = rng.below(parsers.size());
            auto& [p, spec] = parsers[i];
            log(cat("change parser ", i));
            switch (rng.below(5))
            {
            case 0: // Not valid afterwards
                (void)exception_of([&] { p->add(Option("--extra")).about("CHANGED").text(TextId::USAGE, "CHANGED").version("7"); });
                parsers.erase(parsers.begin() + ptrdiff_t(i));
                break;
            case 1: p = std::make_unique<ArgumentParser>(std::move(*p)); break;
            case 2: *p = build_parser(&rng, spec, std::make_shared<Recorder>(), &error_stream()); break;
            case 3: parsers.erase(parsers.begin() + ptrdiff_t(i)); break;
            case 4:
            {
                auto moved = p->move();
                p.reset();
                p = std::make_unique<ArgumentParser>(std::move(moved));
                break;
            }
            }
            ctx.count("changed_parsers");
        }

        void check_some(double p)
        {
            for_each_list([&](auto& items)
            {
                for (auto& i : items)
                    if (rng.chance(p)) check(i);
            });
        }

        size_t total()
        {
            size_t n = 0;
            for_each_list([&](auto& items) { n += items.size(); });
            return n;
        }

        void trim()
        {
            // Not too many
            for_each_list([&](auto& items)
            {
                while (items.size() > 30)
                {
                    items[rng.below(items.size())] = std::move(items.back());
                    items.pop_back();
                }
            });
            drop_unanchored();
        }

        void step()
        {
            switch (rng.weighted({2, 3, 4, 3, 2, 2, 1, 1}))
            {
            case 0: parse(); break;
            case 1: step_iterator(); break;
            case 2: derive(); break;
            case 3: shuffle_items(results); break;
            case 4: shuffle_items(values); break;
            case 5: shuffle_items(lists); break;
            case 6: shuffle_items(places); break;
            case 7: change_parsers(); break;
            }
            trim();
        }
    };

    void run(Ctx& ctx)
    {
        Rng& rng = ctx.rng;
        World w{ctx, rng, {}, {}, {}, {}};
        w.profile.commands = 0.5;
        w.profile.multi = 0.7;
        w.profile.callbacks = 0.2;
        w.profile.actions = 0.2;
        w.profile.insert = 0.2;
        w.profile.initial = 0.3;
        w.profile.mutate = 0.15;
        if (rng.chance(0.1)) w.profile.max_optional_uses = 80;
        for (int i = 0; i < 2; ++i)
        {
            auto spec = gen_spec(rng, w.profile);
            Decoration d;
            d.long_texts = d.odd_layout = false;
            decorate(rng, spec, d);
            spec.line_width = 200;
            w.trace += describe(spec);
            w.specs.push_back(std::move(spec));
        }
        w.log("");
        w.parse();
        const int steps = rng.range(10, 40);
        for (int i = 0; i < steps; ++i)
        {
            w.step();
            w.check_some(0.15);
        }
        w.log("the end");
        w.iterators.clear();
        w.parsers.clear();
        w.check_some(1);
        ctx.nontrivial = w.total() > 3;
        // Destroy everything in random order
        while (!w.results.empty() || !w.values.empty() || !w.lists.empty() || !w.places.empty())
        {
            const auto remove = [&](auto& items)
            {
                for (auto n = items.empty() ? 0 : rng.below(items.size()) + 1; n > 0; --n)
                {
                    std::swap(items[rng.below(items.size())], items.back());
                    items.pop_back();
                    ctx.count("destroyed");
                }
            };
            switch (rng.below(4))
            {
            case 0: remove(w.results); break;
            case 1: remove(w.values); break;
            case 2: remove(w.lists); break;
            case 3: remove(w.places); break;
            }
            w.drop_unanchored();
            w.check_some(0.5);
        }
        ctx.add_sig(w.trace);
    }
}

namespace vf
{
    const Property property = {
        "C24",
        "a random history of parsing, and of copying, moving, overwriting and destroying parsers, iterators, results, values and views; non-trivial: "
        "at least four things remained in the end",
        run,
        {"results", "values", "value_lists", "value_iterators", "views", "command_views", "option_views", "argument_views", "string_views", "strings",
         "string_lists", "copies", "overwritten", "destroyed", "parsed", "argument_iterators", "parsed_with_iterator", "iterator_steps", "values_of_steps", "values_from_iterators",
         "subcommand_results", "changed_parsers", "parsers_destroyed"},
    };
}
