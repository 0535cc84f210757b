// Worker: runs a range of cases of one property.
#include "vf.hpp"
#include <clocale>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <cxxabi.h>
#include <Argos/Argos.hpp>

namespace vf
{
    std::string quote(std::string_view s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c == '\n') r += "\\n";
            else if (c == '\r') r += "\\r";
            else if (c == '\t') r += "\\t";
            else if (c < 32 || c >= 127)
            {
                char buf[8];
                snprintf(buf, sizeof buf, "\\u%04x", c);
                r += buf;
            }
            else r += char(c);
        }
        return r + "\"";
    }

    std::string join_quoted(const std::vector<std::string>& v)
    {
        std::string r = "[";
        for (auto& s : v)
        {
            if (r.size() > 1) r += ", ";
            r += quote(s);
        }
        return r + "]";
    }

    void Ctx::describe(std::string text)
    {
        desc = std::move(text);
        if (verbose)
        {
            fprintf(stderr, "--- case %llu\n%s\n---\n", (unsigned long long)index, desc.c_str());
            fflush(stderr);
        }
    }

    static std::string demangle(const char* name)
    {
        int status = 0;
        char* s = abi::__cxa_demangle(name, nullptr, nullptr, &status);
        std::string r = s ? s : name;
        free(s);
        return r;
    }

    void Ctx::log(const std::string& s)
    {
        count("logged");
        observed = mix(observed ^ hash_str(s));
        if (verbose)
            fprintf(stderr, "VF-LOG: %s\n", quote(s).c_str());
    }

    std::string exception_of(const std::function<void()>& fn, std::string* what)
    {
        try
        {
            fn();
            return {};
        }
        catch (Failure&) { throw; }
        catch (HarnessError&) { throw; }
        catch (argos::ArgosException& ex)
        {
            if (what) *what = ex.what();
            return "argos::ArgosException";
        }
        catch (std::exception& ex)
        {
            if (what) *what = ex.what();
            return demangle(typeid(ex).name());
        }
        catch (...)
        {
            return "unknown";
        }
    }
}

using namespace vf;

namespace
{
    constexpr int CASE_CPU_SECONDS = 40;

    void on_timer(int)
    {
        static const char msg[] = "VF-HANG: the case used too much CPU time\n";
        (void)!write(2, msg, sizeof msg - 1);
        abort();
    }

    void set_timer(int seconds)
    {
        itimerval tv = {};
        tv.it_value.tv_sec = seconds;
        setitimer(ITIMER_PROF, &tv, nullptr);
    }

    struct FailureRecord { uint64_t index; std::string key, detail, desc; };

    struct OddNumbers : std::numpunct<char>
    {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\1\2"; }
        std::string do_truename() const override { return "ja"; }
        std::string do_falsename() const override { return "nei"; }
    };

    // Some of the cases run in programs that have selected other locales.
    struct Environment
    {
        explicit Environment(Ctx& ctx)
        {
            const auto h = mix(ctx.seed ^ mix(ctx.index ^ 0x10ca1e));
            m_cpp = h % 8 == 0;
            m_c = h % 16 == 5;
            if (m_cpp)
            {
                static const std::locale odd(std::locale::classic(), new OddNumbers);
                std::locale::global(odd);
                ctx.count("cases_with_other_cpp_locale");
            }
            if (m_c && setlocale(LC_ALL, "C.UTF-8"))
                ctx.count("cases_with_other_c_locale");
        }

        ~Environment()
        {
            if (m_cpp) std::locale::global(std::locale::classic());
            if (m_c || m_cpp) setlocale(LC_ALL, "C");
        }

        bool m_cpp, m_c;
    };

    // The keys in KNOWN_FINDINGS.txt, one on each line
    bool is_known_finding(const std::string& key)
    {
        static const std::string keys = [] { const char* s = getenv("VF_KNOWN"); return cat("\n", s ? s : "", "\n"); }();
        return keys.find("\n" + key + "\n") != std::string::npos;
    }

    void run_case(Ctx& ctx, std::vector<FailureRecord>& failures)
    {
        Environment environment(ctx);
        try
        {
            property.run(ctx);
        }
        catch (Failure& f)
        {
            if (is_known_finding(f.key)) ctx.count("known_finding_" + f.key);
            else failures.push_back({ctx.index, f.key, f.detail, ctx.desc});
        }
        catch (HarnessError&)
        {
            throw;
        }
        catch (std::exception& ex)
        {
            failures.push_back({ctx.index,
                                "unexpected-exception:" + demangle(typeid(ex).name()),
                                ex.what(), ctx.desc});
        }
    }
}

#ifdef VF_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    static bool init_done = [] { if (property.init) property.init(); return true; }();
    (void)init_done;
    static Counters counters;
    Ctx ctx{Rng(data, size)};
    ctx.counters = &counters;
    ctx.verbose = getenv("VF_VERBOSE") != nullptr;
    std::vector<FailureRecord> failures;
    run_case(ctx, failures);
    if (!failures.empty())
    {
        fprintf(stderr, "VF-FAILURE: %s\n%s\n%s\n", failures[0].key.c_str(),
                failures[0].detail.c_str(), failures[0].desc.c_str());
        abort();
    }
    return 0;
}
#else
int main(int argc, char* argv[])
{
    std::map<std::string, std::string> opts;
    for (int i = 1; i + 1 < argc; i += 2)
        opts[argv[i]] = argv[i + 1];
    const uint64_t seed = std::stoull(opts["--seed"]);
    const uint64_t begin = std::stoull(opts["--begin"]);
    const uint64_t end = std::stoull(opts["--end"]);
    const bool verbose = opts["--verbose"] == "1";
    const bool thorough = opts["--tier"] == "thorough";
    const size_t max_samples = opts.contains("--samples") ? std::stoul(opts["--samples"]) : 0;

    volatile uint64_t* progress = nullptr;
    if (opts.contains("--progress"))
    {
        int fd = open(opts["--progress"].c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 16) != 0)
            return 3;
        void* p = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED)
            return 3;
        progress = static_cast<volatile uint64_t*>(p);
        close(fd);
    }
    signal(SIGPROF, on_timer);
    signal(SIGPIPE, SIG_IGN);

    Counters counters;
    std::vector<FailureRecord> failures;
    std::unordered_set<uint64_t> sigs;
    std::vector<std::pair<uint64_t, std::string>> samples;
    std::vector<std::pair<uint64_t, uint64_t>> log;
    uint64_t evaluations = 0;
    const uint64_t prop_hash = hash_str(property.id);
    try
    {
        if (property.init)
            property.init();
        for (uint64_t i = begin; i < end && failures.size() < 10; ++i)
        {
            if (progress)
            {
                progress[0] = i;
                progress[1] = 1;
            }
            set_timer(CASE_CPU_SECONDS * (thorough ? 3 : 1));
            Ctx ctx{Rng(mix(seed * 1000003 + 17) ^ mix(prop_hash + i * 2654435761ull))};
            ctx.index = i;
            ctx.seed = seed;
            ctx.verbose = verbose;
            ctx.thorough = thorough;
            ctx.counters = &counters;
            run_case(ctx, failures);
            ++evaluations;
            if (ctx.observed)
                log.emplace_back(i, ctx.observed);
            if (ctx.nontrivial && sigs.insert(ctx.sig).second && samples.size() < max_samples)
                samples.emplace_back(i, ctx.desc);
        }
        set_timer(0);
        if (property.finish)
        {
            Ctx ctx{Rng(seed)};
            ctx.counters = &counters;
            ctx.index = end;
            try { property.finish(ctx); }
            catch (Failure& f) { failures.push_back({end, f.key, f.detail, ctx.desc}); }
        }
    }
    catch (HarnessError& ex)
    {
        fprintf(stderr, "VF-HARNESS-ERROR: %s\n", ex.what());
        return 4;
    }
    if (progress)
        progress[1] = 2;

    if (opts.contains("--out"))
    {
        std::ofstream out(opts["--out"]);
        out << "{\"evaluations\": " << evaluations << ",\n\"rule\": " << quote(property.rule)
            << ",\n\"required\": [";
        for (size_t i = 0; i < property.required.size(); ++i)
            out << (i ? ", " : "") << quote(property.required[i]);
        out << "],\n\"counters\": {";
        bool first = true;
        for (auto& [k, v] : counters)
        {
            out << (first ? "" : ", ") << quote(k) << ": " << v;
            first = false;
        }
        out << "},\n\"failures\": [";
        for (size_t i = 0; i < failures.size(); ++i)
        {
            auto& f = failures[i];
            out << (i ? ",\n" : "") << "{\"case\": " << f.index << ", \"key\": " << quote(f.key)
                << ", \"detail\": " << quote(f.detail) << ", \"desc\": " << quote(f.desc) << "}";
        }
        out << "],\n\"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i)
            out << (i ? ",\n" : "") << "{\"case\": " << samples[i].first << ", \"desc\": "
                << quote(samples[i].second) << "}";
        out << "]}\n";
        std::ofstream sf(opts["--out"] + ".sigs", std::ios::binary);
        for (auto s : sigs)
            sf.write(reinterpret_cast<const char*>(&s), sizeof s);
        if (!log.empty())
        {
            std::ofstream lf(opts["--out"] + ".log", std::ios::binary);
            for (auto& [i, h] : log)
            {
                lf.write(reinterpret_cast<const char*>(&i), sizeof i);
                lf.write(reinterpret_cast<const char*>(&h), sizeof h);
            }
        }
    }
    for (auto& f : failures)
    {
        fprintf(stderr, "FAILED case %llu: %s\n%s\n%s\n", (unsigned long long)f.index,
                f.key.c_str(), f.detail.c_str(), f.desc.c_str());
    }
    return failures.empty() ? 0 : 1;
}
#endif
