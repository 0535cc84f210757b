// Framework: deterministic cases, event counters, failures.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <locale>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace vf
{
    inline uint64_t mix(uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    inline uint64_t hash_str(std::string_view s, uint64_t h = 0xcbf29ce484222325ull)
    {
        for (unsigned char c : s)
        {
            h ^= c;
            h *= 0x100000001b3ull;
        }
        return mix(h ^ s.size());
    }

    // Source of all the decisions: either a seeded generator or the bytes
    // provided by a coverage guided fuzzer.
    class Rng
    {
    public:
        explicit Rng(uint64_t seed) : m_state(seed) {}
        Rng(const uint8_t* data, size_t size) : m_data(data), m_size(size), m_bytes(true) {}

        uint64_t next()
        {
            if (m_bytes)
            {
                uint64_t v = 0;
                for (int i = 0; i < 2; ++i)
                {
                    v <<= 8;
                    if (m_pos < m_size)
                        v |= m_data[m_pos++];
                }
                return v;
            }
            m_state += 0x9e3779b97f4a7c15ull;
            uint64_t z = m_state;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }

        // 0 <= result < n
        size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
        // lo <= result <= hi
        int range(int lo, int hi) { return lo + int(below(size_t(hi - lo + 1))); }
        bool chance(double p)
        {
            if (p <= 0) return false;
            if (p >= 1) return true;
            return double(next() % 10000) < p * 10000;
        }
        template <typename T>
        const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
        template <typename T>
        T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
        // Index chosen according to weights
        size_t weighted(std::initializer_list<double> w)
        {
            double sum = 0;
            for (auto x : w) sum += x;
            double r = double(next() % 1000000) / 1000000.0 * sum;
            size_t i = 0;
            for (auto x : w)
            {
                if (r < x) return i;
                r -= x;
                ++i;
            }
            return w.size() - 1;
        }
        template <typename T>
        void shuffle(std::vector<T>& v)
        {
            for (size_t i = v.size(); i > 1; --i)
                std::swap(v[i - 1], v[below(i)]);
        }
    private:
        uint64_t m_state = 0;
        const uint8_t* m_data = nullptr;
        size_t m_size = 0;
        size_t m_pos = 0;
        bool m_bytes = false;
    };

    // Thrown by Ctx::fail: the property does not hold for the current case.
    struct Failure
    {
        std::string key;
        std::string detail;
    };

    // Thrown by harness code if the harness itself is broken.
    struct HarnessError : std::logic_error
    {
        using std::logic_error::logic_error;
    };

    using Counters = std::map<std::string, uint64_t>;

    struct Ctx
    {
        Rng rng;
        uint64_t index = 0;
        uint64_t seed = 0;
        bool verbose = false;
        bool thorough = false;
        std::string desc;
        uint64_t sig = 0;
        bool nontrivial = false;
        Counters* counters = nullptr;
        uint64_t observed = 0; // hash of everything logged

        explicit Ctx(Rng r) : rng(std::move(r)) {}

        [[noreturn]] void fail(std::string key, std::string detail)
        {
            throw Failure{std::move(key), std::move(detail)};
        }

        void check(bool ok, const char* key, const std::function<std::string()>& detail)
        {
            count("monitor_checks");
            if (!ok)
                fail(key, detail());
        }

        void count(const std::string& name, uint64_t n = 1)
        {
            if (counters)
                (*counters)[name] += n;
        }

        // Logs something observed, the logs of different builds can be compared.
        void log(const std::string& s);

        // Describes the case, must be called before the code under test runs.
        void describe(std::string text);

        // Adds to the signature that decides whether cases are distinct.
        void add_sig(std::string_view s) { sig = mix(sig ^ hash_str(s)); }
        void add_sig(uint64_t n) { sig = mix(sig ^ mix(n)); }
    };

    struct Property
    {
        const char* id;
        // What makes a case and what makes it non-trivial.
        const char* rule;
        void (*run)(Ctx&);
        // Counters that must be non-zero at the end of every run.
        std::vector<const char*> required;
        // Executed once per worker process before the first case.
        void (*init)() = nullptr;
        // Executed once per worker process after the last case.
        void (*finish)(Ctx&) = nullptr;
    };

    // Defined by the source file of each check.
    extern const Property property;

    std::string quote(std::string_view s);
    std::string join_quoted(const std::vector<std::string>& v);

    // The harness' own numbers mustn't depend on the global locale.
    struct TextStream : std::ostringstream
    {
        TextStream() { imbue(std::locale::classic()); }
    };

    template <typename... T>
    std::string cat(const T&... t)
    {
        vf::TextStream ss;
        (ss << ... << t);
        return ss.str();
    }

    // Runs fn and returns the name of the exception it threw, or an empty
    // string. what receives the message.
    std::string exception_of(const std::function<void()>& fn, std::string* what = nullptr);
}
