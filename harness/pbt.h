// pbt.h - a small property-based-testing engine (C++14, header only).
//
// Every random decision of a case is an integer choice drawn from a Ctx. The sequence of
// choices is the case: it is regenerated from (seed, facet, index), it is what gets shrunk,
// and it is what a replay file stores. Cases run in forked worker processes so that a
// sanitizer abort, a crash, an uncaught exception or a hang of the code under test is an
// observation and not the end of the run. The same facets are driven from a byte buffer
// under libFuzzer when PBT_FUZZ is defined.
#ifndef PBT_H_
#define PBT_H_

#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

struct Failure { std::string msg; };

struct Rng // splitmix64
{
    std::uint64_t s;
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    Rng r{ a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull) };
    r.next();
    return r.next();
}

/// Printable, escaped form of a byte string for logs (independent of the library).
inline std::string show(const char* p, std::size_t n)
{
    std::string r = "\"";
    for (std::size_t i = 0; i < n; ++i)
    {
        unsigned char c = static_cast<unsigned char>(p[i]);
        char buf[8];
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c >= 32 && c < 127) r += static_cast<char>(c);
        else { std::snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
        if (r.size() > 3000) { r += "...(" + std::to_string(n) + " bytes)"; break; }
    }
    return r + "\"";
}
inline std::string show(const std::string& s) { return show(s.data(), s.size()); }
inline std::string show(const char* s) { return show(s, std::strlen(s)); }
inline std::string show(bool b) { return b ? "true" : "false"; }
inline std::string show(char c) { return show(&c, 1); }
inline std::string show(double d)
{
    char b[64]; std::snprintf(b, sizeof b, "%.17g (%a)", d, d); return b;
}
inline std::string show(float d)
{
    char b[64]; std::snprintf(b, sizeof b, "%.9g (%a)", static_cast<double>(d), static_cast<double>(d)); return b;
}
inline std::string show(long double d)
{
    char b[80]; std::snprintf(b, sizeof b, "%.21Lg (%La)", d, d); return b;
}
template <typename T>
inline std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value
    && !std::is_same<T, char>::value, std::string>
show(T v) { return std::to_string(v); }
template <typename T>
std::string show(const std::vector<T>& v)
{
    std::string r = "[";
    std::size_t i = 0;
    for (const auto& e : v)
    {
        if (r.size() > 2000) { r += ", ...(" + std::to_string(v.size()) + ")"; break; }
        if (i++) r += ", ";
        r += show(e);
    }
    return r + "]";
}

class Ctx
{
public:
    // --- source ---
    enum class Mode { random, replay, bytes };
    Mode mode{ Mode::random };
    Rng rng{ 0 };
    std::vector<std::uint64_t> choices; // recorded (random/bytes) or to be replayed
    std::size_t pos{ 0 };
    const std::uint8_t* bytes{ nullptr };
    std::size_t nbytes{ 0 };

    // Shared-memory mirror of the recorded choices ([0] = count), so that the parent can
    // read them after this process died.
    std::uint64_t* mirror{ nullptr };
    std::size_t mirror_cap{ 0 };

    bool verbose{ false };
    std::string log;
    char* live_log{ nullptr };
    std::size_t live_used{ 0 }, live_cap{ 0 };
    bool nontrivial_{ false };
    std::uint64_t hash{ 1469598103934665603ull };
    std::map<std::string, std::uint64_t>* labels{ nullptr };
    int tier{ 0 }; // 0 quick, 1 thorough

    /// Uniform integer in [0, n), n >= 1. Shrinks towards 0.
    std::uint64_t below(std::uint64_t n)
    {
        std::uint64_t v = 0;
        if (n <= 1) return 0;
        switch (mode)
        {
        case Mode::random:
            v = rng.next() % n;
            if (mirror && mirror[0] + 1 < mirror_cap) { mirror[mirror[0] + 1] = v; ++mirror[0]; }
            break;
        case Mode::replay:
            if (pos < choices.size()) v = choices[pos] < n ? choices[pos] : choices[pos] % n;
            break;
        case Mode::bytes:
        {
            int need = 1;
            while (need < 8 && (n - 1) >> (8 * need)) ++need;
            while (need-- > 0 && nbytes > 0) { v = (v << 8) | *bytes++; --nbytes; }
            v %= n;
            if (mirror && mirror[0] + 1 < mirror_cap) { mirror[mirror[0] + 1] = v; ++mirror[0]; }
            break;
        }
        }
        ++pos;
        if (pos > 2000000) throw Failure{ "harness: runaway case (too many choices)" };
        hash = (hash ^ v) * 1099511628211ull;
        hash ^= hash >> 29;
        return v;
    }
    std::uint64_t u64()
    {
        std::uint64_t hi = below(1ull << 32);
        return (hi << 32) | below(1ull << 32);
    }
    std::int64_t range(std::int64_t lo, std::int64_t hi) // inclusive, shrinks to lo
    {
        return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
    }
    std::size_t size(std::size_t max) { return static_cast<std::size_t>(below(max + 1)); }
    /// True with probability num/den. Shrinks to false.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool coin() { return below(2) == 1; }
    /// Loop helper: "one more?" with an expected number of `avg` repetitions, at most max.
    bool more(std::size_t& count, std::size_t avg, std::size_t max)
    {
        if (count >= max) return false;
        if (!chance(static_cast<unsigned>(avg), static_cast<unsigned>(avg + 1))) return false;
        ++count;
        return true;
    }
    template <typename T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <typename C>
    const typename C::value_type& pick_from(const C& c) { return c[below(c.size())]; }
    std::size_t weighted(std::initializer_list<unsigned> w)
    {
        std::uint64_t sum = 0;
        for (auto x : w) sum += x;
        std::uint64_t r = below(sum);
        std::size_t i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }

    // --- typed generators ---
    template <typename T>
    T integer() // edge-biased over the whole type
    {
        using L = std::numeric_limits<T>;
        switch (weighted({ 6, 3, 3, 3 }))
        {
        case 0: return static_cast<T>(static_cast<T>(below(20)) - (L::is_signed ? 8 : 0));
        case 1: return static_cast<T>(u64());
        case 2: // near a power of two
        {
            std::uint64_t p = std::uint64_t{ 1 } << below(sizeof(T) * 8);
            return static_cast<T>((coin() ? std::uint64_t{ 0 } - p : p) + below(5) - 2);
        }
        default:
            return coin() ? static_cast<T>(L::max() - static_cast<T>(below(4)))
                          : static_cast<T>(L::min() + static_cast<T>(below(4)));
        }
    }
    std::string str_from(const std::string& alphabet, std::size_t avg, std::size_t max)
    {
        std::string s;
        std::size_t n = 0;
        while (more(n, avg, max)) s += alphabet[below(alphabet.size())];
        return s;
    }
    /// An arbitrary byte string: mixes small alphabets and full bytes.
    std::string bytes_str(std::size_t avg, std::size_t max)
    {
        std::string s;
        std::size_t n = 0;
        while (more(n, avg, max))
        {
            switch (weighted({ 6, 3, 2, 1 }))
            {
            case 0: s += static_cast<char>('a' + below(3)); break;
            case 1: s += static_cast<char>(32 + below(95)); break;
            case 2: s += static_cast<char>(below(256)); break;
            default: s += pick<char>({ '\0', ' ', '\t', '\n', '\r', '\\', '"', 'Z', '\x7f', '\x80', '\xff' }); break;
            }
        }
        return s;
    }

    // --- reporting ---
    void nontrivial() { nontrivial_ = true; }
    void label(const char* name) { if (labels) ++(*labels)[name]; }
    void label_if(bool b, const char* name) { if (b) label(name); }
    void note(const std::string& s)
    {
        if (!verbose || log.size() >= 60000) return;
        log += s;
        log += '\n';
        if (live_log) // survives a crash or a hang of this process
        {
            const std::size_t n = std::min<std::size_t>(s.size(), 4096);
            if (live_used + n + 2 < live_cap)
            {
                std::memcpy(live_log + live_used, s.data(), n);
                live_used += n;
                live_log[live_used++] = '\n';
                live_log[live_used] = 0;
            }
        }
    }
    template <typename F> void note_f(F f) { if (verbose) note(f()); }
    [[noreturn]] void fail(const std::string& m) { throw Failure{ m }; }
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
/// Oracle assertion: the message expression is evaluated only on failure.
#define PBT_CHECK(ctx, cond, msg)                                                       \
    do {                                                                                \
        if (!(cond)) {                                                                  \
            std::ostringstream pbt_os_;                                                 \
            pbt_os_ << #cond << " failed: " << msg;                                     \
            (ctx).fail(pbt_os_.str());                                                  \
        }                                                                               \
    } while (false)

using Fn = std::function<void(Ctx&)>;

struct Facet
{
    std::string name;
    Fn fn;
    std::uint64_t quick_cases;
    std::uint64_t thorough_cases;
};

struct Config
{
    const char* rule = "";                     ///< what counts as non-trivial
    std::vector<const char*> assumptions;
    unsigned hang_s = 20;                      ///< a case that does not end in this time hangs
    bool concurrent = false;                   ///< outcome may depend on the schedule
    unsigned workers = 8;
    unsigned time_cap_s_quick = 240;           ///< stop generating (not a violation)
    unsigned time_cap_s_thorough = 7000;
};

inline std::vector<Facet>& facets() { static std::vector<Facet> f; return f; }
inline Config& config() { static Config c; return c; }

struct Register
{
    Register(const char* name, Fn fn, std::uint64_t q, std::uint64_t t)
    { facets().push_back({ name, std::move(fn), q, t }); }
};
#define PBT_FACET(fname, q, t)                                                          \
    static void PBT_CAT(pbt_facet_, fname)(pbt::Ctx&);                                  \
    static pbt::Register PBT_CAT(pbt_reg_, fname){ #fname, PBT_CAT(pbt_facet_, fname), q, t }; \
    static void PBT_CAT(pbt_facet_, fname)(pbt::Ctx & c)

// ------------------------------------------------------------------------------------
// Running one case in this process. Returns an empty string if it passed.

inline std::string run_case(const Facet& f, Ctx& c)
{
    try
    {
        f.fn(c);
    }
    catch (const Failure& e)
    {
        return e.msg.empty() ? "failed" : e.msg;
    }
    catch (const std::exception& e)
    {
        return std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    }
    catch (...)
    {
        return "unexpected exception of unknown type";
    }
    return {};
}

} // namespace pbt

/// Historic end-of-harness marker; the entry point is in pbt_main.cc.
#define PBT_MAIN

#endif // PBT_H_
