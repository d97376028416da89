// Common support for the harnesses: arguments, random numbers, violation and summary output.
// Protocol on stdout (one line each):   V <kind>\t<json>     violation
//                                       N <name> <count>      counter
//                                       X <json>              sample
//                                       D <hex>               distinct-case fingerprint count is summed from N
#ifndef HC_HPP
#define HC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>

#if __cplusplus >= 201703L
#define IF17(...) __VA_ARGS__
#else
#define IF17(...)
#endif
#if __cplusplus >= 202002L
#define IF20(...) __VA_ARGS__
typedef char8_t c8; typedef std::u8string s8;
#else
#define IF20(...)
typedef char c8; typedef std::string s8;
#endif

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define HC_SANITIZED 1
#else
#define HC_SANITIZED 0
#endif

namespace hc
{
    inline std::map<std::string, std::string>& args() { static std::map<std::string, std::string> m; return m; }
    inline long num(const char* n, long d) { auto it = args().find(n); return it == args().end() ? d : std::strtol(it->second.c_str(), nullptr, 0); }
    inline std::string text(const char* n, const char* d) { auto it = args().find(n); return it == args().end() ? d : it->second; }

    inline char* where() { static char w[512]; return w; }
    inline void on_death()
    {
        char b[600]; int n = std::snprintf(b, sizeof b, "\nA %s\n", where());
        (void)!::write(1, b, static_cast<size_t>(n));
    }
    inline void on_signal(int s)
    {
        char b[600]; int n = std::snprintf(b, sizeof b, "\nA %s\nG %d\n", where(), s);
        (void)!::write(1, b, static_cast<size_t>(n));
        ::signal(s, SIG_DFL); ::raise(s);
    }
    inline void on_alarm(int)
    {
        char b[600]; int n = std::snprintf(b, sizeof b, "\nA %s\nT hang\n", where());
        (void)!::write(1, b, static_cast<size_t>(n));
        ::_exit(13);
    }
    inline void init(int argc, char** argv)
    {
        std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
        for (int i = 1; i < argc; ++i)
        {
            std::string a{ argv[i] }; auto e = a.find('=');
            if (e != a.npos) args()[a.substr(0, e)] = a.substr(e + 1); else args()[a] = "1";
        }
#if HC_SANITIZED
        __sanitizer_set_death_callback(&on_death);
#else
        for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL }) ::signal(s, &on_signal);
#endif
        ::signal(SIGALRM, &on_alarm);
    }
    // start of one case: names it for the reports and re-arms the watchdog
    inline void on_step(const char* text)
    {
        std::snprintf(where(), 500, "%s", text);
        static const unsigned limit = static_cast<unsigned>(num("watchdog", 60));
        ::alarm(limit);
    }
    inline std::string esc(const std::string& s)
    {
        std::string r; char b[8];
        for (unsigned char c : s)
            if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
            else if (c < 0x20 || c > 0x7e) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += static_cast<char>(c);
        return r;
    }
    inline std::map<std::string, long>& counters() { static std::map<std::string, long> m; return m; }
    inline void count(const std::string& n, long k = 1) { counters()[n] += k; }
    inline long& violations() { static long n = 0; return n; }
    inline std::map<std::string, int>& reported() { static std::map<std::string, int> m; return m; }
    inline void violation(const std::string& kind, std::string detail)
    {
        if (detail.size() > 6000) detail = detail.substr(0, 3000) + " ... " + detail.substr(detail.size() - 3000);
        ++violations();
        if (++reported()[kind] > 3) return;
        std::printf("V %s\t{\"detail\":\"%s\",\"at\":\"%s\"}\n", kind.c_str(), esc(detail).c_str(), esc(where()).c_str());
        std::fflush(stdout);
    }
    inline void sample(const std::string& s) { static int n = 0; if (++n <= 3) std::printf("X \"%s\"\n", esc(s).c_str()); }
    inline std::set<std::uint64_t>& seen() { static std::set<std::uint64_t> s; return s; }
    inline void distinct(std::uint64_t h) { if (seen().size() < 20000) seen().insert(h); }
    inline int finish(int rc = 0)
    {
        for (auto& c : counters()) std::printf("N %s %ld\n", c.first.c_str(), c.second);
        for (auto h : seen()) std::printf("D %016llx\n", static_cast<unsigned long long>(h));
        std::printf("E done\n");
        std::fflush(stdout);
        return rc;
    }

    struct rng
    {
        std::uint64_t s;
        explicit rng(std::uint64_t seed) : s{ seed * 0xD1342543DE82EF95ULL + 0x5851F42D4C957F2DULL } { for (int i = 0; i < 4; ++i) (*this)(); }
        std::uint64_t operator()()
        {
            std::uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        // inclusive
        long in(long lo, long hi) { return lo + static_cast<long>((*this)() % static_cast<std::uint64_t>(hi - lo + 1)); }
        bool chance(int pct) { return static_cast<int>((*this)() % 100) < pct; }
        template<class C> auto& pick(C& c) { return c[(*this)() % c.size()]; }
    };
    inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); return h * 1099511628211ULL; }
    inline std::uint64_t hash(const std::string& s) { std::uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return h; }
}
#endif
