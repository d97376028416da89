// The documented configuration macros take effect. Built once per CFG by lib/config.py; prints "C <name> ok|BAD <what was seen>".
#include <chrono>
#include <cstdio>
#include <functional>
#include <ostream>
#include <string>
static void check(const char* name, const bool ok, const std::string& saw = "") { std::printf("C %s %s %s\n", name, ok ? "ok" : "BAD", saw.c_str()); }
#define CHECK(cond) check(#cond, static_cast<bool>(cond))
#define CHECK_EQ(a, b) do { const auto va = (a); const auto vb = (b); check(#a " == " #b, va == vb); } while (false)

struct fake_clock   // a clock the program advances itself
{
    typedef std::chrono::microseconds duration; typedef duration::rep rep; typedef duration::period period;
    typedef std::chrono::time_point<fake_clock, duration> time_point;
    static constexpr bool is_steady = true;
    static long long& us() { static long long v = 1700000000000042LL; return v; }
    static time_point now() { return time_point(duration(us())); }
    static std::time_t to_time_t(const time_point& t) { return static_cast<std::time_t>(t.time_since_epoch().count() / 1000000); }
};

#if CFG == 1        // every initial value of the logger
#define PLUTO_LOGGER_INITIAL_LEVEL notice
#define PLUTO_LOGGER_INITIAL_CREATE_DIRS false
#define PLUTO_LOGGER_INITIAL_WRITE_HEADER false
#define PLUTO_LOGGER_INITIAL_BUFFER_MAX_SIZE 17
#define PLUTO_LOGGER_INITIAL_BUFFER_FLUSH_SIZE 5
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_SIZE 4097
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT 6
#elif CFG == 2      // writers, clock, source info
#define PLUTO_LOGGER_CLOCK_TYPE fake_clock
#define PLUTO_LOGGER_SOURCE_INFO_ARGS "file", 7, "func"
#define PLUTO_LOGGER_INITIAL_LOG_WRITER [](std::ostream& o, const pluto::log_entry& e) { o << e.time.time_since_epoch().count() << ',' << e.source.file << ',' << e.source.line << ',' << e.source.function << ',' << e.message; }
#define PLUTO_LOGGER_INITIAL_HEADER_WRITER [](std::ostream& o) { o << "my header"; }
#elif CFG == 3      // source info hidden
#define PLUTO_LOGGER_HIDE_SOURCE_INFO 1
#define PLUTO_LOGGER_CLOCK_TYPE fake_clock
#elif CFG == 4      // priorities and clock of the pool
#define PLUTO_THREAD_POOL_PRIORITY_LOWEST -100
#define PLUTO_THREAD_POOL_PRIORITY_LOWER -50
#define PLUTO_THREAD_POOL_PRIORITY_LOW -3
#define PLUTO_THREAD_POOL_PRIORITY_NORMAL 1
#define PLUTO_THREAD_POOL_PRIORITY_HIGH 2
#define PLUTO_THREAD_POOL_PRIORITY_HIGHER 77
#define PLUTO_THREAD_POOL_PRIORITY_HIGHEST 101
#define PLUTO_THREAD_POOL_CLOCK_TYPE std::chrono::steady_clock
#elif CFG == 5      // clock of the stopwatch, locale
#define PLUTO_STOPWATCH_CLOCK_TYPE fake_clock
#define PLUTO_LOCALE_DEFAULT_LOCALE "C"
#elif CFG == 6      // locales that are not static
#define PLUTO_LOCALE_NO_STATIC 1
#elif CFG == 7      // experimental file system
#define PLUTO_FILESYSTEM_IS_EXPERIMENTAL 1
#elif CFG == 8      // 16-bit wide strings
#define PLUTO_UTILS_HAS_32_BIT_WCHAR 0
#elif CFG == 9      // no std::format, no std::source_location
#define PLUTO_UTILS_HAS_FORMAT 0
#define PLUTO_UTILS_HAS_SOURCE_LOCATION 0
#endif
#if CFG == 8        // wchar_t has 16 bits (-fshort-wchar): only the converters can be used, with wide-string primitives of our own
#include <cwchar>
extern "C" {
__attribute__((visibility("hidden"), used)) wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, std::size_t n) noexcept { for (std::size_t i = 0; i < n; ++i) { const_cast<volatile wchar_t*>(d)[i] = s[i]; } return d; }
__attribute__((visibility("hidden"), used)) wchar_t* wmemmove(wchar_t* d, const wchar_t* s, std::size_t n) noexcept { if (d < s) { for (std::size_t i = 0; i < n; ++i) { const_cast<volatile wchar_t*>(d)[i] = s[i]; } } else { while (n) { --n; const_cast<volatile wchar_t*>(d)[n] = s[n]; } } return d; }
__attribute__((visibility("hidden"), used)) wchar_t* wmemset(wchar_t* d, wchar_t c, std::size_t n) noexcept { for (std::size_t i = 0; i < n; ++i) { const_cast<volatile wchar_t*>(d)[i] = c; } return d; }
__attribute__((visibility("hidden"), used)) int wmemcmp(const wchar_t* a, const wchar_t* b, std::size_t n) noexcept { for (std::size_t i = 0; i < n; ++i) { if (a[i] != b[i]) { return a[i] < b[i] ? -1 : 1; } } return 0; }
__attribute__((visibility("hidden"), used)) std::size_t wcslen(const wchar_t* s) noexcept { std::size_t n = 0; while (static_cast<const volatile wchar_t*>(s)[n]) { ++n; } return n; }
}
#include <pluto/unicode.hpp>
#else
#include <pluto.hpp>
#endif
#include <fstream>
#include <sstream>
#include <atomic>
#include <type_traits>
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

int main(int argc, char** argv)
{
    const std::string dir{ argc > 1 ? argv[1] : "." }; (void)dir;
    setenv("TZ", "UTC", 1);
#if CFG == 0        // the defaults
    {
        pluto::logger l;
        CHECK(l.level() == pluto::log_level::verbose); CHECK(l.create_dirs()); CHECK(l.write_header());
        CHECK_EQ(l.buffer_max_size(), 0u); CHECK_EQ(l.buffer_flush_size(), 1u); CHECK_EQ(l.file_rotation_size(), 0u);
        CHECK((std::is_same<pluto::logger::clock_type, std::chrono::system_clock>::value));
        CHECK((std::is_same<pluto::log_entry::time_type, std::chrono::system_clock::time_point>::value));
        CHECK((std::is_same<pluto::thread_pool::clock_type, std::chrono::system_clock>::value));
        CHECK((std::is_same<pluto::stopwatch::clock_type, std::chrono::steady_clock>::value));
        CHECK_EQ(pluto::default_locale().name(), std::string("en_US.UTF-8")); CHECK_EQ(pluto::c_locale().name(), std::string("C"));
        CHECK(&pluto::default_locale() == &pluto::default_locale()); CHECK(&pluto::c_locale() == &pluto::c_locale()); CHECK(&pluto::system_locale() == &pluto::system_locale());
        CHECK_EQ(static_cast<int>(pluto::thread_pool::priority::lowest), -128); CHECK_EQ(static_cast<int>(pluto::thread_pool::priority::lower), -64);
        CHECK_EQ(static_cast<int>(pluto::thread_pool::priority::low), -32); CHECK_EQ(static_cast<int>(pluto::thread_pool::priority::normal), 0);
        CHECK_EQ(static_cast<int>(pluto::thread_pool::priority::high), 32); CHECK_EQ(static_cast<int>(pluto::thread_pool::priority::higher), 64);
        CHECK_EQ(static_cast<int>(pluto::thread_pool::priority::highest), 127);
        std::ostringstream v; v << PLUTO_UTILS_VERSION_MAJOR << '.' << PLUTO_UTILS_VERSION_MINOR << '.' << PLUTO_UTILS_VERSION_PATCH;
        CHECK_EQ(v.str(), std::string(PLUTO_UTILS_VERSION_STRING));
        CHECK_EQ(PLUTO_UTILS_HAS_CXX_11 != 0, __cplusplus >= 201103L); CHECK_EQ(PLUTO_UTILS_HAS_CXX_14 != 0, __cplusplus >= 201402L);
        CHECK_EQ(PLUTO_UTILS_HAS_CXX_17 != 0, __cplusplus >= 201703L); CHECK_EQ(PLUTO_UTILS_HAS_CXX_20 != 0, __cplusplus >= 202002L);
        CHECK_EQ(PLUTO_UTILS_HAS_CXX_26 != 0, __cplusplus > 202302L); CHECK_EQ(PLUTO_UTILS_HAS_32_BIT_WCHAR != 0, sizeof(wchar_t) == 4);
#if __cplusplus <= 202002L
        CHECK(!PLUTO_UTILS_HAS_CXX_23);
#else
        CHECK(PLUTO_UTILS_HAS_CXX_23);
#endif
#if __cplusplus >= 202002L
        CHECK(PLUTO_UTILS_HAS_SOURCE_LOCATION); CHECK(PLUTO_UTILS_HAS_FORMAT);
        const pluto::source_info here; const int line = __LINE__;
        CHECK_EQ(here.line, line); CHECK_EQ(std::string(here.file), std::string(__FILE__)); CHECK(std::string(here.function).find("main") != std::string::npos);
        static_assert(pluto::equals(std::initializer_list<int>{ 1, 2 }, std::initializer_list<int>{ 1, 2 }), "usable in constant expressions");
        static_assert(pluto::range<int>{ 1, 3 }.is_overlapping(pluto::range<int>{ 2, 5 }) && pluto::range<int>{ 1, 3 }.size() == 2, "usable in constant expressions");
        static_assert(pluto::abs(-3) == 3 && (pluto::min)(2, 1) == 1 && (pluto::max)(2, 1) == 2 && pluto::copy(4) == 4, "usable in constant expressions");
        static_assert(pluto::is_true{}(1) && pluto::is_false{}(0), "usable in constant expressions");
        static_assert(pluto::file_name("a/b.c")[0] == 'b', "usable in constant expressions");
        static_assert(pluto::log_level_to_char(pluto::log_level::info) == 'I', "usable in constant expressions");
        constexpr int arr[] = { 1, 2, 3 };
        static_assert(pluto::len(arr) == 3 && pluto::any(arr) && pluto::all(arr) && pluto::contains(arr, arr + 3, 2), "usable in constant expressions");
        static_assert(pluto::u16str("\xc3\xa9").size() == 1 && pluto::u32str(u"ab").size() == 2, "usable in constant expressions");
        CHECK(true);
#else
        CHECK(!PLUTO_UTILS_HAS_SOURCE_LOCATION); CHECK(!PLUTO_UTILS_HAS_FORMAT);
#endif
        CHECK_EQ(PLUTO_FILESYSTEM_IS_EXPERIMENTAL != 0, __cplusplus < 201703L);
        l.log_writer([](std::ostream& o, const pluto::log_entry& e) { o << pluto::file_name(e.source.file) << ',' << e.source.line << ',' << e.source.function; }).write_header(false);
        const int line2 = __LINE__ + 1;
        PLUTO_LOG_WRITE_WITH(l, dir + "/s.log", info, "x");
        for (int i = 0; i < 5000 && slurp(dir + "/s.log").empty(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        CHECK_EQ(slurp(dir + "/s.log"), "config.cpp," + std::to_string(line2) + ",main\n");
    }
#elif CFG == 1
    {
        pluto::logger l;
        CHECK(l.level() == pluto::log_level::notice); CHECK(!l.create_dirs()); CHECK(!l.write_header());
        CHECK_EQ(l.buffer_max_size(), 17u); CHECK_EQ(l.buffer_flush_size(), 5u); CHECK_EQ(l.file_rotation_size(), 4097u); CHECK_EQ(l.file_rotation_limit(), 6u);
        CHECK(pluto::logger::instance().level() == pluto::log_level::notice);
        CHECK(!l.should_log(pluto::log_level::info)); CHECK(l.should_log(pluto::log_level::notice));
    }
#elif CFG == 2
    {
        CHECK((std::is_same<pluto::logger::clock_type, fake_clock>::value)); CHECK((std::is_same<pluto::log_entry::time_type, fake_clock::time_point>::value));
        {
            pluto::logger l; l.buffer_flush_size(100);
            PLUTO_LOG_WRITE_WITH(l, dir + "/a.log", info, "w"); fake_clock::us() += 5;
            PLUTO_LOG_WRITEF_WITH(l, dir + "/a.log", info, "%s", "f"); fake_clock::us() += 5;
            PLUTO_LOG_STREAM_WITH(l, dir + "/a.log", info, 's');
        }
        CHECK_EQ(slurp(dir + "/a.log"), std::string("my header\n1700000000000042,file,7,func,w\n1700000000000047,file,7,func,f\n1700000000000052,file,7,func,s\n"));
        std::ostringstream o; pluto::logger::default_log_writer(o, pluto::log_entry{ fake_clock::time_point(std::chrono::microseconds(1700000000000042LL)), 5, pluto::log_level::info, { "a/b.c", 3, "fn" }, "msg" });
        CHECK_EQ(o.str(), std::string("2023-11-14 22:13:20.000042|      5|Info    |b.c                 |    3|fn                  |msg"));
    }
#elif CFG == 3
    {
        {
            pluto::logger l; l.buffer_flush_size(100);
            PLUTO_LOG_WRITE_WITH(l, dir + "/a.log", info, "w"); PLUTO_LOG_WRITEF_WITH(l, dir + "/a.log", error, "%d", 3); PLUTO_LOG_STREAM_WITH(l, dir + "/a.log", fatal, 's');
            l.write(dir + "/a.log", pluto::log_level::debug, "plain"); l.writef(dir + "/a.log", pluto::log_level::debug, "plain %d", 7); l.stream(dir + "/a.log", pluto::log_level::trace) << "stream";
#if PLUTO_UTILS_HAS_FORMAT
            l.format(dir + "/a.log", pluto::log_level::warning, "{}-{}", 1, "z");
#endif
        }
        const std::string s = slurp(dir + "/a.log"), t = std::to_string(pluto::thread_id()), tid = std::string(t.size() < 7 ? 7 - t.size() : 0, ' ') + t, pre = "2023-11-14 22:13:20.000042|" + tid + "|";
        std::string want = "Timestamp                 |    TID|Level   |Message\n--------------------------+-------+--------+-------\n" + pre + "Info    |w\n" + pre + "Error   |3\n" + pre + "Fatal   |s\n" + pre + "Debug   |plain\n" + pre + "Debug   |plain 7\n" + pre + "Trace   |stream\n";
#if PLUTO_UTILS_HAS_FORMAT
        want += pre + "Warning |1-z\n";
#endif
        check("source info hidden", s == want, s.substr(0, 600));
        std::string rec; { pluto::logger l; l.log_writer([&rec](std::ostream& o, const pluto::log_entry& e) { rec = std::string(e.source.file) + "," + std::to_string(e.source.line) + "," + e.source.function; o << rec; }).buffer_flush_size(100); PLUTO_LOG_WRITE_WITH(l, dir + "/c.log", info, "w"); }
        CHECK_EQ(rec, std::string(",0,"));
    }
#elif CFG == 4
    {
        typedef pluto::thread_pool::priority P;
        CHECK_EQ(static_cast<int>(P::lowest), -100); CHECK_EQ(static_cast<int>(P::lower), -50); CHECK_EQ(static_cast<int>(P::low), -3); CHECK_EQ(static_cast<int>(P::normal), 1);
        CHECK_EQ(static_cast<int>(P::high), 2); CHECK_EQ(static_cast<int>(P::higher), 77); CHECK_EQ(static_cast<int>(P::highest), 101);
        CHECK((std::is_same<pluto::thread_pool::clock_type, std::chrono::steady_clock>::value));
        std::string order;
        {
            pluto::thread_pool p{ 1 }; std::atomic<bool> go{ false };
            p.run_async([&] { while (!go.load()) std::this_thread::yield(); });
            p.run_async([&] { order += "a"; }, static_cast<signed char>(0)); p.run_async([&] { order += "b"; }); p.run_async([&] { order += "c"; }, P::high); p.run_async([&] { order += "d"; }, P::low);
            go.store(true); p.wait_until_all_tasks_complete();
            const auto t0 = std::chrono::steady_clock::now(); std::atomic<long long> late{ -1 };
            p.run_after(std::chrono::milliseconds(30), [&] { late = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count(); });
            while (late.load() < 0) std::this_thread::yield();
            CHECK(late.load() >= 30000); p.wait_until_all_tasks_complete();
        }
        CHECK_EQ(order, std::string("cbad"));
    }
#elif CFG == 5
    {
        CHECK((std::is_same<pluto::stopwatch::clock_type, fake_clock>::value));
        pluto::stopwatch w{ true }; fake_clock::us() += 1234567; w.stop(); fake_clock::us() += 99; CHECK_EQ(w.in_microseconds(), 1234567); CHECK_EQ(w.in_milliseconds(), 1234); w.start(); fake_clock::us() += 3; CHECK_EQ(w.in_microseconds(), 1234570);
        CHECK_EQ(pluto::default_locale().name(), std::string("C")); CHECK_EQ(pluto::upper(L'\xe9'), L'\xe9');
    }
#elif CFG == 6
    {
        CHECK((!std::is_reference<decltype(pluto::default_locale())>::value)); CHECK((!std::is_reference<decltype(pluto::c_locale())>::value)); CHECK((!std::is_reference<decltype(pluto::system_locale())>::value));
        CHECK_EQ(pluto::default_locale().name(), std::string("en_US.UTF-8")); CHECK_EQ(pluto::c_locale().name(), std::string("C"));
        setenv("LC_ALL", "C", 1); CHECK_EQ(pluto::system_locale().name(), std::string("C")); setenv("LC_ALL", "en_US.UTF-8", 1); CHECK_EQ(pluto::system_locale().name(), std::string("en_US.UTF-8"));
    }
#elif CFG == 7
    {
        CHECK((std::is_same<pluto::filesystem::path, std::experimental::filesystem::path>::value));
        { pluto::logger l; l.file_rotation_size(60).file_rotation_limit(2).log_writer([](std::ostream& o, const pluto::log_entry& e) { o << e.message; }).header_writer([](std::ostream& o) { o << "H"; }).buffer_flush_size(1000000);
          for (int i = 0; i < 60; ++i) l.write(dir + "/deep/er/a.log", pluto::log_level::info, { "", 0, "" }, "line " + std::to_string(10 + i)); }
        int lines = 0; long long size = 0; int files = 0;
        for (pluto::filesystem::directory_iterator it{ dir + "/deep/er" }, end; it != end; ++it) { ++files; const auto s = slurp(it->path().string()); size += static_cast<long long>(s.size()); for (char c : s) lines += c == '\n'; }
        check("rotated files", files == 3 && lines > 6, std::to_string(files) + " files, " + std::to_string(lines) + " lines");
    }
#elif CFG == 8
    {
        unsigned long long r = 12345;
        int bad = 0;
        for (int i = 0; i < 3000; ++i)
        {
            std::u32string t;
            r = r * 6364136223846793005ULL + 1442695040888963407ULL;
            for (unsigned n = (r >> 60) & 7, k = 0; k < n; ++k) { r = r * 6364136223846793005ULL + 1442695040888963407ULL; char32_t c = static_cast<char32_t>((r >> 33) % ((r >> 20) & 1 ? 0x110000 : 0x900)); if (c >= 0xd800 && c < 0xe000) c = U'?'; t += c; }
            const auto s16 = pluto::u16str(t); const auto s8 = pluto::str(t);
            const std::wstring w(s16.begin(), s16.end());
            bad += pluto::wstr(t) != w || pluto::wstr(s16) != w || pluto::wstr(s8) != w || pluto::str(w) != s8 || pluto::u16str(w) != s16 || pluto::u32str(w) != t;
            bad += pluto::wstr(t.c_str(), t.size()) != w || pluto::wstr(s16.c_str(), s16.size()) != w || pluto::wstr(s8.c_str(), s8.size()) != w || pluto::str(w.c_str(), w.size()) != s8 || pluto::u16str(w.c_str(), w.size()) != s16 || pluto::u32str(w.c_str(), w.size()) != t;
#if PLUTO_UTILS_HAS_CXX_20
            bad += pluto::wstr(pluto::u8str(t)) != w || pluto::u8str(w) != pluto::u8str(t);
#endif
        }
        check("wide strings hold UTF-16", bad == 0, std::to_string(bad) + " texts of 3000");
        CHECK_EQ(pluto::wstr(U"\U0001F600").size(), 2u);
    }
#elif CFG == 9
    {
        pluto::logger l; PLUTO_LOG_WRITE_WITH(l, dir + "/a.log", info, "x");
#ifdef PLUTO_LOG_FORMAT
        CHECK(!"PLUTO_LOG_FORMAT is defined");
#endif
        CHECK(!(std::is_default_constructible<pluto::source_info>::value));
    }
#endif
    std::printf("E done\n");
}
