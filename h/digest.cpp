// One program, the same operations in every language version, compiler, optimisation level and configuration: prints one line per
// result. lib/config.py compares the lines between builds. Sections only available in newer language versions print extra lines.
#include ORDER
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <iostream>
#include <list>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>

static unsigned long long rs = 88172645463325252ULL;
static unsigned long long rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static unsigned below(unsigned n) { return static_cast<unsigned>(rnd() % n); }
static const char* topic = "";
static int idx = 0;
static void start(const char* t) { topic = t; idx = 0; rs = 88172645463325252ULL; for (const char* p = t; *p; ++p) { rs = (rs ^ static_cast<unsigned char>(*p)) * 1099511628211ULL; } if (!rs) rs = 1; }
static std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c < 32 || c > 126 || c == '\\') { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += static_cast<char>(c);
    }
    return o;
}
static void out(const std::string& s) { std::printf("R %s.%d\t%s\n", topic, idx++, esc(s).c_str()); }
template<class T> static std::string num(T t) { std::ostringstream s; s.imbue(std::locale::classic()); s.precision(20); s << +t; return s.str(); }
template<class S> static std::string units(const S& s)
{
    std::string o;
    for (auto c : s) { char b[16]; std::snprintf(b, sizeof b, "%llx ", static_cast<unsigned long long>(c) & (sizeof(c) == 1 ? 0xffULL : sizeof(c) == 2 ? 0xffffULL : 0xffffffffULL)); o += b; }
    return o;
}
template<class V> static std::string many(const V& v) { std::string o = "["; for (const auto& e : v) o += units(e) + "|"; return o + "]"; }
template<class V> static std::string nums(const V& v) { std::string o = "["; for (const auto& e : v) o += num(e) + ","; return o + "]"; }

// ---- text ------------------------------------------------------------------------------------------------
static std::string bytes()
{
    std::string s;
    for (unsigned n = below(14); n; --n)
    {
        switch (below(9))
        {
            case 0: s += static_cast<char>(below(256)); break;
            case 1: s += static_cast<char>(0x80 + below(64)); break;
            case 2: s += static_cast<char>(0xc0 + below(64)); break;
            case 3: s += "\xc3\xa9"; break;
            case 4: s += "\xe2\x82\xac"; break;
            case 5: s += "\xf0\x9f\x98\x80"; break;
            case 6: s += "\xed\xa0\x80"; break;
            default: s += static_cast<char>(32 + below(95));
        }
    }
    return s;
}
static std::u16string units16()
{
    std::u16string s;
    for (unsigned n = below(9); n; --n)
        switch (below(6)) { case 0: s += static_cast<char16_t>(0xd800 + below(0x800)); break; case 1: s += static_cast<char16_t>(rnd()); break;
                            case 2: s += u"\U0001F600"; break; default: s += static_cast<char16_t>(below(300)); }
    return s;
}
static std::u32string units32()
{
    std::u32string s;
    for (unsigned n = below(9); n; --n)
        switch (below(6)) { case 0: s += static_cast<char32_t>(0xd800 + below(0x800)); break; case 1: s += static_cast<char32_t>(rnd()); break;
                            case 2: s += static_cast<char32_t>(below(0x110000)); break; default: s += static_cast<char32_t>(below(300)); }
    return s;
}
static std::string ascii(unsigned max)
{
    static const char a[] = "aAbBzZ ,;\t\n-_09xX";
    std::string s;
    for (unsigned n = below(max + 1); n; --n) s += a[below(sizeof a - 1)];
    return s;
}
static std::wstring wide(const std::string& s) { return std::wstring(s.begin(), s.end()); }

static void unicode()
{
    start("unicode");
    for (int i = 0; i < 200; ++i)
    {
        const auto s = bytes(); const auto a = units16(); const auto b = units32();
        out(units(pluto::u16str(s)) + "/" + units(pluto::u32str(s)) + "/" + units(pluto::u16str(s.c_str(), s.size())) + "/" + units(pluto::u32str(s.c_str(), s.size())));
        out(units(pluto::str(a)) + "/" + units(pluto::u32str(a)) + "/" + units(pluto::str(b)) + "/" + units(pluto::u16str(b)));
        out(units(pluto::u16str(pluto::wstr(s))) + "/" + units(pluto::u32str(pluto::wstr(a))) + "/" + units(pluto::str(pluto::wstr(b))) + "/" + units(pluto::wstr(s)));
        std::u16string x = a; pluto::utf8_to_utf16(s.c_str(), s.size(), x); std::u32string y = b; pluto::utf8_to_utf32(s.c_str(), s.size(), y);
        std::string z = s; pluto::utf16_to_utf8(a, z); pluto::utf32_to_utf8(b, z); pluto::utf16_to_utf32(a, y); pluto::utf32_to_utf16(b, x);
        out(units(x) + "/" + units(y) + "/" + units(z));
#if PLUTO_UTILS_HAS_CXX_20
        out("20 " + units(pluto::u8str(s)) + "/" + units(pluto::u8str(a)) + "/" + units(pluto::u8str(b)) + "/" + units(pluto::u8str(pluto::wstr(s))) + "/" + units(pluto::str(pluto::u8str(s))) + "/" + units(pluto::u16str(pluto::u8str(s))) + "/" + units(pluto::u32str(pluto::u8str(s))));
#else
        ++idx;
#endif
    }
}

template<class S> static void text(const S& t, const S& u, const S& v)
{
    const std::locale& l = pluto::default_locale();
    out(many(pluto::split(t)) + many(pluto::split(t, u)) + many(pluto::split_any_of(t, u)) + many(pluto::split(t, S{})) + many(pluto::split(t, l)));
    S r = t; pluto::replace(r, u, v); S q = t; pluto::replace_any_of(q, u, v); S p = t; pluto::replace(p, S{}, v);
    out(units(r) + "/" + units(q) + "/" + units(p));
    S c = t; pluto::lower(c); S d = t; pluto::upper(d); S e = t; pluto::strip(e); S f = t; pluto::lstrip(f); S g = t; pluto::rstrip(g);
    out(units(c) + "/" + units(d) + "/" + units(e) + "/" + units(f) + "/" + units(g) + "/" + num(pluto::is_lower(t)) + num(pluto::is_upper(t)) + num(pluto::is_lower(c)) + num(pluto::is_upper(d)));
    out(num(pluto::equals(t, u)) + num(pluto::iequals(c, d)) + num(pluto::iequals(t, u)) + num(pluto::starts_with(t, u)) + num(pluto::istarts_with(t, u)) + num(pluto::ends_with(t, u)) + num(pluto::iends_with(t, u))
        + num(pluto::contains(t, u)) + num(pluto::icontains(t, u)) + "/" + num(pluto::find(t, u) - std::begin(t)) + "/" + num(pluto::ifind(t, u) - std::begin(t)));
#if PLUTO_UTILS_HAS_CXX_17
    out("17 " + num(pluto::rfind(t, u) - std::begin(t)) + "/" + num(pluto::irfind(t, u) - std::begin(t)));
#else
    ++idx;
#endif
    const std::vector<S> w{ t, u, v, S{} };
    out(units(pluto::join(w, u)) + "/" + units(pluto::join(w.begin() + 1, w.end(), u)) + "/" + units(pluto::map_join(w, u, [](const S& x) { return x + x; })));
    typedef typename S::value_type E;
    for (std::size_t i = 0; i < t.size() && i < u.size(); ++i)
        out(num(pluto::is_iless<E>{}(t[i], u[i])) + num(pluto::is_igreater<E>{}(t[i], u[i])) + num(pluto::is_iless_equal<E>{}(t[i], u[i])) + num(pluto::is_igreater_equal<E>{}(t[i], u[i])) + num(pluto::is_iequal<E>{}(t[i], u[i])) + num(pluto::is_not_iequal<E>{}(t[i], u[i])));
}

static void strings()
{
    start("string");
    for (int i = 0; i < 150; ++i)
    {
        const auto t = ascii(12), u = ascii(2), v = ascii(3);
        text<std::string>(t, u, v);
        text<std::wstring>(wide(t), wide(u), wide(v));
    }
    start("string16");
    for (int i = 0; i < 40; ++i)
    {
        const auto t = ascii(12), u = ascii(2), v = ascii(3);
        const std::u16string a(t.begin(), t.end()), b(u.begin(), u.end()), c(v.begin(), v.end());
        const std::u32string d(t.begin(), t.end()), e(u.begin(), u.end()), f(v.begin(), v.end());
        std::u16string r = a; pluto::replace(r, b, c); std::u32string q = d; pluto::replace_any_of(q, e, f);
        out(many(pluto::split(a, b)) + many(pluto::split_any_of(d, e)) + units(r) + units(q) + num(pluto::starts_with(a, b)) + num(pluto::contains(d, e)) + units(pluto::join(std::vector<std::u16string>{ a, c }, b)));
#if PLUTO_STRING_OVERLOAD_FOR_UNICODE
        out("overload " + many(pluto::split(a, u",")) + many(pluto::split(U"a,b", U",")) + num(pluto::equals(u"ab", a)) + num(pluto::starts_with(d, U"a")));
#else
        ++idx;
#endif
    }
}

// ---- values ------------------------------------------------------------------------------------------------
template<class T> static void value(T v)
{
    out(pluto::bin(v) + " " + pluto::oct(v) + " " + pluto::hex(v) + " " + pluto::str(v) + " " + pluto::str(pluto::wstr(v)));
    out(num(pluto::str_to<T>(pluto::str(v))) + " " + num(pluto::wstr_to<T>(pluto::wstr(v))));
}
static void values()
{
    start("value");
    const long long b[] = { 0, 1, -1, 7, 127, -128, 255, 32767, -32768, 65535, 2147483647LL, -2147483648LL, 4294967295LL, 9223372036854775807LL, -9223372036854775807LL - 1 };
    for (int i = 0; i < 60; ++i)
    {
        const unsigned sx = below(64); const long long x = i < 15 ? b[i] : static_cast<long long>(rnd() >> sx);
        value(static_cast<short>(x)); value(static_cast<unsigned short>(x)); value(static_cast<int>(x)); value(static_cast<unsigned>(x));
        value(static_cast<long>(x)); value(static_cast<unsigned long>(x)); value(x); value(static_cast<unsigned long long>(x));
        out(pluto::bin(static_cast<signed char>(x)) + pluto::hex(static_cast<unsigned char>(x)) + pluto::oct(static_cast<char>(x)));
        const unsigned sy = below(64); const long long y = static_cast<long long>(rnd() >> sy);
        out(num(pluto::abs(x < -9223372036854775807LL ? 5 : x)) + " " + num((pluto::min)(x, y)) + " " + num((pluto::max)(x, y)) + " " + num((pluto::min)(x, y, pluto::is_greater{})) + " " + num((pluto::max)(x, y, pluto::is_greater{})));
        out(num(pluto::pow(2.0f, static_cast<float>(i % 9))) + " " + num(pluto::pow(3, i % 12)) + " " + num(pluto::pow(2.0, i % 30)) + " " + num(pluto::pow(2.0L, 3.0L)) + " " + num(pluto::round(i * 0.5)) + " " + num(pluto::round(-i * 0.25f)) + " " + num(pluto::round(i)));
        out(num(sizeof(pluto::pow(2.0f, 2.0f))) + num(sizeof(pluto::pow(2.0, 2.0))) + num(sizeof(pluto::pow(2.0L, 2.0L))) + num(sizeof(pluto::pow(2, 2))));
    }
    for (const char* s : { "", " ", "12", "-3", "x", "12x", " 7", "+5", "1e3", "0x10", "99999999999999999999", "true", "1" })
    {
        const std::string t{ s };
        out(num(pluto::str_to<int>(t)) + " " + num(pluto::str_to<double>(t)) + " " + num(pluto::wstr_to<int>(wide(t))) + " " + num(pluto::str_to<unsigned>(t)) + " " + num(pluto::str_to<bool>(t)) + " " + pluto::str_to<std::string>(t) + " " + num(pluto::str_to<int>(t.c_str(), t.size())));
    }
}

// ---- containers -----------------------------------------------------------------------------------------------
template<class C> static void container(const C& c, const C& d, int e)
{
    C s = c; pluto::sort(s); C r = c; pluto::reverse(r); C f = c; pluto::filter(f, [](int x) { return x % 2 == 0; });
    C g = c; pluto::for_each(g, [](int& x) { x += 1; }); const auto h = pluto::map(c, [](int x) { return x * 2; }); std::vector<long> k; pluto::map(c, k, [](int x) { return x * 3L; });
    out(nums(s) + nums(r) + nums(f) + nums(g) + nums(h) + nums(k));
    for (long long i : { -9LL, -3LL, -1LL, 0LL, 1LL, 2LL, 5LL, 20LL }) out(nums(pluto::slice(c, i)) + nums(pluto::slice(c, i, 4)) + nums(pluto::slice(c, -4, i)));
    out(num(pluto::len(c)) + num(pluto::any(c)) + num(pluto::all(c)) + num(pluto::any(c, [](int x) { return x > 3; })) + num(pluto::all(c, [](int x) { return x > 0; })));
    const auto b = std::begin(c), f1 = std::end(c); const auto b2 = std::begin(d), f2 = std::end(d);
    out(num(pluto::equals(c, d)) + num(pluto::starts_with(c, d)) + num(pluto::ends_with(c, d)) + num(pluto::contains(b, f1, b2, f2)) + num(pluto::contains(b, f1, e)) + " " + num(std::distance(b, pluto::find(b, f1, e)))
        + " " + num(std::distance(b, pluto::rfind(b, f1, e))) + " " + num(std::distance(b, pluto::find(b, f1, b2, f2)))
        + " " + num(std::distance(b, pluto::find_if(b, f1, [](int x) { return x == 2; }))) + " " + num(std::distance(b, pluto::rfind_if_not(b, f1, [](int x) { return x == 2; }))));
    out(num(std::distance(b, pluto::find_elem(c, e))) + " " + num(std::distance(b, pluto::rfind_elem(c, e))) + " " + num(std::distance(b, pluto::find_sequence(c, d))) + num(pluto::contains_elem(c, e)) + num(pluto::contains_sequence(c, d))
        + " " + num(std::distance(b, pluto::find_if(c, [](int x) { return x > 2; }))) + " " + num(std::distance(b, pluto::rfind_if(c, [](int x) { return x > 2; }))) + " " + num(std::distance(b, pluto::find_if_not(c, [](int x) { return x > 2; })))
        + " " + num(std::distance(b, pluto::rfind_if_not(c, [](int x) { return x > 2; }))) + " " + num(pluto::count(c, e)) + num(pluto::count_if(c, [](int x) { return x > 1; })) + " " + num(pluto::sum(c)));
    if (std::begin(c) != std::end(c)) out(num((pluto::min)(c)) + num((pluto::max)(c)) + num((pluto::min)(c, pluto::is_greater{})) + num((pluto::max)(c, pluto::is_greater{})));
#if PLUTO_UTILS_HAS_CXX_17
    out("17 " + num(std::distance(b, pluto::rfind(b, f1, b2, f2))) + " " + num(std::distance(b, pluto::rfind_sequence(c, d))));
#else
    ++idx;
#endif
}
static void containers()
{
    start("container");
    for (int i = 0; i < 60; ++i)
    {
        std::vector<int> a, b; for (unsigned n = below(9); n; --n) a.push_back(static_cast<int>(below(5)));
        if (below(2)) { const unsigned k = below(static_cast<unsigned>(a.size()) + 1); b.assign(a.begin() + k, a.end()); } else for (unsigned n = below(3); n; --n) b.push_back(static_cast<int>(below(5)));
        container<std::vector<int>>(a, b, static_cast<int>(below(5)));
        container<std::deque<int>>(std::deque<int>(a.begin(), a.end()), std::deque<int>(b.begin(), b.end()), 2);
    }
    const int arr[] = { 3, 1, 2 };
    out(num(pluto::len(arr)) + num(pluto::any(arr)) + num(pluto::contains(arr, arr + 3, 2)) + num(pluto::len("abc")) + num(pluto::len(std::string("abc"))) + num(pluto::len(std::set<int>{ 1, 2 })) + nums(pluto::slice(std::list<int>{ 1, 2, 3, 4 }, -3, 4)));
    start("range");
    for (int i = 0; i < 80; ++i)
    {
        const int v = static_cast<int>(below(6)), w = v + static_cast<int>(below(4)), x = static_cast<int>(below(6)), y = x + static_cast<int>(below(4));
        const pluto::range<int> p{ v, w }, q{ x, y };
        out(num(p == q) + num(p != q) + num(p < q) + num(p > q) + num(p <= q) + num(p >= q) + num(p.size()) + num(p.is_equal(q)) + num(p.is_overlapping(q)) + num(p.is_less(q)) + num(p.is_less_no_overlap(q)));
    }
}

// ---- caches, scopes, helpers ----------------------------------------------------------------------------------------
template<class Cache> static void cache()
{
    Cache c{ 3 };
    for (int i = 0; i < 120; ++i)
    {
        const int k = static_cast<int>(below(6));
        switch (below(7))
        {
            case 0: case 1: out(num(c.insert(k, std::to_string(i)))); break;
            case 2: out(num(c.insert_or_assign(k, std::to_string(i)))); break;
            case 3: out(num(c.remove(k))); break;
            case 4: out(num(c.contains(k))); break;
            case 5: c.capacity(1 + below(4)); break;
            default: { std::string s = "-"; c.get(k, s); out(s); }
        }
        out(num(c.size()) + num(c.capacity()) + num(c.empty()));
    }
}
static void helpers()
{
    start("cache"); cache<pluto::lru_cache<int, std::string>>();
    start("safe_cache"); cache<pluto::safe_lru_cache<int, std::string>>();
    start("scope");
    std::string log;
    { pluto::on_scope_exit a{ [&] { log += "1"; } }; a.add([&] { log += "2"; }); pluto::on_scope_success b{ [&] { log += "3"; } }; pluto::on_scope_fail c{ [&] { log += "4"; } }; }
    out(log); log.clear();
    try { pluto::on_scope_exit a{ [&] { log += "1"; throw 1; } }; a.add([&] { log += "2"; }); pluto::on_scope_success b{ [&] { log += "3"; } }; pluto::on_scope_fail c{ [&] { log += "4"; } }; c.add([&] { log += "5"; }); throw 7; } catch (int x) { log += num(x); }
    out(log);
    start("helpers");
    for (const char* s : { "", "a", "/a/b", "a\\b", "a/", "/", "x/y\\z.c" }) out(pluto::file_name(s));
    for (long long t : { 0LL, 1LL, 951782400LL, 1700000000LL, 2147483648LL, -1LL }) { const auto g = pluto::gm_time(static_cast<std::time_t>(t)); const auto l = pluto::local_time(static_cast<std::time_t>(t)); char b[64]; std::strftime(b, sizeof b, "%F %T %j %w", &g); std::string x = b; std::strftime(b, sizeof b, "%F %T %j %w", &l); out(x + " / " + b); }
    out(num(pluto::process_id() == getpid()) + num(pluto::thread_id() == static_cast<std::size_t>(gettid())));
    out(pluto::c_locale().name() + " " + pluto::default_locale().name() + " " + pluto::system_locale().name());
    out(num(PLUTO_UTILS_VERSION_MAJOR) + "." + num(PLUTO_UTILS_VERSION_MINOR) + "." + num(PLUTO_UTILS_VERSION_PATCH) + " " + PLUTO_UTILS_VERSION_STRING);
    for (const auto v : { 0, 1, 2 }) out(num(pluto::is_true{}(v)) + num(pluto::is_false{}(v)));
    for (int i = -1; i < 11; ++i) { const auto l = static_cast<pluto::log_level>(i); out(std::string(pluto::log_level_to_c_str(l)) + pluto::log_level_to_title(l) + pluto::log_level_to_shortened(l) + pluto::log_level_to_char(l)); }
}

// ---- pool and logger -------------------------------------------------------------------------------------------------
static void pool()
{
    start("pool");
    std::string order; std::atomic<int> sum{ 0 };
    {
        pluto::thread_pool p{ 1 };
        std::atomic<bool> go{ false };
        p.run_async([&] { while (!go.load()) std::this_thread::yield(); });
        p.run_async([&] { order += "l"; }, pluto::thread_pool::priority::low);
        p.run_async([&] { order += "n"; });
        p.run_async([&] { order += "H"; }, pluto::thread_pool::priority::highest);
        p.run_async([&] { order += "h"; }, pluto::thread_pool::priority::high);
        p.run_async([&] { order += "m"; });
        p.run_async([&] { order += "L"; }, pluto::thread_pool::priority::lowest);
        go.store(true);
        p.wait_until_all_tasks_complete();
    }
    out(order);
    {
        pluto::thread_pool p{ 4 };
        for (int i = 1; i <= 100; ++i) p.run_async([&sum, i] { sum += i; });
        p.run_sync([&] { sum += 1000; });
        p.run_after(std::chrono::milliseconds(1), [&] { sum += 5000; });
        while (sum.load() < 11050) std::this_thread::yield();
        p.wait_until_all_tasks_complete();
        out(num(sum.load()) + " " + num(p.target_workers_size()));
    }
}
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void logger(const std::string& dir)
{
    start("logger");
    {
        pluto::logger l;
        l.log_writer([](std::ostream& o, const pluto::log_entry& e) { o << pluto::log_level_to_title(e.level) << '|' << pluto::file_name(e.source.file) << '|' << e.source.function << '|' << e.message; });
        l.header_writer([](std::ostream& o) { o << "HEADER"; });
        l.file_rotation_size(400).file_rotation_limit(3).buffer_flush_size(1000000);
        for (int i = 0; i < 40; ++i)
        {
            PLUTO_LOG_WRITE_WITH(l, dir + "/a.log", info, "write " + std::to_string(i));
            PLUTO_LOG_WRITEF_WITH(l, dir + "/sub/b.log", error, "writef %d %s", i, "x");
            PLUTO_LOG_STREAM_WITH(l, dir + "/a.log", debug, "stream " << i << ' ' << 1.5);
#if PLUTO_UTILS_HAS_FORMAT
            PLUTO_LOG_FORMAT_WITH(l, dir + "/f.log", warning, "format {} {:>4}", i, "y");
#endif
        }
        l.level(pluto::log_level::error);
        PLUTO_LOG_WRITE_WITH(l, dir + "/a.log", info, "not written");
    }
    for (const std::string d : { dir, dir + "/sub" })
    {
        std::set<std::string> names; DIR* h = opendir(d.c_str()); while (const dirent* e = readdir(h)) names.insert(e->d_name); closedir(h);
        for (const auto& n : names) if (n != "." && n != ".." && n != "sub" && n[0] != 'f') out(n + ": " + slurp(d + "/" + n));
    }
#if PLUTO_UTILS_HAS_FORMAT
    out("format: " + slurp(dir + "/f.log"));
#else
    ++idx;
#endif
    std::ostringstream o;
    const pluto::log_entry e{ pluto::logger::clock_type::time_point(std::chrono::seconds(1700000000) + std::chrono::microseconds(42)), 1234567890, pluto::log_level::notice, { "/a/b/some_quite_long_file_name.cpp", 42, "a_function_with_a_long_name" }, "hello" };
    pluto::logger::default_header_writer(o); o << '\n'; pluto::logger::default_log_writer(o, e);
    out(o.str());
    pluto::logger l;
    out(num(static_cast<int>(l.level())) + num(l.create_dirs()) + num(l.write_header()) + num(l.buffer_max_size()) + num(l.buffer_flush_size()) + num(l.file_rotation_size()) + num(l.file_rotation_limit()) + num(l.num_discarded_logs()));
}

int main(int argc, char** argv)
{
    setenv("TZ", "UTC", 1);
    unicode(); strings(); values(); containers(); helpers(); pool();
    logger(argc > 1 ? argv[1] : ".");
    std::printf("E done\n");
}
