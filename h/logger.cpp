// Logger harness: generated logging programs against the real logger under the controlled scheduler, with observed and
// fault-injected file-system calls; the resulting file trees and the recorded histories are checked against a model.
#include "pluto/logger.hpp"
#include "dsched.h"
#include "hc.hpp"
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <iomanip>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/mman.h>

namespace
{
    // uses the macros with their default source arguments
    int default_macro_line;
    const char* default_macro_file() { return __FILE__; }
    void default_macros(pluto::logger& l, const std::string& f, const std::string& m)
    {
        default_macro_line = __LINE__ + 1;
        PLUTO_LOG_WRITE_WITH(l, f, info, m);
        PLUTO_LOG_WRITEF_WITH(l, f, info, "%s", m.c_str());
        IF20(PLUTO_LOG_FORMAT_WITH(l, f, info, "{}", m);)
        PLUTO_LOG_STREAM_WITH(l, f, info, m);
    }
}
#undef PLUTO_LOGGER_SOURCE_INFO_ARGS
#define PLUTO_LOGGER_SOURCE_INFO_ARGS src_file(id), id, src_func(id)

namespace
{
    typedef pluto::logger lg_t;
    typedef pluto::log_level lv;
    namespace fs = pluto::filesystem;

    enum ev { CALL = 1, RET, WR, HD, NOPE, DTOR_CALL, DTOR_RET, QUIET, GATED, SET_CALL, SET_RET, GET_CALL, GET_RET, DISC, RESET, EVAL, DISC_CALL, RESET_CALL };
    static const char* const ev_name[] = { "?", "log", "logged", "write", "header", "bad", "dtor", "dtor_ret", "quiet", "gated", "set", "set_ret", "get", "got", "discarded", "reset", "eval", "discards", "resetting" };
    enum { GATE_SLOT = 100, RULE_LEFT = 50, RULE_HITS = 51, FS_AFTER = 52 };
    enum field { F_LEVEL, F_DIRS, F_HEADER, F_MAX, F_FLUSH, F_RSIZE, F_RLIMIT, F_WRITER, F_HWRITER, F_N };
    static const char* const field_name[] = { "level", "create_dirs", "write_header", "buffer_max_size", "buffer_flush_size", "file_rotation_size", "file_rotation_limit", "log_writer", "header_writer" };
    static const lv levels[] = { lv::verbose, lv::trace, lv::debug, lv::info, lv::notice, lv::warning, lv::error, lv::critical, lv::fatal, lv::off };

    enum op_type { LOG, SET, GET, YIELD, SLEEP, GETDISC, GATE, RESETDISC };
    struct op { op_type type; int id; long arg; };
    enum { HOW_WRITE, HOW_WRITEF, HOW_WRITEF2, HOW_FORMAT, HOW_STREAM_END, HOW_STREAM_DTOR, HOW_M_WRITE, HOW_M_WRITEF, HOW_M_FORMAT, HOW_M_STREAM, HOW_STREAM_TWICE, HOW_STREAM_MIX, HOW_FORMAT2, HOW_N };
    struct spec { int file = 0; lv level = lv::info; int how = 0; int gate = 0; int num = 0; std::string msg; std::vector<op> inside; };
    struct name { std::string given, rel; };
    struct config { lv level = lv::verbose; bool dirs = true, header = false; long max = 0, flush = 1, rsize = 0, rlimit = 1; int writer = 0, hwriter = 0; };

    // what the files must contain
    struct family
    {
        std::vector<std::string> gen;       // 0 = current
        bool current = false;
        void apply(const config& c, const std::string& text, const std::string& header)
        {
            if (!current) { if (gen.empty()) gen.push_back(""); else gen[0].clear(); current = true; }
            if (c.rsize && gen[0].size() >= static_cast<std::size_t>(c.rsize))
            {
                if (gen.size() > static_cast<std::size_t>(c.rlimit)) gen.resize(static_cast<std::size_t>(c.rlimit));
                gen.insert(gen.begin(), "");
            }
            if (c.header && gen[0].empty()) gen[0] += header + "\n";
            gen[0] += text + "\n";
        }
    };

    struct world
    {
        lg_t* lg = nullptr; void* store = nullptr;
        std::vector<name> names;
        std::vector<spec> specs;
        std::vector<std::vector<op>> users;
        std::map<std::string, std::string> decoys;
        std::vector<family> fam;
        config c, c0;
        std::uint32_t applied = 0;
        bool exact = true;          // compare file trees exactly with the model (false: contents modulo rotation points and headers)
        bool layout = false;        // default layout through a recording writer
        bool no_accept = false;     // discards may happen: acceptance is decided by the writes
        std::string root, desc;
        const char* fault_dir = nullptr;
        int fault_ops = 0, fault_errno = 0;
    };
    world* g = nullptr;
    std::string scratch;

    const char* src_file(int id) { static const char* const n[] = { "main.cpp", "/usr/src/app/deep/module.cc", "C:\\work\\x.cpp", "a_source_file_with_a_rather_long_name.cpp", "" }; return n[id % 5]; }
    const char* src_func(int id) { static const char* const n[] = { "main", "f", "operator()", "a_function_with_a_rather_long_name_too", "" }; return n[id % 5]; }
    const char* base_name(const char* p) { const char* b = p; for (; *p; ++p) if (*p == '/' || *p == '\\') b = p + 1; return b; }
    std::string str(long a) { return std::to_string(a); }

    std::string header_text(int k)
    {
        static const char* const t[] = { "<H0>header", "<H1>", "<H2>two\n<H2>lines", "<H3>x" };
        return t[k % 4];
    }
    std::string default_header()
    {
        return "Timestamp                 |    TID|Level   |File Name           | Line|Function            |Message\n"
               "--------------------------+-------+--------+--------------------+-----+--------------------+-------";
    }
    const char* title(lv l)
    {
        switch (l)
        {
            case lv::verbose: return "Verbose"; case lv::trace: return "Trace"; case lv::debug: return "Debug"; case lv::info: return "Info"; case lv::notice: return "Notice";
            case lv::warning: return "Warning"; case lv::error: return "Error"; case lv::critical: return "Critical"; case lv::fatal: return "Fatal"; case lv::header: return "Level"; default: return "Unknown";
        }
    }
    std::string layout_text(std::int64_t ns, long tid, lv l, const char* file, int line, const char* func, const std::string& msg)
    {
        std::time_t s = ns / 1000000000; std::tm t{}; ::localtime_r(&s, &t);
        char b[400];
        std::snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d.%06ld|%7ld|%-8s|%-20.20s|%5d|%-20.20s|", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec,
            static_cast<long>(ns / 1000 % 1000000), tid, title(l), base_name(file), line, func);
        return b + msg;
    }
    // text of entry id written by writer k; time and thread as recorded
    std::string render(int id, int k, std::int64_t vt)
    {
        const spec& s = g->specs[static_cast<std::size_t>(id)];
        if (g->layout) return layout_text(vt + ds_realtime_base(), ds_get(1000 + id), s.level, src_file(id), id, src_func(id), s.msg);
        std::string r; r += '\x01'; r += str(id); r += '/'; r += str(k); r += '\x02'; r += s.msg; r += '\x03';
        return r;
    }

    void do_set(int f, long v);
    void exec(const op& o);

    void on_entry(int k, std::ostream& out, const pluto::log_entry& e)
    {
        const int id = e.source.line;
        if (id < 0 || id >= static_cast<int>(g->specs.size())) { ds_rec(NOPE, 6, id, 0); return; }
        const spec& s = g->specs[static_cast<std::size_t>(id)];
        const std::int64_t ns = std::chrono::duration_cast<std::chrono::nanoseconds>(e.time.time_since_epoch()).count() - ds_realtime_base();
        ds_rec(WR, id, k, ns);
        if (e.message != s.msg) ds_rec(NOPE, 1, id, static_cast<std::int64_t>(e.message.size()));
        if (e.level != s.level) ds_rec(NOPE, 2, id, static_cast<int>(e.level));
        if (std::strcmp(e.source.file, src_file(id)) || std::strcmp(e.source.function, src_func(id))) ds_rec(NOPE, 3, id, 0);
        if (static_cast<std::int64_t>(e.thread_id) != ds_get(1000 + id)) ds_rec(NOPE, 4, id, static_cast<std::int64_t>(e.thread_id));
        if (s.gate) ds_gate_wait(GATE_SLOT + s.gate);
        for (auto& o : s.inside) exec(o);
        if (g->layout) { lg_t::default_log_writer(out, e); return; }
        out << '\x01' << id << '/' << k;
        ds_yield();
        out << '\x02' << e.message << '\x03';
    }
    std::function<void(std::ostream&, const pluto::log_entry&)> make_writer(int k)
    {
        auto state = std::make_shared<std::vector<int>>(8, k);      // heap state, so that a stale copy is noticed
        return [state, k](std::ostream& o, const pluto::log_entry& e) { on_entry((*state)[3], o, e); };
    }
    std::function<void(std::ostream&)> make_hwriter(int k)
    {
        auto state = std::make_shared<std::vector<int>>(8, k);
        if (g->layout) return [state](std::ostream& o) { ds_rec(HD, 0, 0, 0); lg_t::default_header_writer(o); };
        return [state, k](std::ostream& o) { ds_rec(HD, (*state)[3], 0, 0); o << header_text((*state)[3]).substr(0, 2); ds_yield(); o << header_text(k).substr(2); };
    }

    void do_set(int f, long v)
    {
        lg_t& l = *g->lg;
        ds_rec(SET_CALL, f, v, 0);
        switch (f)
        {
            case F_LEVEL: l.level(levels[v]); break;
            case F_DIRS: l.create_dirs(v != 0); break;
            case F_HEADER: l.write_header(v != 0); break;
            case F_MAX: l.buffer_max_size(static_cast<std::size_t>(v)); break;
            case F_FLUSH: l.buffer_flush_size(static_cast<std::size_t>(v)); break;
            case F_RSIZE: l.file_rotation_size(static_cast<std::size_t>(v)); break;
            case F_RLIMIT: l.file_rotation_limit(static_cast<std::size_t>(v)); break;
            case F_WRITER: l.log_writer(make_writer(static_cast<int>(v))); break;
            case F_HWRITER: l.header_writer(make_hwriter(static_cast<int>(v))); break;
        }
        ds_rec(SET_RET, f, v, 0);
    }
    void do_get(int f)
    {
        lg_t& l = *g->lg; long v = 0;
        ds_rec(GET_CALL, f, 0, 0);
        switch (f)
        {
            case F_LEVEL: { const lv x = l.level(); v = -1; for (int i = 0; i < 10; ++i) if (levels[i] == x) v = i; break; }
            case F_DIRS: v = l.create_dirs(); break;
            case F_HEADER: v = l.write_header(); break;
            case F_MAX: v = static_cast<long>(l.buffer_max_size()); break;
            case F_FLUSH: v = static_cast<long>(l.buffer_flush_size()); break;
            case F_RSIZE: v = static_cast<long>(l.file_rotation_size()); break;
            case F_RLIMIT: v = static_cast<long>(l.file_rotation_limit()); break;
            case F_WRITER: { auto w = l.log_writer(); v = w ? -2 : -3; break; }
            case F_HWRITER: { auto w = l.header_writer(); v = w ? -2 : -3; break; }
        }
        ds_rec(GET_RET, f, v, 0);
    }

    int eval(int id) { ds_rec(EVAL, id, 0, 0); return 0; }

    template<int N> void macro_log(int id, const spec& s);
#if PLUTO_UTILS_HAS_FORMAT
    #define ML_FORMAT(L) PLUTO_LOG_FORMAT_WITH(l, f, L, "{}", (eval(id), s.msg))
#else       // std::format is not there before C++20
    #define ML_FORMAT(L) PLUTO_LOG_WRITE_WITH(l, f, L, (eval(id), s.msg))
#endif
    #define ML(L) case lv::L: \
        switch (s.how) { \
            case HOW_M_WRITE: PLUTO_LOG_WRITE_WITH(l, f, L, (eval(id), s.msg)); break; \
            case HOW_M_WRITEF: PLUTO_LOG_WRITEF_WITH(l, f, L, "%s", (eval(id), s.msg.c_str())); break; \
            case HOW_M_FORMAT: ML_FORMAT(L); break; \
            case HOW_M_STREAM: PLUTO_LOG_STREAM_WITH(l, f, L, (eval(id), s.msg.substr(0, s.msg.size() / 2)) << s.msg.substr(s.msg.size() / 2)); break; \
        } break

    // values of many types, manipulators included, streamed one after the other
    struct point { int x, y; };
    std::ostream& operator<<(std::ostream& o, const point& p) { return o << std::setw(4) << p.x << '/' << p.y; }
    template<class S> void mixed(S& s, int n, const std::string& text)
    {
        s << n << ' ' << n / 8.0 << '|' << (n % 2 == 0) << std::boolalpha << (n % 3 == 0) << '|';
        if (n & 4) s << std::hex << std::showbase << static_cast<unsigned>(n) << ' ';
        s << std::setw(n & 15) << std::setfill('*') << n << point{ n, -n } << static_cast<const char*>("c-str") << text << 1234567890123456789LL << static_cast<unsigned char>('u');
        if (n & 8) s << std::fixed << std::setprecision(n & 7);
        s << n * 1.37 << 0.1f << point{ 1, 2 };
    }

    void do_log(int id)
    {
        const spec& s = g->specs[static_cast<std::size_t>(id)];
        lg_t& l = *g->lg;
        const std::string f = g->names[static_cast<std::size_t>(s.file)].given;      // (gone when the call has returned)
        const pluto::source_info si{ src_file(id), id, src_func(id) };
        ds_set(1000 + id, static_cast<std::int64_t>(::gettid()));
        ds_rec(CALL, id, 0, 0);
        switch (s.how)
        {
            case HOW_WRITE: l.write(f, s.level, si, s.msg); break;
            case HOW_WRITEF: l.writef(f, s.level, si, "%s", s.msg.c_str()); break;
            case HOW_WRITEF2: l.writef(f, s.level, si, "%d-%s|%05.2f%%%c", s.num, src_func(id), s.num / 8.0, 'x'); break;
            #if !PLUTO_UTILS_HAS_FORMAT
            case HOW_FORMAT: l.write(f, s.level, si, s.msg); break;
#else
            case HOW_FORMAT: l.format(f, s.level, si, "{}{:s}", s.msg.substr(0, s.msg.size() / 3), s.msg.substr(s.msg.size() / 3)); break;
#endif
            case HOW_STREAM_END: { auto&& st = l.stream(std::string(f), s.level, si); st << s.msg.substr(0, s.msg.size() / 2); ds_yield(); st << s.msg.substr(s.msg.size() / 2); st.end(); break; }
            case HOW_STREAM_DTOR: { l.stream(f, s.level, si) << s.msg; break; }
            case HOW_STREAM_TWICE: { auto&& st = l.stream(std::string(f), s.level, si); st << s.msg; st.end(); st << "more"; st.end(); break; }
            case HOW_STREAM_MIX: { auto&& st = l.stream(std::string(f), s.level, si); mixed(st, s.num, src_func(id)); if (s.num & 1) st.end(); break; }
            #if !PLUTO_UTILS_HAS_FORMAT
            case HOW_FORMAT2: l.write(f, s.level, si, s.msg); break;
#else
            case HOW_FORMAT2: l.format(f, s.level, si, "{1:>9}|{0:#x}|{2:.3f}|{3}{0:+}{{}}{4}", s.num, src_func(id), s.num / 8.0, 'c', s.num % 2 == 0); break;
#endif
            default:
                switch (s.level) { ML(verbose); ML(trace); ML(debug); ML(info); ML(notice); ML(warning); ML(error); ML(critical); ML(fatal); default: break; }
        }
        ds_rec(RET, id, 0, 0);
    }

    void exec(const op& o)
    {
        switch (o.type)
        {
            case LOG: do_log(o.id); break;
            case SET: do_set(o.id, o.arg); break;
            case GET: do_get(o.id); break;
            case YIELD: for (long i = 0; i < o.arg; ++i) ds_yield(); break;
            case SLEEP: ds_sleep_until(ds_now() + static_cast<std::uint64_t>(o.arg)); break;
            case RESETDISC: ds_rec(RESET_CALL, 0, 0, 0); g->lg->reset_num_discarded_logs(); ds_rec(RESET, 0, 0, 0); break;
            case GETDISC: { ds_rec(DISC_CALL, 0, 0, 0); const long v = static_cast<long>(g->lg->num_discarded_logs()); ds_rec(DISC, v, 0, 0); break; }
            case GATE: ds_gate_open(GATE_SLOT + static_cast<int>(o.arg), 1); break;
        }
    }

    // ---- reporting -------------------------------------------------------------------------------
    std::string describe(long from, long to)
    {
        std::string s; const long n = ds_nevents(); const ds_event* e = ds_events();
        for (long i = std::max(0L, from); i < to && i < n; ++i)
            if (e[i].kind > 0) { s += std::string(ev_name[e[i].kind]) + "(" + str(e[i].a) + "," + str(e[i].b) + ")@t" + str(e[i].tid) + " "; if (s.size() > 700) break; }
        return s;
    }
    void expect(bool ok, const char* kind, const std::string& what)
    {
        if (!ok) hc::violation(kind, what + " | program: " + g->desc + " | tail: " + describe(static_cast<long>(ds_nevents()) - 30, ds_nevents()));
    }
    void fatal(int what, const char* text)
    {
        const char* kind = what == DS_DEADLOCK ? "deadlock" : what == DS_LIVELOCK ? "livelock" : what == DS_DEAD_OBJECT ? "use-after-destroy" : "lock-misuse";
        hc::violation(kind, std::string(text) + " | program: " + g->desc + " | tail: " + describe(static_cast<long>(ds_nevents()) - 30, ds_nevents()));
        hc::finish();
        ::_exit(14);
    }

    int fault(int op, const char* a, const char* b, std::uint64_t)
    {
        if (!g->fault_dir || !(op & g->fault_ops) || !std::strstr(a, g->fault_dir)) return 0;
        (void)b;
        if (ds_get(RULE_LEFT) <= 0) return 0;
        ds_add(RULE_LEFT, -1); ds_add(RULE_HITS, 1);
        return g->fault_errno;
    }
    int no_fault(int, const char*, const char*, std::uint64_t) { return 0; }

    // ---- the file tree ---------------------------------------------------------------------------
    std::string index_path(const std::string& rel, std::size_t i)
    {
        const fs::path p{ rel };
        return i == 0 ? rel : (p.parent_path() / (p.stem().string() + "_" + str(static_cast<long>(i)) + p.extension().string())).string();
    }
    std::map<std::string, std::string> read_tree()
    {
        std::map<std::string, std::string> t;
        fs_hook(nullptr);
        ds_nopreempt(1);
        for (auto& e : fs::recursive_directory_iterator(g->root))
            if (fs::is_regular_file(e.path()))
            {
                std::FILE* f = std::fopen(e.path().c_str(), "rb"); std::string s; char b[65536]; std::size_t n;
                while (f && (n = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
                if (f) std::fclose(f);
                t[e.path().string().substr(g->root.size() + 1)] = s;
            }
        ds_nopreempt(-1);
        fs_hook(g->fault_dir ? &fault : &no_fault);
        return t;
    }
    std::string shorten(const std::string& s) { return s.size() > 160 ? s.substr(0, 80) + "..." + s.substr(s.size() - 80) + "(" + str(static_cast<long>(s.size())) + " bytes)" : s; }

    // applies the writes recorded since the last call to the model
    void apply_events()
    {
        const std::uint32_t n = ds_nevents(); const ds_event* e = ds_events();
        for (; g->applied < n; ++g->applied)
        {
            const ds_event& x = e[g->applied];
            if (x.kind == WR) g->fam[static_cast<std::size_t>(g->specs[static_cast<std::size_t>(x.a)].file)].apply(g->c, render(static_cast<int>(x.a), static_cast<int>(x.b), x.c), g->layout ? default_header() : header_text(g->c.hwriter));
        }
    }
    std::vector<long> ids_in(const std::string& s)
    {
        std::vector<long> v;
        for (std::size_t p = 0; (p = s.find('\x01', p)) != s.npos; ++p) v.push_back(std::atol(s.c_str() + p + 1));
        return v;
    }
    std::size_t times_in(const std::string& s, const std::string& what) { std::size_t n = 0; for (std::size_t p = 0; (p = s.find(what, p)) != s.npos; p += what.size()) ++n; return n; }

    std::string strip_headers(const std::string& s)
    {
        std::string r; std::size_t p = 0;
        while (p < s.size()) { auto e = s.find('\n', p); if (e == s.npos) e = s.size() - 1; if (s.compare(p, 2, "<H") != 0) r.append(s, p, e - p + 1); p = e + 1; }
        return r;
    }

    void check_tree(const char* when)
    {
        apply_events();
        auto actual = read_tree();
        hc::count("trees_compared");
        for (std::size_t f = 0; f < g->fam.size(); ++f)
        {
            const family& m = g->fam[f];
            const std::string& rel = g->names[f].rel;
            std::vector<std::string> have;
            for (std::size_t i = 0; ; ++i)
            {
                auto it = actual.find(index_path(rel, i));
                if (it == actual.end()) { if (i == 0) { if (actual.count(index_path(rel, 1))) { have.push_back(""); continue; } } break; }
                have.push_back(it->second); actual.erase(it);
            }
            std::vector<std::string> want = m.gen;
            if (g->exact && have == want) continue;
            if (g->fault_dir && g->fault_ops & (FS_RENAME | FS_REMOVE) && rel.find(g->fault_dir) == 0 && g->c.rsize && !want.empty() && static_cast<long>(want[0].size()) >= g->c.rsize && ds_get(RULE_HITS) && std::strcmp(when, "end"))
            {
                // a rotation that failed half way and is finished with the next write: files may be between their old and
                // their new index, and the one that goes over the limit may be gone
                std::vector<std::string> some = have;
                for (std::size_t i = some.size(); i < 16; ++i) { auto it = actual.find(index_path(rel, i)); if (it != actual.end()) { some.push_back(it->second); actual.erase(it); } }
                hc::count("interrupted_rotations_seen");
                if (some == want) continue;
                if (static_cast<long>(want.size()) > g->c.rlimit) { want.pop_back(); if (some == want) continue; want = m.gen; }
                have = some;
            }
            std::string hall, wall;
            for (auto i = have.rbegin(); i != have.rend(); ++i) hall += *i;
            for (auto i = want.rbegin(); i != want.rend(); ++i) wall += *i;
            if (!g->exact) { hall = strip_headers(hall); wall = strip_headers(wall); if (hall == wall) continue; }
            auto hi = ids_in(hall), wi = ids_in(wall);
            const std::string at = std::string(when) + ": file " + rel + ": ";
            if (!g->layout)
            {
                std::map<long, long> hc_, wc; for (auto i : hi) ++hc_[i]; for (auto i : wi) ++wc[i];
                bool said = false;
                for (auto& x : wc) if (!hc_.count(x.first)) { expect(false, "lost-entry", at + "entry " + str(x.first) + " is missing"); said = true; break; }
                for (auto& x : hc_)
                {
                    if (x.second > wc[x.first] && wc[x.first]) { expect(false, "duplicate-entry", at + "entry " + str(x.first) + " appears " + str(x.second) + " times"); said = true; break; }
                    if (!wc[x.first])
                    {
                        const bool foreign = x.first < 0 || x.first >= static_cast<long>(g->specs.size()) || g->specs[static_cast<std::size_t>(x.first)].file != static_cast<int>(f);
                        expect(false, foreign ? "foreign-entry" : "rotation", at + "entry " + str(x.first) + (foreign ? " does not belong here" : " should have been rotated away")); said = true; break;
                    }
                }
                if (said) continue;
                if (hi != wi) { expect(false, "order", at + "entries are out of order"); continue; }
            }
            if (g->exact)
            {
                std::size_t hh = 0, wh = 0; const std::string mark = g->layout ? "Timestamp  " : "<H";
                for (auto& x : have) hh += times_in(x, mark);
                for (auto& x : want) wh += times_in(x, mark);
                if (hh != wh) { expect(false, "header-count", at + str(static_cast<long>(hh)) + " header lines instead of " + str(static_cast<long>(wh))); continue; }
                if (hall == wall || have.size() != want.size()) { expect(false, "rotation", at + str(static_cast<long>(have.size())) + " files instead of " + str(static_cast<long>(want.size())) + " or entries in the wrong one"); continue; }
            }
            for (std::size_t i = 0; i < std::max(have.size(), want.size()); ++i)
            {
                const std::string h = i < have.size() ? have[i] : "", w = i < want.size() ? want[i] : "";
                if (h != w) { expect(false, g->layout ? "layout" : "content", at + "index " + str(static_cast<long>(i)) + " holds '" + shorten(h) + "' instead of '" + shorten(w) + "'"); break; }
            }
        }
        for (auto& d : g->decoys)
        {
            auto it = actual.find(d.first);
            if (it == actual.end() || it->second != d.second) expect(false, "extra-file", std::string(when) + ": unrelated file " + d.first + " was changed or removed");
            if (it != actual.end()) actual.erase(it);
        }
        for (auto& x : actual) { expect(false, "extra-file", std::string(when) + ": unexpected file " + x.first + ": " + shorten(x.second)); break; }
        if (fs_outside()) expect(false, "touched-outside", std::string(when) + ": something outside the log directory was about to be changed");
    }

    // ---- histories -------------------------------------------------------------------------------
    struct einfo { long call = -1, ret = -1, w = -1; int ws = 0, tag = -1; std::int64_t time = -1; int evals = 0; };
    struct view
    {
        std::vector<einfo> t; const ds_event* e; long n; long dtor_call = -1, dtor_ret = -1;
        explicit view() : t(g->specs.size()), e(ds_events()), n(ds_nevents())
        {
            for (long i = 0; i < n; ++i)
                switch (e[i].kind)
                {
                    case CALL: t[e[i].a].call = i; break;
                    case RET: t[e[i].a].ret = i; break;
                    case WR: { auto& k = t[e[i].a]; ++k.ws; k.w = i; k.tag = static_cast<int>(e[i].b); k.time = e[i].c; break; }
                    case EVAL: ++t[e[i].a].evals; break;
                    case DTOR_CALL: dtor_call = i; break;
                    case DTOR_RET: dtor_ret = i; break;
                }
        }
    };
    // values a field could have had at some moment in [from,to]
    struct setting { long v, call, ret; };
    std::set<long> possible(const view& v, int f, long initial, long from, long to)
    {
        std::vector<setting> s{ { initial, -1, -1 } };
        for (long i = 0; i < v.n; ++i)
        {
            if (v.e[i].kind == SET_CALL && v.e[i].a == f) s.push_back({ v.e[i].b, i, v.n });
            if (v.e[i].kind == SET_RET && v.e[i].a == f) for (auto k = s.rbegin(); k != s.rend(); ++k) if (k->ret == v.n && v.e[k->call].tid == v.e[i].tid) { k->ret = i; break; }
        }
        std::set<long> r;
        for (auto& a : s)
        {
            long end = v.n;
            for (auto& b : s) if (&a != &b && b.call > a.ret) end = std::min(end, b.ret);
            if (a.call <= to && end >= from) r.insert(a.v);
        }
        return r;
    }

    int level_index(lv l) { for (int i = 0; i < 10; ++i) if (levels[i] == l) return i; return -1; }

    // must / must not be accepted by the level filter: 1, 0, or 2 when the level changed during the call
    int passes(const view& v, std::size_t i)
    {
        const auto& t = v.t[i];
        if (t.call < 0) return 0;
        bool yes = false, no = false;
        for (long p : possible(v, F_LEVEL, level_index(g->c0.level), t.call, t.ret < 0 ? v.n : t.ret)) (level_index(g->specs[i].level) >= p ? yes : no) = true;
        if (yes && v.dtor_call >= 0 && (t.ret < 0 || t.ret > v.dtor_call)) return 2;     // by a writer, while the logger is being destroyed
        return yes && no ? 2 : yes ? 1 : 0;
    }

    void analyse(bool destroyed)
    {
        view v;
        for (std::size_t i = 0; i < v.t.size(); ++i)
        {
            const auto& t = v.t[i]; const spec& s = g->specs[i];
            const std::string id = "entry " + str(static_cast<long>(i));
            expect(t.ws <= 1, "duplicate-entry", id + " was written " + str(t.ws) + " times");
            const int p = passes(v, i);
            if (t.ws)
            {
                expect(t.call >= 0 && t.call < t.w, "foreign-entry", id + " written before it was logged");
                expect(p != 0, "level-filter", id + " at level " + title(s.level) + " was logged although the level excludes it");
                expect(t.time >= static_cast<std::int64_t>(v.e[t.call].vt) && (t.ret < 0 || t.time <= static_cast<std::int64_t>(v.e[t.ret].vt)), "metadata", id + ": recorded time lies outside the call");
            }
            else if (destroyed && p == 1 && !g->no_accept) expect(false, hc::text("kind", "lost-entry").c_str(), id + " was accepted and never written");
            if (s.how >= HOW_M_WRITE && s.how <= HOW_M_STREAM && t.call >= 0 && p != 2)
                expect(t.evals == p, "macro-eval", id + ": message arguments evaluated " + str(t.evals) + " times with the level " + (p ? "enabled" : "filtered out"));
            if (v.dtor_ret >= 0 && t.ws) expect(t.w < v.dtor_ret, "write-after-dtor", id + " was written after the destructor had returned");
        }
        for (std::size_t i = 0; i < v.t.size(); ++i)
            if (v.t[i].ws && v.t[i].ret >= 0)
                for (std::size_t j = 0; j < v.t.size(); ++j)
                    if (v.t[j].ws && g->specs[i].file == g->specs[j].file && v.t[i].ret < v.t[j].call)
                    {
                        if (v.t[i].w > v.t[j].w) expect(false, "order", "entry " + str(static_cast<long>(i)) + " was logged before entry " + str(static_cast<long>(j)) + " and written after it");
                        hc::count("ordered_pairs");
                    }
        for (long i = 0; i < v.n; ++i)
            if (v.e[i].kind == NOPE)
                expect(false, v.e[i].a == 1 ? "message" : v.e[i].a == 6 ? "foreign-entry" : "metadata", "entry " + str(v.e[i].b) + ": wrong " + (v.e[i].a == 1 ? "message" : v.e[i].a == 2 ? "level" : v.e[i].a == 3 ? "source information" : v.e[i].a == 4 ? "thread id" : "identity"));
    }

    // which entries were discarded, and may or must have been
    void analyse_buffers()
    {
        view v;
        std::vector<long> maxat(static_cast<std::size_t>(v.n) + 1, g->c0.max), quiet_before(static_cast<std::size_t>(v.n) + 1, -1);
        long m = g->c0.max, q = -1;
        for (long i = 0; i < v.n; ++i)
        {
            if (v.e[i].kind == SET_RET && v.e[i].a == F_MAX) m = v.e[i].b;
            if (v.e[i].kind == QUIET) q = i;
            maxat[static_cast<std::size_t>(i)] = m; quiet_before[static_cast<std::size_t>(i)] = q;
        }
        long discarded = 0, expected_count = 0;
        for (std::size_t i = 0; i < v.t.size(); ++i)
        {
            const auto& t = v.t[i];
            if (t.call < 0 || t.ret < 0 || passes(v, i) != 1) continue;
            const long max = maxat[static_cast<std::size_t>(t.call)];
            long sure = 0, maybe = 0;
            for (std::size_t j = 0; j < v.t.size(); ++j)
            {
                const auto& o = v.t[j];
                if (i == j || o.call < 0 || !o.ws || g->specs[i].file != g->specs[j].file) continue;
                if (o.ret >= 0 && o.ret < t.call && o.w > t.ret) ++sure;
                const bool erased = o.w < quiet_before[static_cast<std::size_t>(t.call)];
                if (o.call < t.ret && !erased) ++maybe;
            }
            if (t.ws) { if (max) expect(sure < max, "overfull", "entry " + str(static_cast<long>(i)) + " was accepted while " + str(sure) + " entries of its file were waiting with a maximum of " + str(max)); hc::count("accepted"); }
            else { ++discarded; expect(max && maybe >= max, "discard-not-full", "entry " + str(static_cast<long>(i)) + " was discarded while at most " + str(maybe) + " entries of its file were waiting with a maximum of " + str(max)); }
        }
        hc::count("discarded", discarded);
        // the counter: it is the number of discards since the last reset; what overlaps may count or not
        for (long i = 0; i < v.n; ++i)
        {
            if (v.e[i].kind != DISC) continue;
            long call = i; while (call > 0 && (v.e[call].kind != DISC_CALL || v.e[call].tid != v.e[i].tid)) --call;
            long surely = -1, maybe = -1, lo = 0, hi = 0;   // every discard that returned before `surely` is forgotten; one called after `maybe` is not
            for (long j = 0; j < i; ++j)
            {
                if (v.e[j].kind != RESET_CALL) continue;
                long ret = j; while (ret < v.n && (v.e[ret].kind != RESET || v.e[ret].tid != v.e[j].tid)) ++ret;
                if (ret < call && j > surely) surely = j;
                maybe = std::max(maybe, std::min(ret, i));
            }
            for (std::size_t k = 0; k < v.t.size(); ++k)
            {
                const auto& t = v.t[k];
                if (t.call < 0 || t.ws || passes(v, k) != 1) continue;
                if (t.ret >= 0 && t.ret < call && t.call > maybe) ++lo;
                if (t.call < i && (t.ret < 0 || t.ret > surely)) ++hi;
            }
            expect(v.e[i].a >= lo && v.e[i].a <= hi, "discard-count", "discard count reads " + str(v.e[i].a) + " with " + str(lo) + (lo != hi ? ".." + str(hi) : "") + " calls discarded");
            ++expected_count;
        }
        hc::count("discard_counts_checked", expected_count);
    }

    // nothing that reached the flush size may be left waiting at rest
    void check_rest(const char* when, const char* kind = "flush-stalled")
    {
        view v;
        std::vector<long> waiting(g->names.size(), 0);
        for (std::size_t i = 0; i < v.t.size(); ++i) if (v.t[i].ret >= 0 && !v.t[i].ws && passes(v, i) == 1) ++waiting[static_cast<std::size_t>(g->specs[i].file)];
        if (g->no_accept) return;
        const long flush = static_cast<long>(g->lg->buffer_flush_size());
        for (std::size_t f = 0; f < waiting.size(); ++f)
            expect(waiting[f] < std::max(1L, flush), kind, std::string(when) + ": " + str(waiting[f]) + " entries for " + g->names[f].rel + " are left unwritten at rest with a flush size of " + str(flush));
        hc::count("rest_checks");
    }
    void quiet(const char* when, bool tree = true)
    {
        ds_quiesce();
        ds_rec(QUIET, 0, 0, 0);
        check_rest(when);
        if (tree) check_tree(when);
    }

    // ---- building worlds -------------------------------------------------------------------------
    // now and then a program is large: hundreds of entries per thread, dozens of files
    // (deep: few files, thousands of entries held in the buffers at once)
    bool big = false, deep = false;
    // a rotation renames every file there is: many small files take long
    void tame(config& c) { if (big && c.rsize && c.rlimit > 40) c.rsize = 800 + 20 * c.rsize; }
    // now and then a size is larger than narrower types than its own can hold
    long vast(hc::rng& r)
    {
        static const long bases[] = { 65536, 65536, 16777216, 2147483648L, 4294967296L, 4294967296L, 1L << 40, 1L << 62 };
        hc::count("vast_sizes");
        return bases[r.in(0, 7)] + (r.chance(60) ? 0 : r.in(1, 3));
    }
    void widen(hc::rng& r, config& c)
    {
        if (r.chance(6)) c.max = vast(r);
        if (r.chance(6)) c.flush = vast(r);
        if (r.chance(6)) c.rsize = vast(r);
        if (r.chance(6)) c.rlimit = vast(r);
        tame(c);
    }
    std::string message(hc::rng& r, int style)
    {
        std::string s;
        const long c = r.in(0, 19);
        long n = c < 2 ? 0 : c < 14 ? r.in(1, 30) : c < 18 ? r.in(30, 300) : style ? r.in(300, 20000) : 40;
        static const char* const bits[] = { "%s", "%d", "%n", "{}", "\n", "\r\n", "\t", "|", "\xC3\xA9", "\\", "_1" };
        while (static_cast<long>(s.size()) < n) { if (style && r.chance(12)) s += bits[r.in(0, 10)]; else s += static_cast<char>(r.in('a', 'z')); }
        return s;
    }
    int add(world& w, hc::rng& r, int file, lv level, int how, std::string msg)
    {
        spec s; s.file = file; s.level = level; s.how = how; s.num = static_cast<int>(r.in(-5000, 5000)); s.msg = std::move(msg);
        const int id = static_cast<int>(w.specs.size());
        if (how == HOW_WRITEF2) { char b[200]; std::snprintf(b, sizeof b, "%d-%s|%05.2f%%%c", s.num, src_func(id), s.num / 8.0, 'x'); s.msg = b; }
        if (how == HOW_STREAM_MIX) { std::ostringstream o; mixed(o, s.num, src_func(id)); s.msg = o.str(); }
        if (how == HOW_FORMAT2) { char b[200]; std::snprintf(b, sizeof b, "%9s|%s0x%x|%.3f|c%+d{}%s", src_func(id), s.num < 0 ? "-" : "", s.num < 0 ? -s.num : s.num, s.num / 8.0, s.num, s.num % 2 == 0 ? "true" : "false"); s.msg = b; }
        w.specs.push_back(s);
        return id;
    }
    lv any_level(hc::rng& r) { return levels[r.in(0, 8)]; }
    void add_names(world& w, hc::rng& r, int n, bool odd)
    {
        static const char* const plain[] = { "a.log", "b.log", "c.log", "d.log" };
        static const char* const odds[] = { "noext", "x.tar.gz", ".hidden", "d.1/e", "deep/er/f.log", "sp ace.log", "a_1b.log", "l.o.g", "b.", "u\xC3\xA9.log", "d.1/g.txt", "q_2.log",
            "i\xFF\xC3.log", "d\xE9/x\x80.l\xFEg", "50%d%s.log", "a'b\"$c&;\n.log" };
        std::vector<int> used;
        if (big && !deep) n = static_cast<int>(r.in(n, 40));        // (never fewer than were asked for)
        for (int i = 0; i < n; ++i)
        {
            std::string rel;
            if (big && i >= 3) rel = (r.chance(30) ? "s" + str(i % 3) + "/n" : "n") + str(i) + ".log"; else
            if (!odd || r.chance(30)) rel = plain[i];
            else { int k; do k = static_cast<int>(r.in(0, 15)); while (std::count(used.begin(), used.end(), k)); used.push_back(k); rel = odds[k]; }
            w.names.push_back({ r.chance(30) ? w.root + "/" + rel : rel, rel });
            w.fam.push_back({});
        }
    }
    void put(const std::string& path, const std::string& text)
    {
        fs::create_directories(fs::path(path).parent_path());
        std::FILE* f = std::fopen(path.c_str(), "wb"); if (f) { std::fwrite(text.data(), 1, text.size(), f); std::fclose(f); }
    }
    void preexisting(world& w, hc::rng& r)
    {
        for (std::size_t f = 0; f < w.names.size(); ++f)
            if (r.chance(50))
            {
                const int n = static_cast<int>(r.in(1, 5));
                auto& m = w.fam[f];
                m.current = r.chance(85);
                for (int i = 0; i < n; ++i) m.gen.push_back("old" + str(i) + std::string(static_cast<std::size_t>(r.in(0, 40)), '.') + "\n");
                if (m.current && r.chance(20)) m.gen[0].clear();
                if (!m.current) { if (m.gen.size() == 1) m.gen.clear(); else m.gen[0].clear(); }
                for (std::size_t i = 0; i < m.gen.size(); ++i) if (i || m.current) put(w.root + "/" + index_path(w.names[f].rel, i), m.gen[i]);
            }
    }
    void add_decoys(world& w, hc::rng& r)
    {
        for (auto& n : w.names)
        {
            const fs::path p{ n.rel };
            const std::string stem = (p.parent_path() / p.stem()).string(), ext = p.extension().string();
            for (auto& d : { stem + "_x" + ext, stem + "_01" + ext, stem + "_1" + ext + ".bak", stem + "1" + ext, stem + "_" + ext, stem + "_1_1" + ext, (p.parent_path() / ("a" + p.stem().string() + "_1" + ext)).string(), stem + "_-1" + ext })
            {
                bool clash = false;
                for (auto& o : w.names) for (std::size_t i = 0; i < 40; ++i) clash |= index_path(o.rel, i) == d;
                if (!clash && r.chance(40)) { w.decoys[d] = "decoy " + d; put(w.root + "/" + d, w.decoys[d]); }
            }
        }
    }

    void begin_world(world& w, std::uint64_t seed)
    {
        static int n = 0;
        w.root = scratch + "/c" + str(n++ % 8) + "_" + str(static_cast<long>(seed % 100000));
        fs::remove_all(w.root);
        fs::create_directories(w.root); fs::create_directories(scratch + "/elsewhere");
        if (::chdir(w.root.c_str())) std::abort();
        fs_root(w.root.c_str());
        g = &w;
    }
    void make_logger(world& w, bool writers = true)
    {
        fs_hook(w.fault_dir ? &fault : &no_fault);
        w.store = ::operator new(sizeof(lg_t));
        w.lg = new (w.store) lg_t{};
        lg_t& l = *w.lg;
        w.c0 = w.c;
        l.level(w.c.level).create_dirs(w.c.dirs).write_header(w.c.header).buffer_max_size(static_cast<std::size_t>(w.c.max)).buffer_flush_size(static_cast<std::size_t>(w.c.flush))
            .file_rotation_size(static_cast<std::size_t>(w.c.rsize)).file_rotation_limit(static_cast<std::size_t>(w.c.rlimit));
        if (writers) l.log_writer(make_writer(w.c.writer)).header_writer(make_hwriter(w.c.hwriter));
        expect(l.is_logging(), "config-readback", "a new logger does not report that it is logging");
    }
    void set(int f, long v)
    {
        apply_events();
        do_set(f, v);
        config& c = g->c;
        switch (f) { case F_LEVEL: c.level = levels[v]; break; case F_DIRS: c.dirs = v; break; case F_HEADER: c.header = v; break; case F_MAX: c.max = v; break; case F_FLUSH: c.flush = v; break;
            case F_RSIZE: c.rsize = v; break; case F_RLIMIT: c.rlimit = v; break; case F_WRITER: c.writer = static_cast<int>(v); break; case F_HWRITER: c.hwriter = static_cast<int>(v); break; }
    }
    std::vector<std::thread> spawn(world& w)
    {
        std::vector<std::thread> th;
        for (auto& u : w.users) th.emplace_back([&u] { for (auto& o : u) exec(o); });
        return th;
    }
    void destroy(world& w)
    {
        ds_rec(DTOR_CALL, 0, 0, 0);
        w.lg->~lg_t();
        ds_rec(DTOR_RET, 0, 0, 0);
        ds_set(FS_AFTER, static_cast<std::int64_t>(fs_calls()));
        ds_dead(w.store, sizeof(lg_t));
        w.lg = nullptr;
    }
    void end_world(world& w, bool tree = true)
    {
        const int left = ds_end();
        expect(left == 0, "thread-leak", str(left) + " threads still alive after the logger was destroyed");
        expect(static_cast<std::int64_t>(fs_calls()) == ds_get(FS_AFTER), "write-after-dtor", "files were touched after the destructor had returned");
        ds_undead();
        if (tree) check_tree("end");
        analyse(true);
        fs_hook(nullptr);
        hc::count("events", ds_nevents()); hc::count("steps", ds_steps());
        for (std::uint32_t i = 0; i < ds_nevents(); ++i) if (ds_events()[i].kind == WR) hc::count("entries_written");
        hc::distinct(ds_hash());
        if (hc::counters()["iterations"] % 97 == 1) hc::sample(w.desc + " => " + describe(0, 25));
        ::operator delete(w.store);
        if (::chdir("/")) std::abort();
        fs::remove_all(w.root);
        g = nullptr;
    }
    std::string cfg_text(const config& c)
    {
        return " flush" + str(c.flush) + " max" + str(c.max) + " rsize" + str(c.rsize) + " rlimit" + str(c.rlimit) + (c.header ? " hdr" : "") + (c.dirs ? "" : " nodirs") + " ";
    }
    void random_users(world& w, hc::rng& r, int nu, int lo, int hi, int style, std::vector<int>* all = nullptr)
    {
        w.users.assign(static_cast<std::size_t>(nu), {});
        for (auto& u : w.users)
        {
            const int k = static_cast<int>(deep ? r.in(hi * 60, hi * 130) : big ? r.in(hi * 5, hi * (r.chance(15) ? 60 : 25)) : r.in(lo, hi));
            for (int i = 0; i < k && w.specs.size() < 4000; ++i)
            {
                const int how = style ? static_cast<int>(r.in(0, HOW_N - 1)) : static_cast<int>(r.in(0, 5));
                int id = add(w, r, static_cast<int>(r.in(0, static_cast<long>(w.names.size()) - 1)), r.chance(70) ? lv::info : any_level(r), how, message(r, style));
                u.push_back({ LOG, id, 0 });
                if (all) all->push_back(id);
                if (r.chance(15)) u.push_back({ YIELD, 0, r.in(1, 12) });
                if (r.chance(5)) u.push_back({ SLEEP, 0, r.in(1, 2000) });
            }
        }
    }
    void run_users(world& w) { auto th = spawn(w); for (auto& t : th) t.join(); }
    int ptag(hc::rng& r) { return static_cast<int>(r.in(0, 3)); }

    // ---- scenarios -------------------------------------------------------------------------------
    void general(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        static const long flushes[] = { 0, 1, 1, 1, 2, 3, 5, 100 };
        w.c.flush = flushes[r.in(0, 7)]; w.c.header = r.chance(40); w.c.hwriter = ptag(r);
        if (r.chance(35)) { w.c.rsize = r.in(1, 300); w.c.rlimit = r.chance(50) ? 1000 : r.in(0, 4); }
        widen(r, w.c);
        deep = big && r.chance(50);
        if (deep) { w.c.flush = r.chance(70) ? 1000000 : r.in(1000, 4000); hc::count("deep_programs"); }
        add_names(w, r, static_cast<int>(deep ? r.in(2, 3) : r.in(1, 4)), r.chance(30));
        if (r.chance(20)) preexisting(w, r);
        w.desc = "general" + cfg_text(w.c);
        const int phases = static_cast<int>(r.in(1, 3));
        std::vector<std::vector<std::vector<op>>> plan;
        for (int p = 0; p < phases; ++p) { random_users(w, r, static_cast<int>(r.in(1, 4)), 1, 9, 1); plan.push_back(w.users); }
        ds_begin(seed, 0, &fatal);
        make_logger(w);
        for (int p = 0; p < phases; ++p)
        {
            w.users = plan[static_cast<std::size_t>(p)];
            run_users(w);
            if (r.chance(60))
            {
                quiet("between phases");
                if (r.chance(40)) set(F_FLUSH, flushes[r.in(0, 7)]);
                if (r.chance(50)) quiet("after a flush size change");
            }
        }
        if (r.chance(50)) quiet("before destruction");
        destroy(w);
        end_world(w);
    }

    void destruction(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        static const long flushes[] = { 0, 1, 1, 2, 4, 1000 };
        w.c.flush = flushes[r.in(0, 5)]; w.c.header = r.chance(30);
        if (r.chance(30)) { w.c.rsize = r.in(20, 200); w.c.rlimit = 1000; }
        if (big && r.chance(50)) w.c.flush = r.in(5, 1000);
        tame(w.c);
        add_names(w, r, static_cast<int>(r.in(1, 3)), false);
        const int nu = static_cast<int>(r.in(0, 3));
        w.desc = "destruction" + cfg_text(w.c);
        random_users(w, r, nu, 0, 5, 0);
        const long yields = r.chance(50) ? 0 : r.in(1, 30);
        const bool settle = r.chance(20), tail = r.chance(50);
        std::vector<int> extra;
        if (tail) for (long i = r.in(1, 4); i > 0; --i) extra.push_back(add(w, r, 0, lv::error, HOW_WRITE, message(r, 0)));
        ds_begin(seed, 0, &fatal);
        make_logger(w);
        if (nu) run_users(w);
        if (settle) quiet("settled");
        for (int id : extra) do_log(id);
        for (long i = 0; i < yields; ++i) ds_yield();
        destroy(w);
        for (int i = 0; i < 5; ++i) ds_yield();
        end_world(w);
    }

    // flush sizes being reached and lowered while the writer is busy, falling asleep or asleep
    void flushing(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        w.c.flush = r.in(2, big ? 400 : 8); if (r.chance(10)) w.c.flush = vast(r);
        add_names(w, r, static_cast<int>(r.in(1, 3)), false);
        w.desc = "flushing" + cfg_text(w.c);
        const int rounds = static_cast<int>(r.in(1, 4));
        std::vector<std::vector<std::vector<op>>> plan; std::vector<std::pair<long, long>> sizes;
        for (int p = 0; p < rounds; ++p) { random_users(w, r, static_cast<int>(r.in(1, 2)), 1, 7, 0); plan.push_back(w.users); sizes.push_back({ r.in(0, big ? 60 : 3), r.in(2, big ? 400 : 9) }); }
        ds_begin(seed, r.chance(50) ? DS_NO_SPURIOUS : 0, &fatal);
        make_logger(w);
        for (int p = 0; p < rounds; ++p)
        {
            w.users = plan[static_cast<std::size_t>(p)];
            auto th = spawn(w);
            const bool during = r.chance(60);
            if (during) { for (long i = r.in(0, 12); i > 0; --i) ds_yield(); set(F_FLUSH, sizes[static_cast<std::size_t>(p)].first); }
            for (auto& t : th) t.join();
            if (!during) { for (long i = r.chance(40) ? 0 : r.in(0, 25); i > 0; --i) ds_yield(); set(F_FLUSH, sizes[static_cast<std::size_t>(p)].first); }
            quiet("after the flush size was lowered", r.chance(30));
            set(F_FLUSH, sizes[static_cast<std::size_t>(p)].second);
        }
        destroy(w);
        end_world(w);
    }

    void bounded(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        w.no_accept = true;
        w.c.max = r.chance(15) ? 0 : r.in(1, 6); w.c.flush = r.chance(50) ? 1 : r.in(0, 7);
        if (big && r.chance(70)) { w.c.max = r.in(7, 300); w.c.flush = r.in(0, 300); }
        widen(r, w.c);
        add_names(w, r, static_cast<int>(r.in(1, 2)), false);
        w.desc = "bounded" + cfg_text(w.c);
        const int phases = static_cast<int>(r.in(1, 4));
        std::vector<std::vector<std::vector<op>>> plan; std::vector<int> gates;
        for (int p = 0; p < phases; ++p)
        {
            std::vector<int> ids;
            random_users(w, r, static_cast<int>(r.chance(50) ? 1 : r.in(2, 3)), 2, 9, 0, &ids);
            for (auto& u : w.users) for (std::size_t i = 0; i < u.size(); ++i) if (r.chance(15)) u.insert(u.begin() + static_cast<long>(i), op{ GETDISC, 0, 0 });
            if (r.chance(25)) for (auto& u : w.users) for (std::size_t i = 0; i < u.size(); ++i) if (r.chance(15)) u.insert(u.begin() + static_cast<long>(i), op{ RESETDISC, 0, 0 });
            if (r.chance(15)) for (int id : ids) if (r.chance(30)) w.specs[static_cast<std::size_t>(id)].level = lv::trace;
            if (r.chance(60) && !ids.empty()) { w.specs[static_cast<std::size_t>(ids[static_cast<std::size_t>(r.in(0, static_cast<long>(ids.size()) - 1)) / 2])].gate = p + 1; }
            plan.push_back(w.users);
        }
        ds_begin(seed, 0, &fatal);
        make_logger(w);
        std::vector<long> next_max; for (int p = 0; p < phases; ++p) next_max.push_back(r.chance(20) ? 0 : r.in(1, big ? 300 : 6));
        for (int p = 0; p < phases; ++p)
        {
            w.users = plan[static_cast<std::size_t>(p)];
            if (r.chance(30)) set(F_LEVEL, 2);      // debug: trace entries are neither written nor discarded
            run_users(w);
            if (r.chance(70)) { ds_quiesce(); ds_rec(GATED, 0, 0, 0); }
            exec({ GETDISC, 0, 0 });
            ds_gate_open(GATE_SLOT + p + 1, 1);
            if (r.chance(70))
            {
                ds_quiesce(); ds_rec(QUIET, 0, 0, 0); check_tree("released");
                exec({ GETDISC, 0, 0 });
                if (r.chance(30)) { exec({ RESETDISC, 0, 0 }); exec({ GETDISC, 0, 0 }); }
                if (r.chance(60)) set(F_MAX, next_max[static_cast<std::size_t>(p)]);
                if (r.chance(40)) set(F_FLUSH, r.in(0, 7));
                exec({ GETDISC, 0, 0 });
                if (r.chance(50)) { ds_quiesce(); ds_rec(QUIET, 0, 0, 0); }
            }
        }
        exec({ GETDISC, 0, 0 });
        const long written_before = static_cast<long>(w.lg->num_discarded_logs()); (void)written_before;
        destroy(w);
        const int left = ds_end(); expect(left == 0, "thread-leak", "threads left");
        analyse_buffers();
        ds_set(FS_AFTER, static_cast<std::int64_t>(fs_calls()));
        end_world(w);
    }

    // the process changes its directory; names whose files have been found keep them
    void move_away(world& w, const std::set<int>& logged)
    {
        const long flush = w.c.flush;
        set(F_FLUSH, 1); quiet("before the directory changes"); set(F_FLUSH, flush);
        std::vector<bool> found(w.names.size(), false);
        for (int id : logged) found[static_cast<std::size_t>(w.specs[static_cast<std::size_t>(id)].file)] = true;
        for (std::size_t i = 0; i < w.names.size(); ++i) if (!found[i]) w.names[i].given = w.root + "/" + w.names[i].rel;
        const std::string to = scratch + "/elsewhere";
        if (::chdir(to.c_str())) std::abort();
        hc::count("directory_changes");
    }
    void rotation(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        w.c.header = r.chance(50); w.c.hwriter = ptag(r);
        w.c.rsize = r.chance(10) ? 0 : r.in(1, 250); w.c.rlimit = r.in(0, 5); w.c.flush = r.chance(60) ? 1 : r.in(2, 12);
        if (big) { w.c.rlimit = r.in(0, 40); if (r.chance(40)) w.c.rsize = r.in(250, 20000); if (r.chance(30)) w.c.flush = r.in(13, 500); }
        if (r.chance(5)) w.c.flush = vast(r);
        if (r.chance(5)) w.c.rsize = vast(r);
        if (r.chance(10)) w.c.rlimit = vast(r);
        tame(w.c);
        add_names(w, r, static_cast<int>(r.in(1, 3)), r.chance(70));
        preexisting(w, r); add_decoys(w, r);
        w.desc = "rotation" + cfg_text(w.c);
        for (auto& n : w.names) w.desc += n.given == n.rel ? n.rel + " " : "<root>/" + n.rel + " ";
        const int phases = static_cast<int>(r.in(1, 4));
        std::vector<std::vector<std::vector<op>>> plan;
        for (int p = 0; p < phases; ++p) { random_users(w, r, r.chance(70) ? 1 : 2, 3, 16, 0); plan.push_back(w.users); }
        std::set<int> logged;
        ds_begin(seed, 0, &fatal);
        make_logger(w);
        for (int p = 0; p < phases; ++p)
        {
            w.users = plan[static_cast<std::size_t>(p)];
            run_users(w);
            if (r.chance(70))
            {
                quiet("phase");
                if (r.chance(30)) { set(F_FLUSH, 1); quiet("flushed"); }
                if (r.chance(35)) set(F_RLIMIT, r.chance(10) && !big ? vast(r) : r.in(0, big ? 40 : 6));
                if (r.chance(35)) set(F_RSIZE, r.chance(20) ? 0 : r.in(1, 300));
                if (r.chance(25)) set(F_HEADER, r.in(0, 1));
                if (r.chance(20)) set(F_HWRITER, ptag(r));
                if (r.chance(20)) set(F_FLUSH, r.in(1, 12));
                ds_quiesce(); apply_events();
            }
            for (auto& u : plan[static_cast<std::size_t>(p)]) for (auto& o : u) if (o.type == LOG) logged.insert(o.id);
            if (r.chance(10)) move_away(w, logged);
        }
        destroy(w);
        end_world(w);
    }

    // files of gigabytes (with holes): sizes and last bytes are compared
    void giant(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        static const long bases[] = { 70000, 16777216, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 8589934592L };
        const long size = bases[r.in(0, 6)] + r.in(-30, 30);
        w.c.flush = r.chance(60) ? 1 : r.in(2, 5); w.c.rlimit = r.in(1, 3); w.c.header = r.chance(40);
        w.c.rsize = r.chance(20) ? 0 : r.chance(60) ? size + r.in(-20, 200) : bases[r.in(0, 6)] + r.in(-30, 30);
        w.names.push_back({ "a.log", "a.log" }); w.fam.push_back({});
        w.desc = "giant file of " + str(size) + cfg_text(w.c);
        put(w.root + "/a.log", "first\n");
        if (::truncate((w.root + "/a.log").c_str(), size)) { hc::count("giant_files_refused"); if (::chdir("/")) std::abort(); fs::remove_all(w.root); g = nullptr; return; }
        struct piece { long size; std::string tail; };
        std::vector<piece> gen{ { size, "" } };
        const std::string head = header_text(0) + "\n";
        std::vector<int> ids;
        for (long i = r.in(2, 14); i > 0; --i)
        {
            ids.push_back(add(w, r, 0, lv::info, static_cast<int>(r.in(0, 5)), message(r, 0)));
            if (w.c.rsize && gen[0].size >= w.c.rsize)
            {
                if (gen.size() > static_cast<std::size_t>(w.c.rlimit)) gen.resize(static_cast<std::size_t>(w.c.rlimit));
                gen.insert(gen.begin(), piece{ 0, "" });
            }
            const std::string t = (w.c.header && !gen[0].size ? head : "") + render(ids.back(), 0, 0) + "\n";
            gen[0].size += static_cast<long>(t.size()); gen[0].tail += t;
        }
        ds_begin(seed, 0, &fatal);
        make_logger(w);
        for (int id : ids) { do_log(id); if (r.chance(30)) ds_quiesce(); }
        destroy(w);
        const int left = ds_end(); expect(left == 0, "thread-leak", "threads left");
        ds_undead(); fs_hook(nullptr);
        for (std::size_t i = 0; i <= gen.size(); ++i)
        {
            const std::string p = w.root + "/" + index_path("a.log", i);
            struct stat st; const bool there = ::stat(p.c_str(), &st) == 0;
            if (i == gen.size()) { expect(!there, "extra-file", "there is a file more than expected: " + index_path("a.log", i)); break; }
            if (!there || st.st_size != gen[i].size) { expect(false, "rotation", index_path("a.log", i) + (there ? " has " + str(static_cast<long>(st.st_size)) + " bytes" : std::string(" is not there")) + ", expected " + str(gen[i].size) + " bytes"); break; }
            std::string got(gen[i].tail.size(), 0);
            if (std::FILE* f = std::fopen(p.c_str(), "rb"))
            {
                if (::fseeko(f, static_cast<off_t>(gen[i].size - static_cast<long>(got.size())), SEEK_SET) || std::fread(&got[0], 1, got.size(), f) != got.size()) got.clear();
                std::fclose(f);
            }
            expect(got == gen[i].tail, "content", index_path("a.log", i) + " ends with '" + shorten(got) + "', expected '" + shorten(gen[i].tail) + "'");
        }
        hc::count("giant_files"); hc::count("giant_rotations", static_cast<long>(gen.size()) - 1); hc::distinct(ds_hash());
        ::operator delete(w.store);
        if (::chdir("/")) std::abort();
        fs::remove_all(w.root);
        g = nullptr;
    }

    void metadata(hc::rng& r, std::uint64_t seed)
    {
        static const char* const zones[] = { "UTC0", "XST-5:30", "EST5EDT,M3.2.0,M11.1.0", "AAA11", "BBB-13:45" };
        ::setenv("TZ", zones[r.in(0, 4)], 1); ::tzset();
        world w; begin_world(w, seed);
        w.c.header = r.chance(50); w.c.flush = r.chance(50) ? 1 : r.in(2, 20);
        w.layout = r.chance(50);
        add_names(w, r, static_cast<int>(r.in(1, 2)), false);
        w.desc = std::string("metadata") + (w.layout ? " layout" : "") + cfg_text(w.c);
        const int nu = static_cast<int>(r.in(1, 3));
        w.users.assign(static_cast<std::size_t>(nu), {});
        for (auto& u : w.users)
            for (long i = r.in(2, 9); i > 0; --i)
            {
                const int how = static_cast<int>(r.in(0, HOW_N - 1));
                std::string m = message(r, 1);
                if (r.chance(20)) m = std::string(static_cast<std::size_t>(r.in(1000, 70000)), static_cast<char>(r.in('A', 'Z'))) + "!";
                if (r.chance(15) && how != HOW_WRITEF && how != HOW_M_WRITEF) m.insert(static_cast<std::size_t>(r.in(0, static_cast<long>(m.size()))), 1, '\0');
                u.push_back({ LOG, add(w, r, static_cast<int>(r.in(0, static_cast<long>(w.names.size()) - 1)), any_level(r), how, m), 0 });
                if (r.chance(30)) u.push_back({ SLEEP, 0, r.in(1, 3000000000L) });
            }
        ds_begin(seed, DS_NO_TIME_JUMPS, &fatal);
        make_logger(w);
        run_users(w);
        if (r.chance(50)) quiet("done");
        destroy(w);
        end_world(w);
    }

    void located();
    // the writers a new logger has, and the macros' own source information
    void defaults(hc::rng& r, std::uint64_t seed)
    {
        static const char* const zones[] = { "UTC0", "XST-5:30", "EST5EDT,M3.2.0,M11.1.0" };
        ::setenv("TZ", zones[r.in(0, 2)], 1); ::tzset();
        world w; begin_world(w, seed);
        add_names(w, r, 1, false);
        w.desc = "defaults";
        struct line { std::string msg; const char *file, *func; int line; lv level; std::int64_t lo, hi; };
        std::vector<line> want;
        const int k = static_cast<int>(r.in(1, 6));
        static const char* const files[] = { "x.cpp", "/very/long/path/to/file.hpp", "c:\\dir\\y.cc", "twenty_characters.cpp", "exactly20characters_", "", "dir/", "averyveryverylongfilename_indeed.cpp" };
        static const char* const funcs[] = { "f", "main", "operator()", "exactly_20_character", "a_function_name_beyond_twenty", "" };
        ds_begin(seed, DS_NO_TIME_JUMPS, &fatal);
        fs_hook(&no_fault);
        w.store = ::operator new(sizeof(lg_t));
        w.lg = new (w.store) lg_t{};
        w.c0 = w.c;
        lg_t& l = *w.lg;
        expect(l.level() == lv::verbose && l.create_dirs() && l.write_header() && l.buffer_max_size() == 0 && l.buffer_flush_size() == 1 && l.file_rotation_size() == 0 && l.num_discarded_logs() == 0 && l.log_writer() && l.header_writer(),
            "config-readback", "a new logger does not have the documented configuration");
        const std::string& f = w.names[0].given;
        for (int i = 0; i < k; ++i)
        {
            line x; x.msg = message(r, 0); x.file = files[r.in(0, 7)]; x.func = funcs[r.in(0, 5)];
            static const int lines[] = { 0, 1, 42, 99999, 100000, 2147483647, -7 };
            x.line = lines[r.in(0, 6)]; x.level = any_level(r);
            ds_sleep_until(ds_now() + static_cast<std::uint64_t>(r.in(1, 5000000000L)));
            want.push_back(x);
        }
        for (auto& x : want)
        {
            const pluto::source_info si{ x.file, x.line, x.func };
            x.lo = ds_realtime_base() + static_cast<std::int64_t>(ds_now());
            switch (r.in(0, 2))
            {
                case 0: l.write(f, x.level, si, x.msg); break;
                case 1: l.writef(f, x.level, si, "%s", x.msg.c_str()); break;
                default: l.stream(f, x.level, si) << x.msg; break;
            }
            x.hi = ds_realtime_base() + static_cast<std::int64_t>(ds_now());
        }
        {
            line x; x.msg = "via macro"; x.file = default_macro_file(); x.func = "default_macros"; x.level = lv::info;
            x.lo = ds_realtime_base() + static_cast<std::int64_t>(ds_now());
            default_macros(l, f, x.msg);
            x.hi = ds_realtime_base() + static_cast<std::int64_t>(ds_now());
            for (int i = 0; i < 4; ++i) if (i != 2 || PLUTO_UTILS_HAS_FORMAT) { x.line = default_macro_line + i; want.push_back(x); }
        }
        const long tid = ::gettid();
        {   // the source argument defaults to the place of the call
#if PLUTO_UTILS_HAS_SOURCE_LOCATION
            const pluto::source_info here{}; const int line_ = __LINE__;
            expect(here.line == line_ && !std::strcmp(here.file, __FILE__) && std::string(here.function).find("defaults") != std::string::npos, "metadata", "source_info does not describe the place it was made");
#endif
        }
        located();
        for (int i = 0; i < 12; ++i)
        {   // the default writer itself, given entries of any thread, time and place
            static const long tids[] = { 0, 1, 9999999, 10000000, 32768, 65536, 65537, 2147483648L, 4294967299L, 9223372036854775807L };
            static const int lines[] = { 0, 1, 42, 32768, 99999, 100000, 2147483647, -7, -2147483647 - 1 };
            const long ns = r.chance(30) ? r.in(0, 4000000000L) : r.in(0, 9200000000L) * 1000000000L + r.in(0, 999999999); const long t = r.chance(50) ? tids[r.in(0, 9)] : r.in(0, 1L << r.in(1, 62));
            const char* file = files[r.in(0, 7)]; const char* func = funcs[r.in(0, 5)]; const int line = lines[r.in(0, 8)]; const lv level = any_level(r); const std::string m = message(r, 1);
            std::ostringstream o;
            pluto::logger::default_log_writer(o, pluto::log_entry{ pluto::log_entry::time_type{ std::chrono::duration_cast<pluto::log_entry::time_type::duration>(std::chrono::nanoseconds(ns)) }, static_cast<std::size_t>(t), level, { file, line, func }, m });
            const std::string e = layout_text(ns, t, level, file, line, func, m);
            expect(o.str() == e, "layout", "the default writer gives '" + shorten(o.str()) + "', expected '" + shorten(e) + "'");
            hc::count("direct_layouts");
        }
        if (r.chance(30))
        {   // with nothing left to write, writers can be taken away
            ds_quiesce();
            l.log_writer(nullptr).header_writer(nullptr);
            expect(!l.log_writer() && !l.header_writer(), "config-readback", "a writer that was taken away is still there");
        }
        destroy(w);
        const int left = ds_end(); expect(left == 0, "thread-leak", "threads left");
        const auto tree = read_tree();
        std::string text; for (auto& x : tree) if (x.first == w.names[0].rel) text = x.second;
        expect(tree.size() == 1, "extra-file", str(static_cast<long>(tree.size())) + " files instead of one");
        const std::string head = default_header() + "\n";
        expect(text.compare(0, head.size(), head) == 0, "header-layout", "the file does not start with the documented header: " + shorten(text));
        std::size_t p = head.size(); int i = 0;
        for (auto& x : want)
        {
            const auto e = text.find('\n', p);
            const std::string got = e == text.npos ? text.substr(std::min(p, text.size())) : text.substr(p, e - p);
            p = e == text.npos ? text.size() : e + 1;
            // every microsecond of the call is fine
            bool ok = false; std::string a;
            for (std::int64_t ns = x.lo / 1000 * 1000; ns <= x.hi && !ok; ns += 1000) { a = layout_text(ns, tid, x.level, x.file, x.line, x.func, x.msg); ok = a == got; }
            expect(ok, "layout", "line " + str(i) + " is '" + shorten(got) + "', expected like '" + shorten(a) + "'"); ++i;
        }
        expect(p == text.size(), "content", "more lines than entries");
        ds_undead(); fs_hook(nullptr);
        hc::count("default_lines", i); hc::distinct(ds_hash());
        ::operator delete(w.store);
        if (::chdir("/")) std::abort();
        fs::remove_all(w.root);
        g = nullptr;
    }

    void level_texts()
    {
        struct row { lv l; const char *c, *t, *s; char k; };
        static const row rows[] = { { lv::header, "level", "Level", "LVL", 'L' }, { lv::verbose, "verbose", "Verbose", "VRB", 'V' }, { lv::trace, "trace", "Trace", "TRC", 'T' }, { lv::debug, "debug", "Debug", "DBG", 'D' },
            { lv::info, "info", "Info", "INF", 'I' }, { lv::notice, "notice", "Notice", "NTC", 'N' }, { lv::warning, "warning", "Warning", "WRN", 'W' }, { lv::error, "error", "Error", "ERR", 'E' },
            { lv::critical, "critical", "Critical", "CRT", 'C' }, { lv::fatal, "fatal", "Fatal", "FTL", 'F' } };
        for (auto& x : rows)
            if (std::strcmp(pluto::log_level_to_c_str(x.l), x.c) || std::strcmp(pluto::log_level_to_title(x.l), x.t) || std::strcmp(pluto::log_level_to_shortened(x.l), x.s) || pluto::log_level_to_char(x.l) != x.k)
                hc::violation("level-text", std::string("texts of level ") + x.c + ": " + pluto::log_level_to_c_str(x.l) + " " + pluto::log_level_to_title(x.l) + " " + pluto::log_level_to_shortened(x.l) + " " + pluto::log_level_to_char(x.l));
        for (int i = 0; i + 1 < 10; ++i) if (!(levels[i] < levels[i + 1])) hc::violation("level-text", "levels are out of order");
        for (auto p : { std::make_pair(lv::crit, lv::critical), { lv::warn, lv::warning }, { lv::note, lv::notice }, { lv::verb, lv::verbose }, { lv::ftl, lv::fatal }, { lv::crt, lv::critical }, { lv::err, lv::error },
            { lv::wrn, lv::warning }, { lv::ntc, lv::notice }, { lv::inf, lv::info }, { lv::dbg, lv::debug }, { lv::trc, lv::trace }, { lv::vrb, lv::verbose } })
            if (p.first != p.second) hc::violation("level-text", std::string("an alias is not level ") + title(p.second));
        hc::count("level_texts", 10);
    }

    void filtering(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        w.c.level = levels[r.in(0, 9)]; w.c.flush = r.chance(70) ? 1 : 10;
        add_names(w, r, 2, false);
        w.desc = std::string("filtering from ") + title(w.c.level) + cfg_text(w.c);
        std::vector<std::pair<int, std::vector<int>>> phases;
        for (long p = r.in(2, 5); p > 0; --p)
        {
            std::vector<int> ids;
            for (long i = r.in(3, 12); i > 0; --i) ids.push_back(add(w, r, static_cast<int>(r.in(0, 1)), any_level(r), static_cast<int>(r.in(0, HOW_N - 1)), message(r, 0)));
            phases.push_back({ static_cast<int>(r.in(0, 9)), ids });
        }
        const bool threaded = r.chance(40);
        ds_begin(seed, 0, &fatal);
        make_logger(w);
        for (auto& p : phases)
        {
            for (int i = 0; i < 10; ++i) expect(w.lg->should_log(levels[i]) == (level_index(w.c.level) <= i), "level-filter", std::string("should_log(") + title(levels[i]) + ") is wrong at level " + title(w.c.level));
            if (threaded) { w.users.assign(2, {}); for (std::size_t i = 0; i < p.second.size(); ++i) w.users[i % 2].push_back({ LOG, p.second[i], 0 }); run_users(w); }
            else for (int id : p.second) do_log(id);
            if (r.chance(30)) quiet("phase");
            set(F_LEVEL, p.first);
        }
        destroy(w);
        end_world(w);
    }

    void faults(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        w.c.header = r.chance(40); w.c.flush = r.chance(60) ? 1 : r.in(2, 4);
        if (r.chance(60)) { w.c.rsize = r.in(10, 200); w.c.rlimit = r.in(0, 4); }
        static const char* const bad[] = { "bad/x.log", "bad/deep/x.log", "bad.log" };
        const int which = static_cast<int>(r.in(0, 2));
        w.names = { { r.chance(50) ? w.root + "/" + bad[which] : bad[which], bad[which] }, { "a.log", "a.log" }, { "zgood.log", "zgood.log" } };
        w.fam.resize(3);
        const int mode = static_cast<int>(r.in(0, 9));      // 0-5 a number of failures, 6-8 until cleared, 9 missing directory
        static const int errs[] = { EACCES, ENOSPC, EMFILE, EIO, EBUSY, EROFS, ENAMETOOLONG };
        static const int masks[] = { FS_OPEN, FS_RENAME, FS_REMOVE, FS_MKDIR, FS_STAT, FS_OPEN | FS_RENAME | FS_REMOVE, FS_OPEN | FS_MKDIR, FS_RENAME | FS_REMOVE | FS_STAT };
        w.fault_dir = "bad"; w.fault_ops = masks[r.in(0, 7)]; w.fault_errno = errs[r.in(0, 6)];
        if (mode >= 6 && mode <= 8) w.fault_ops |= which == 2 || r.chance(50) ? FS_OPEN : FS_OPEN | FS_MKDIR;
        if (mode == 9) { w.c.dirs = false; w.fault_dir = nullptr; w.names[0] = { "bad/x.log", "bad/x.log" }; }
        else if (r.chance(40))
        {
            auto& m = w.fam[0]; m.current = true;
            for (long i = r.in(1, 4); i > 0; --i) m.gen.push_back("old" + str(i) + "\n");
            if (w.c.rsize && static_cast<long>(m.gen.size()) > w.c.rlimit + 1) m.gen.resize(static_cast<std::size_t>(w.c.rlimit + 1));
            for (std::size_t i = 0; i < m.gen.size(); ++i) put(w.root + "/" + index_path(w.names[0].rel, i), m.gen[i]);
        }
        w.desc = "faults mode" + str(mode) + " ops" + str(w.fault_ops) + " errno" + str(w.fault_errno) + " " + bad[which] + cfg_text(w.c);
        const bool at_once = r.chance(35);
        const int phases = static_cast<int>(r.in(1, 3));
        std::vector<std::vector<std::vector<op>>> plan;
        for (int p = 0; p < phases; ++p)
        {
            random_users(w, r, static_cast<int>(r.in(1, 3)), 2, 8, 0);
            // every file has enough to be written
            for (int f = 0; f < 3; ++f) for (long i = 0; i < w.c.flush; ++i) w.users[0].push_back({ LOG, add(w, r, f, lv::info, HOW_WRITE, message(r, 0)), 0 });
            for (auto& u : w.users) for (auto& o : u) if (o.type == SLEEP) o = op{ YIELD, 0, 3 };     // simulated time stands still while the writer retries
            plan.push_back(w.users);
        }
        ds_begin(seed, DS_NO_TIME_JUMPS, &fatal);
        make_logger(w);
        for (int p = 0; p < phases; ++p)
        {
            if (mode < 9) ds_set(RULE_LEFT, mode < 6 ? r.in(1, 14) : 1000000);
            w.users = plan[static_cast<std::size_t>(p)];
            run_users(w);
            const std::int64_t hits = ds_get(RULE_HITS);
            if (mode >= 6 && p == 0)
            {
                // the failing file fails for as long as it takes the others to be written
                for (long k = 0; ; ++k)
                {
                    view v; long missing = 0;
                    for (std::size_t i = 0; i < v.t.size(); ++i) if (w.specs[i].file && v.t[i].ret >= 0 && !v.t[i].ws) ++missing;
                    if (missing < 2 * w.c.flush - 1 || missing == 0) break;
                    if (k > 300) { expect(false, "fault-lost", "entries of other files stay unwritten while one file fails (" + str(static_cast<long>(ds_get(RULE_HITS) - hits)) + " failed attempts meanwhile)"); break; }
                    for (int i = 0; i < 40; ++i) ds_yield();
                    if (k % 20 == 19) ds_advance(ds_now() + 1000000000ULL);
                }
                hc::count("faults_persistent");
            }
            ds_set(RULE_LEFT, 0);
            if (mode == 9 && p == 0) { ds_nopreempt(1); fs_hook(nullptr); fs::create_directories(w.root + "/bad"); fs_hook(&no_fault); ds_nopreempt(-1); }
            if (r.chance(70) && !(at_once && p + 1 == phases))
            {
                ds_sleep_until(ds_now() + 100000000000ULL);
                ds_quiesce(); ds_rec(QUIET, 0, 0, 0);
                check_rest("after the failure cleared", "fault-stalled");
                check_tree("after the failure cleared");
            }
        }
        hc::count("faults_injected", static_cast<long>(ds_get(RULE_HITS)));
        // the failure may clear at the very end: what is destroyed then still writes everything
        if (!at_once) { ds_sleep_until(ds_now() + 100000000000ULL); ds_quiesce(); }
        destroy(w);
        end_world(w);
    }

    void reconfigure(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        w.exact = false;
        w.c.rlimit = 1000; w.c.flush = r.in(0, 4);
        add_names(w, r, static_cast<int>(r.in(1, 3)), false);
        w.desc = "reconfigure" + cfg_text(w.c);
        const int nu = static_cast<int>(r.in(2, 4));
        random_users(w, r, nu, 2, 8, 0);
        const bool change_level = r.chance(30);
        auto value = [&](int f) -> long
        {
            switch (f) { case F_LEVEL: return r.in(0, 9); case F_DIRS: return 1; case F_HEADER: return r.in(0, 1); case F_MAX: return r.chance(50) ? 0 : r.chance(20) ? vast(r) : 1000 + r.in(0, 9); case F_FLUSH: return r.chance(10) ? vast(r) : r.in(0, 6);
                case F_RSIZE: return r.chance(10) ? vast(r) : r.chance(40) ? 0 : (big ? 4000 : 0) + r.in(1, 200); case F_RLIMIT: return r.chance(15) ? vast(r) : 1000 + r.in(0, 9); default: return ptag(r); }
        };
        for (int u = 0; u < nu; ++u)
            for (long k = r.in(1, 8); k > 0; --k)
            {
                int f = static_cast<int>(r.in(0, F_N - 1));
                if (f == F_LEVEL && !change_level) f = F_WRITER;
                auto& v = w.users[static_cast<std::size_t>(u)];
                const long at = r.in(0, static_cast<long>(v.size()));
                if (r.chance(65)) { v.insert(v.begin() + at, op{ SET, f, value(f) }); if (r.chance(50)) v.insert(v.begin() + at + 1, op{ GET, f, 0 }); }
                else v.insert(v.begin() + at, op{ GET, f, 0 });
                if (r.chance(10)) v.insert(v.begin() + at, op{ GETDISC, 0, 0 });
            }
        for (auto& s : w.specs) if (r.chance(15))
            for (long k = r.in(1, 2); k > 0; --k)
            {
                int f = static_cast<int>(r.in(0, F_N - 1)); if (f == F_LEVEL && !change_level) f = F_WRITER;
                if (r.chance(70)) s.inside.push_back({ SET, f, value(f) }); else s.inside.push_back({ GET, f, 0 });
            }
        const std::size_t plain = w.specs.size();
        if (r.chance(25))   // a writer that logs (to another file)
        {
            const int id = add(w, r, static_cast<int>(w.names.size()) - 1, lv::fatal, HOW_WRITE, "from a writer");
            for (std::size_t i = 0; i < plain; ++i) if (w.specs[i].level == lv::info && (i % 3) == 0) { w.specs[i].inside.push_back({ LOG, id, 0 }); break; }
        }
        const config initial = w.c;
        ds_begin(seed, 0, &fatal);
        make_logger(w);
        auto th = spawn(w);
        if (r.chance(50)) for (long i = r.in(1, 5); i > 0; --i) { const int f = static_cast<int>(r.in(1, F_N - 1)); exec({ SET, f, value(f) }); }
        for (auto& t : th) t.join();
        ds_quiesce();
        ds_rec(QUIET, 0, 0, 0);
        check_rest("after reconfiguration");
        check_tree("after reconfiguration");
        if (r.chance(20))
        {   // with nothing being written, writers can be taken away for a while
            w.lg->log_writer(nullptr).header_writer(nullptr);
            expect(!w.lg->log_writer() && !w.lg->header_writer(), "config-readback", "a writer that was taken away is still there");
            set(F_WRITER, ptag(r)); set(F_HWRITER, ptag(r));
        }
        destroy(w);
        const int left = ds_end(); expect(left == 0, "thread-leak", "threads left");
        {
            view v;
            const long init[F_N] = { level_index(initial.level), initial.dirs, initial.header, initial.max, initial.flush, initial.rsize, initial.rlimit, initial.writer, initial.hwriter };
            std::map<int, long> open;
            for (long i = 0; i < v.n; ++i)
            {
                if (v.e[i].kind == GET_CALL) open[v.e[i].tid] = i;
                if (v.e[i].kind == GET_RET)
                {
                    const int f = static_cast<int>(v.e[i].a);
                    if (f >= F_WRITER) { expect(v.e[i].b == -2, "config-readback", std::string(field_name[f]) + " reads back empty"); continue; }
                    const auto p = possible(v, f, init[f], open[v.e[i].tid], i);
                    expect(p.count(v.e[i].b), "config-readback", std::string(field_name[f]) + " reads " + str(v.e[i].b) + ", which was not its value at any time during the call");
                    hc::count("readbacks");
                }
                if (v.e[i].kind == DISC) expect(v.e[i].a == 0, "discard-count", "entries discarded without a full buffer");
            }
            for (std::size_t i = 0; i < v.t.size(); ++i)
                if (v.t[i].ws)
                {
                    const auto p = possible(v, F_WRITER, init[F_WRITER], v.t[i].call, v.t[i].w);
                    expect(p.count(v.t[i].tag), "writer-mix", "entry " + str(static_cast<long>(i)) + " was written by writer " + str(v.t[i].tag) + ", which was not configured between the call and the write");
                    hc::count("writer_choices");
                }
            for (long i = 0; i < v.n; ++i) if (v.e[i].kind == HD) hc::count("headers");
        }
        ds_set(FS_AFTER, static_cast<std::int64_t>(fs_calls()));
        end_world(w);
    }

    // ---- crashes ---------------------------------------------------------------------------------
    struct shared { long crash_at, mode, calls; };
    shared* sh = nullptr;
    int crash_hook(int op, const char*, const char*, std::uint64_t n)
    {
        sh->calls = static_cast<long>(n) + 1;
        if (sh->crash_at < 0 || static_cast<long>(n) < sh->crash_at) return 0;
        if (op == FS_STAT) return FS_CRASH_BEFORE;
        return sh->mode == 0 ? FS_CRASH_BEFORE : sh->mode == 1 ? FS_CRASH_AFTER : op == FS_WRITE ? FS_CRASH_HALF : FS_CRASH_AFTER;
    }
    struct crash_plan { config c; int files; std::vector<std::pair<int, int>> entries; /* file, padding */ int run; std::uint64_t seed; };

    std::string token(int run, int file, long n, int pad) { return "\x02" "E" + str(run) + ":" + str(file) + ":" + str(n) + ":" + std::string(static_cast<std::size_t>(pad), static_cast<char>('a' + n % 26)) + "\x03"; }

    [[noreturn]] void crash_child(const crash_plan& p, const std::string& root)
    {
        hc::on_step(hc::where());
        world w; w.root = root; g = &w; w.desc = "crash run" + str(p.run) + cfg_text(p.c);
        for (int f = 0; f < p.files; ++f) { w.names.push_back({ "f" + str(f) + ".log", "f" + str(f) + ".log" }); }
        std::vector<long> n(static_cast<std::size_t>(p.files), 0);
        ds_begin(p.seed, 0, &fatal);
        void* mem = ::operator new(sizeof(lg_t));
        lg_t* l = new (mem) lg_t{};
        l->write_header(p.c.header).buffer_flush_size(static_cast<std::size_t>(p.c.flush)).file_rotation_size(static_cast<std::size_t>(p.c.rsize)).file_rotation_limit(static_cast<std::size_t>(p.c.rlimit));
        l->log_writer([](std::ostream& o, const pluto::log_entry& e) { o << e.message; }).header_writer([](std::ostream& o) { o << "#H#"; });
        fs_root(root.c_str());
        fs_hook(&crash_hook);
        for (auto& e : p.entries)
        {
            l->write(w.names[static_cast<std::size_t>(e.first)].given, lv::info, { "x", 1, "y" }, token(p.run, e.first, n[static_cast<std::size_t>(e.first)]++, e.second));
            if (ds_rand() % 8 == 0) ds_quiesce();
        }
        l->~lg_t();
        ds_end();
        ::_exit(hc::violations() ? 15 : 0);
    }

    struct item { int run; long n; bool cut; };
    // entries of one file family, oldest first; complains about anything that is not an entry or a header
    std::vector<item> parse_family(const std::map<std::string, std::string>& t, int f, const std::string& what, std::string* all)
    {
        std::vector<std::size_t> idx;
        for (std::size_t i = 0; i < 60; ++i) if (t.count(index_path("f" + str(f) + ".log", i))) idx.push_back(i);
        std::vector<item> r; std::string s;
        for (auto i = idx.rbegin(); i != idx.rend(); ++i) s += t.at(index_path("f" + str(f) + ".log", *i));
        *all = s;
        for (std::size_t p = 0; p < s.size(); )
        {
            if (s[p] == '\n') { ++p; continue; }
            if (s.compare(p, 3, "#H#") == 0) { p += 3; continue; }
            if (s.compare(p, 3, std::string("#H#").substr(0, std::min<std::size_t>(3, s.size() - p))) == 0) break;   // cut header
            if (s[p] != '\x02')
            {   // a header cut by the crash, with the next run's text after it
                if (s[p] == '#') { ++p; if (p < s.size() && s[p] == 'H') ++p; continue; }
                expect(false, "crash-sequence", what + ": text that belongs to no entry: " + shorten(s.substr(p, 60))); break;
            }
            const std::size_t next = s.find_first_of("\x02\n", p + 1), close = s.find('\x03', p);
            const bool cut = close == s.npos || (next != s.npos && next < close);
            item it{ -1, -1, cut };
            int ff = -1;
            if (!cut)
            {
                long n = -1; if (std::sscanf(s.c_str() + p, "\x02" "E%d:%d:%ld:", &it.run, &ff, &n) == 3) it.n = n;
                const std::size_t colon = s.rfind(':', close);
                const std::string body = s.substr(colon + 1, close - colon - 1);
                if (ff != f || n < 0 || body != std::string(body.size(), static_cast<char>('a' + n % 26))) expect(false, "crash-sequence", what + ": damaged entry " + shorten(s.substr(p, close - p)));
                p = close + 1;
            }
            else p = std::min(next == s.npos ? s.size() : next, s.size());
            r.push_back(it);
        }
        return r;
    }

    void crash(hc::rng& r, std::uint64_t seed)
    {
        world w; begin_world(w, seed);
        crash_plan p;
        p.c.header = r.chance(40); p.c.flush = r.chance(40) ? 1 : r.in(2, 40); p.files = static_cast<int>(r.in(1, 2));
        if (r.chance(75)) { p.c.rsize = r.chance(50) ? r.in(20, 400) : r.in(400, 12000); p.c.rlimit = r.chance(40) ? 1000 : r.in(0, 4); }
        w.desc = "crash" + cfg_text(p.c);
        const int runs = static_cast<int>(r.in(2, 3));
        std::vector<std::map<int, long>> seen(static_cast<std::size_t>(p.files));
        std::vector<std::vector<std::pair<int, int>>> sizes;      // per file: entry text sizes per run, to compute what must be retained
        std::map<std::string, std::string> tree;
        std::vector<std::string> before(static_cast<std::size_t>(p.files));
        for (int run = 0; run < runs; ++run)
        {
            p.run = run; p.seed = seed * 7 + static_cast<std::uint64_t>(run); p.entries.clear();
            for (long i = r.in(3, 40); i > 0; --i) p.entries.push_back({ static_cast<int>(r.in(0, p.files - 1)), static_cast<int>(r.chance(85) ? r.in(1, 120) : r.in(500, 9000)) });
            const bool last = run == runs - 1;
            sh->calls = 0; sh->mode = r.in(0, 2);
            sh->crash_at = last ? -1 : r.in(0, r.chance(50) ? 25 : 120);
            auto prev = tree;
            std::fflush(stdout);
            const pid_t pid = ::fork();
            if (pid == 0) crash_child(p, w.root);
            int st = 0; while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            const int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            w.desc = "crash run" + str(run) + " at " + str(sh->crash_at) + "/" + str(sh->calls) + " mode" + str(sh->mode) + cfg_text(p.c);
            if (rc == 14 || rc == 13) { hc::finish(); ::_exit(rc); }    // it has reported itself
            if (rc != 99 && rc != 0) { expect(false, "crash", "the logging process died by itself (status " + str(rc) + ")"); break; }
            hc::count(rc == 99 ? "crashes" : "runs_to_the_end");
            tree = read_tree();
            fs_hook(nullptr);
            for (int f = 0; f < p.files; ++f)
            {
                const std::string what = "file f" + str(f) + " after run " + str(run) + (rc == 99 ? " crashed" : "");
                std::string all;
                const auto items = parse_family(tree, f, what, &all);
                // whole entries in order without gaps; cut ones only at the end of a crashed run
                long cuts = 0; int cur = -1; long n = -1;
                for (std::size_t i = 0; i < items.size(); ++i)
                {
                    const item& x = items[i];
                    if (x.cut) { ++cuts; const bool end_of_run = i + 1 == items.size() || items[i + 1].run > cur; if (!end_of_run && cur >= 0) expect(false, "crash-sequence", what + ": an entry in the middle of run " + str(cur) + " is cut short"); continue; }
                    if (x.run < cur) expect(false, "crash-sequence", what + ": entries of run " + str(x.run) + " after those of run " + str(cur));
                    if (x.run == cur && x.n != n + 1) expect(false, "crash-sequence", what + ": entry " + str(x.n) + " follows entry " + str(n) + " of run " + str(cur));
                    if (x.run != cur && cur >= 0 && x.n != 0) expect(false, "crash-sequence", what + ": run " + str(x.run) + " starts with entry " + str(x.n));
                    if (x.run != cur && cur < 0 && x.n != 0 && (!p.c.rsize || p.c.rlimit >= 1000)) expect(false, "crash-sequence", what + ": the oldest entries are gone without rotation having dropped them");
                    cur = x.run; n = x.n;
                }
                expect(cuts <= run + (rc == 99), "crash-sequence", what + ": " + str(cuts) + " entries cut short by " + str(run + (rc == 99)) + " crashes");
                if (rc == 0)
                {
                    long want = 0; for (auto& e : p.entries) want += e.first == f;
                    long lastn = -1; for (auto& x : items) if (x.run == run && !x.cut) lastn = x.n;
                    expect(want == 0 || lastn == want - 1, "lost-entry", what + ": the last entry is missing");
                }
                // what had reached the files before this run, and is within the limit, is still there
                std::string old; (void)old;
                std::vector<std::string> pg, ng;
                for (std::size_t i = 0; i < 60; ++i) { auto it = prev.find(index_path("f" + str(f) + ".log", i)); if (it != prev.end()) pg.push_back(it->second); }
                for (std::size_t i = 0; i < 60; ++i) { auto it = tree.find(index_path("f" + str(f) + ".log", i)); if (it != tree.end()) ng.push_back(it->second); }
                if (!p.c.rsize || p.c.rlimit >= 1000)
                {
                    std::string pall; for (auto i = pg.rbegin(); i != pg.rend(); ++i) pall += *i;
                    expect(all.compare(0, pall.size(), pall) == 0, "crash-sequence", what + ": text that was in the files before the run has changed or gone");
                    before[static_cast<std::size_t>(f)] = all;
                }
                else
                {
                    // at most limit+1 files once a rotation has run to its end, and never fewer whole files than the limit allows
                    expect(rc == 99 || static_cast<long>(ng.size()) <= p.c.rlimit + 1 + (static_cast<long>(pg.size()) > p.c.rlimit + 1 ? static_cast<long>(pg.size()) : 0), "crash-sequence", what + ": " + str(static_cast<long>(ng.size())) + " files with a limit of " + str(p.c.rlimit));
                    long text = 0; for (auto& e : ng) text += static_cast<long>(e.size());
                    // every older file was rotated at the rotation size or later
                    for (std::size_t i = 1; i < ng.size(); ++i) expect(static_cast<long>(ng[i].size()) >= p.c.rsize, "crash-sequence", what + ": an older file is smaller than the rotation size");
                    // number of files needed for the entries known to have been written
                    long newest = -1; for (auto& x : items) if (x.run == run && !x.cut) newest = x.n;
                    std::vector<std::string> m = pg; std::size_t total_groups = pg.size();
                    family fm; fm.gen = pg; fm.current = !pg.empty() && prev.count("f" + str(f) + ".log");
                    if (fm.current || pg.empty())
                    {
                        config big = p.c; big.rlimit = 1000000;
                        long k = 0;
                        for (auto& e : p.entries) if (e.first == f) { if (k > newest) break; fm.apply(big, token(run, f, k, e.second), "#H#"); ++k; }
                        total_groups = fm.gen.size();
                        // the newest `limit` files' worth of complete text, except the piece a half-written tail makes up
                        const std::size_t must = std::min<std::size_t>(total_groups, static_cast<std::size_t>(p.c.rlimit));
                        std::string keep; for (std::size_t i = must; i-- > 0; ) keep += fm.gen[i];
                        // a crash while the next file is begun may already have moved everything on by one
                        if (!keep.empty() && all.find(keep.substr(0, keep.size() - 1)) == all.npos)
                            expect(false, "crash-sequence", what + ": text within the rotation limit has gone (" + str(static_cast<long>(must)) + " files must be kept, " + str(static_cast<long>(ng.size())) + " there)");
                        hc::count("retention_checks");
                    }
                }
                hc::count("families_parsed"); hc::count("entries_parsed", static_cast<long>(items.size()));
            }
            for (auto& x : tree) if (x.first[0] != 'f') expect(false, "extra-file", "unexpected file " + x.first);
            hc::distinct(hc::mix(seed, static_cast<std::uint64_t>(run)));
        }
        if (hc::counters()["iterations"] % 97 == 1) { std::string s = w.desc + " =>"; for (auto& x : tree) s += " " + x.first + ":" + str(static_cast<long>(x.second.size())); hc::sample(s); }
        if (::chdir("/")) std::abort();
        fs::remove_all(w.root);
        g = nullptr;
    }
}

int main(int argc, char** argv)
{
    hc::init(argc, argv);
    const std::uint64_t seed = static_cast<std::uint64_t>(hc::num("seed", 1));
    const long first = hc::num("first", 0), n = hc::num("n", 100), stride = hc::num("stride", 1);
    const std::string mix = hc::text("mix", "gdbrmtvfx");
    std::string base = std::getenv("TMPDIR") ? std::getenv("TMPDIR") : "/tmp";
    base += "/lgXXXXXX";
    std::vector<char> b(base.begin(), base.end()); b.push_back(0);
    if (!::mkdtemp(b.data())) return 3;
    scratch = fs::canonical(b.data()).string();
    sh = static_cast<shared*>(::mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    {   // one real run first, so that once-only initialisation of the runtime is over
        world w; begin_world(w, 1); w.specs.push_back({}); w.names.push_back({ "warm.log", "warm.log" });
        lg_t l{}; l.write("warm.log", lv::info, { "a", 1, "b" }, "x");
    }
    g = nullptr;
    if (::chdir("/")) return 3;
    level_texts();
    for (long i = first; i < first + n * stride; i += stride)
    {
        const std::uint64_t s = seed * 1000003ULL + static_cast<std::uint64_t>(i);
        hc::rng r(s);
        const char c = mix[static_cast<std::size_t>(i) % mix.size()];
        hc::on_step(("seed=" + std::to_string(seed) + " first=" + std::to_string(i) + " n=1 mix=" + mix).c_str());
        hc::count("iterations"); hc::count(std::string("iterations_") + c);
        deep = false;
        big = i % (c == 'b' || c == 'r' ? 471 : 157) == 156;
        ds_limits(big ? 600000 : 30000, big ? 6000000 : 400000);
        if (big) hc::count("large_programs");
        switch (c)
        {
            case 'g': general(r, s); break;
            case 'd': destruction(r, s); break;
            case 'b': bounded(r, s); break;
            case 'l': flushing(r, s); break;
            case 'r': if (i % 89 == 88) giant(r, s); else rotation(r, s); break;
            case 'm': metadata(r, s); break;
            case 't': defaults(r, s); break;
            case 'v': filtering(r, s); break;
            case 'f': faults(r, s); break;
            case 'x': reconfigure(r, s); break;
            case 'c': crash(r, s); break;
        }
        if (hc::violations() > 20) break;
    }
    fs_hook(nullptr);
    if (::chdir("/")) return 3;
    fs::remove_all(scratch);
    return hc::finish();
}

namespace
{
    // a place far down in a large source file
#line 70001 "some/where/large.cpp"
    void located()
    {
#if PLUTO_UTILS_HAS_SOURCE_LOCATION
        const pluto::source_info here{}; const int line_ = __LINE__;
        expect(here.line == line_ && line_ > 70000 && !std::strcmp(here.file, "some/where/large.cpp") && std::string(here.function).find("located") != std::string::npos, "metadata", "source_info does not describe a place far down in a file");
#endif
    }
}
