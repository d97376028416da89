// Several pools, loggers and caches at once, used by the same threads and by each other's tasks, under the controlled
// scheduler: every object must behave as it would alone. The event log, the file trees and the values read are compared
// with what each object was given.
#include "pluto/logger.hpp"
#include "pluto/safe_lru_cache.hpp"
#include "pluto/scope.hpp"
#include "pluto/stopwatch.hpp"
#include "pluto/thread_pool.hpp"
#include "dsched.h"
#include "hc.hpp"
#include <algorithm>
#include <iomanip>
#include <memory>
#include <sstream>

namespace
{
    namespace fs = pluto::filesystem;
    typedef pluto::log_level lv;
    typedef pluto::logger lg_t;
    typedef pluto::thread_pool tp_t;
    typedef pluto::safe_lru_cache<long, long> cache_t;
    std::string str(long v) { return std::to_string(v); }
    static const lv levels[] = { lv::verbose, lv::trace, lv::debug, lv::info, lv::notice, lv::warning, lv::error, lv::critical, lv::fatal };

    enum ev { LOG = 1, LOGGED, POST, RUN, RUN_END, DISC, LOCAL, LOCAL_END, BAD, WAITED, ALL_DONE };
    static const char* const ev_name[] = { "?", "log", "logged", "post", "run", "ran", "discards", "local", "local_end", "bad", "waited", "all_done" };

    enum kind { O_LOG, O_LOG2, O_POST, O_SYNC, O_AFTER, O_CACHE, O_LOCAL_POOL, O_LOCAL_LOG, O_SCOPE, O_WATCH, O_GET, O_YIELD, O_SLEEP };
    struct op { kind k; int a; int b; long c; };
    struct entry { int lg; int file; lv level; int how; int num; std::string text; };
    struct task { int pool; int prio; bool timed; long delay; std::vector<op> body; };
    struct log_config { lv level = lv::verbose; bool header = true; long flush = 1, max = 0, rsize = 0; int files = 1; };
    struct pool_config { long workers = 1; bool complete = true; };
    struct world
    {
        std::vector<log_config> lc; std::vector<pool_config> pc; std::vector<long> cc;
        std::vector<std::unique_ptr<lg_t>> logs; std::vector<std::unique_ptr<tp_t>> pools; std::vector<std::unique_ptr<cache_t>> caches;
        std::vector<entry> entries; std::vector<task> tasks; std::vector<std::vector<op>> users;
        std::string root, desc;
        int locals = 0;                 // pools and loggers made and destroyed by a user thread
        std::map<int, std::vector<int>> local_tasks, local_entries;
        std::map<int, long> local_workers;
    };
    world* g = nullptr;
    int no_fault(int, const char*, const char*, std::uint64_t) { return 0; }

    std::string describe(long from, long to)
    {
        std::string s; const long n = ds_nevents(); const ds_event* e = ds_events();
        for (long i = std::max(0L, from); i < to && i < n; ++i)
            if (e[i].kind > 0) { s += std::string(ev_name[e[i].kind]) + "(" + str(e[i].a) + "," + str(e[i].b) + ")@t" + str(e[i].tid) + " "; if (s.size() > 900) break; }
        return s;
    }
    void expect(bool ok, const char* kind, const std::string& what)
    {
        if (!ok) hc::violation(kind, what + " | program: " + g->desc + " | tail: " + describe(static_cast<long>(ds_nevents()) - 30, ds_nevents()));
    }
    void fatal(int what, const char* text)
    {
        const char* kind = what == DS_DEADLOCK ? "deadlock" : what == DS_LIVELOCK ? "livelock" : what == DS_DEAD_OBJECT ? "use-after-destroy" : "lock-misuse";
        hc::violation(kind, std::string(text) + " | program: " + g->desc + " | tail: " + describe(static_cast<long>(ds_nevents()) - 30, ds_nevents()));
        hc::finish();
        ::_exit(14);
    }

    std::string file_of(int lg, int f) { return "l" + str(lg) + "/f" + str(f) + ".log"; }
    std::string header_of(int lg) { return "#" + str(lg); }
    // "\x01<entry>@<logger>\x02<message>\x03": identity is what the writer of that logger was given
    std::string render(int id, int lg) { return "\x01" + str(id) + "@" + str(lg) + "\x02" + g->entries[static_cast<std::size_t>(id)].text + "\x03"; }

    void set_up(lg_t& l, int lg, const log_config& c)
    {
        l.level(c.level).write_header(c.header).buffer_flush_size(static_cast<std::size_t>(c.flush)).buffer_max_size(static_cast<std::size_t>(c.max))
            .file_rotation_size(static_cast<std::size_t>(c.rsize)).file_rotation_limit(1000);
        l.log_writer([lg](std::ostream& o, const pluto::log_entry& e)
            {
                const int id = e.source.line;
                if (id < 0 || id >= static_cast<int>(g->entries.size())) { ds_rec(BAD, 1, id, 0); return; }
                const entry& x = g->entries[static_cast<std::size_t>(id)];
                if (e.level != x.level || e.message != x.text) ds_rec(BAD, 2, id, 0);
                o << '\x01' << id << '@' << lg; ds_yield(); o << '\x02' << e.message << '\x03';
            });
        l.header_writer([lg](std::ostream& o) { o << '#'; ds_yield(); o << lg; });
    }

    void exec(const std::vector<op>& ops);
    void run_task(int id)
    {
        ds_rec(RUN, id, 0, 0);
        exec(g->tasks[static_cast<std::size_t>(id)].body);
        ds_rec(RUN_END, id, 0, 0);
    }
    void do_log(lg_t& l, int id)
    {
        const entry& x = g->entries[static_cast<std::size_t>(id)];
        const std::string f = file_of(x.lg, x.file);
        const pluto::source_info si{ "m.cpp", id, "f" };
        ds_rec(LOG, id, 0, 0);
        switch (x.how)
        {
            case 0: l.write(f, x.level, si, x.text); break;
            case 1: l.writef(f, x.level, si, "%s", x.text.c_str()); break;
            case 2: { auto&& s = l.stream(f, x.level, si); s << x.text.substr(0, x.text.size() / 2); ds_yield(); s << x.text.substr(x.text.size() / 2); break; }
            default: { auto&& s = l.stream(f, x.level, si); s << std::hex << std::setw(8) << std::setfill('0') << x.num << std::dec; ds_yield(); s << '|' << x.num << '|' << x.num / 16.0; s.end(); break; }
        }
        ds_rec(LOGGED, id, 0, 0);
    }
    // two entries built side by side by one thread, for different loggers or the same
    void do_log2(int i, int j, bool swap)
    {
        const entry &x = g->entries[static_cast<std::size_t>(i)], &y = g->entries[static_cast<std::size_t>(j)];
        auto&& a = g->logs[static_cast<std::size_t>(x.lg)]->stream(file_of(x.lg, x.file), x.level, { "m.cpp", i, "f" });
        a << x.text.substr(0, x.text.size() / 2);
        auto&& b = g->logs[static_cast<std::size_t>(y.lg)]->stream(file_of(y.lg, y.file), y.level, { "m.cpp", j, "f" });
        b << y.text.substr(0, 1); ds_yield();
        a << x.text.substr(x.text.size() / 2);
        b << y.text.substr(1);
        auto end_a = [&] { ds_rec(LOG, i, 0, 0); a.end(); ds_rec(LOGGED, i, 0, 0); };
        auto end_b = [&] { ds_rec(LOG, j, 0, 0); b.end(); ds_rec(LOGGED, j, 0, 0); };
        if (swap) { end_b(); end_a(); } else { end_a(); end_b(); }
    }
    long stored(long c, long k, long serial) { return (c * 1000 + k) * 1000000 + serial; }
    void do_cache(int c, long k, long what)
    {
        cache_t& x = *g->caches[static_cast<std::size_t>(c)];
        long v = -1;
        switch (what % 6)
        {
            case 0: case 1: (void)x.insert(k, stored(c, k, what)); break;
            case 2: (void)x.insert_or_assign(k, stored(c, k, what)); break;
            case 3: case 4: if (x.get(k, v) ? v / 1000000 != c * 1000 + k : v != -1) ds_rec(BAD, 3, c, v); break;
            default: if (what % 12 == 5) (void)x.remove(k); else if (x.size() > static_cast<std::size_t>(g->cc[static_cast<std::size_t>(c)])) ds_rec(BAD, 4, c, 0); break;
        }
        if (x.capacity() != static_cast<std::size_t>(g->cc[static_cast<std::size_t>(c)])) ds_rec(BAD, 5, c, 0);
    }
    void exec(const std::vector<op>& ops)
    {
        for (auto& o : ops)
            switch (o.k)
            {
                case O_LOG: do_log(*g->logs[static_cast<std::size_t>(g->entries[static_cast<std::size_t>(o.a)].lg)], o.a); break;
                case O_LOG2: do_log2(o.a, o.b, o.c != 0); break;
                case O_POST: { const int id = o.a; ds_rec(POST, id, 0, 0); g->pools[static_cast<std::size_t>(g->tasks[static_cast<std::size_t>(id)].pool)]->run_async([id] { run_task(id); }, static_cast<signed char>(g->tasks[static_cast<std::size_t>(id)].prio)); break; }
                case O_SYNC:
                {
                    const int id = o.a; ds_rec(POST, id, 0, 0);
                    g->pools[static_cast<std::size_t>(g->tasks[static_cast<std::size_t>(id)].pool)]->run_sync([id] { run_task(id); }, static_cast<signed char>(g->tasks[static_cast<std::size_t>(id)].prio));
                    ds_rec(WAITED, id, 0, 0); break;
                }
                case O_AFTER: { const int id = o.a; ds_rec(POST, id, 1, 0); g->pools[static_cast<std::size_t>(g->tasks[static_cast<std::size_t>(id)].pool)]->run_after(std::chrono::nanoseconds(g->tasks[static_cast<std::size_t>(id)].delay), [id] { run_task(id); }, static_cast<signed char>(g->tasks[static_cast<std::size_t>(id)].prio)); break; }
                case O_CACHE: do_cache(o.a, o.b, o.c); break;
                case O_LOCAL_POOL:
                {
                    ds_rec(LOCAL, o.a, 0, 0);
                    {
                        tp_t p{ static_cast<std::size_t>(g->local_workers[o.a]) };
                        p.on_stop(tp_t::action::complete_tasks);
                        for (int id : g->local_tasks[o.a]) { ds_rec(POST, id, 0, 0); p.run_async([id] { run_task(id); }, static_cast<signed char>(g->tasks[static_cast<std::size_t>(id)].prio)); }
                        if (p.target_workers_size() != static_cast<std::size_t>(g->local_workers[o.a])) ds_rec(BAD, 6, o.a, 0);
                    }
                    ds_rec(LOCAL_END, o.a, 0, 0); break;
                }
                case O_LOCAL_LOG:
                {
                    lg_t l{};
                    log_config c; c.header = o.a % 2; c.flush = 1 + o.a % 3;
                    set_up(l, o.a, c);
                    for (int id : g->local_entries[o.a]) do_log(l, id);
                    break;
                }
                case O_SCOPE:
                {   // guards of one thread nested around other work
                    std::vector<int> order;
                    { pluto::on_scope_exit a{ [&] { order.push_back(1); } }; pluto::on_scope_success b{ [&] { order.push_back(2); } }; pluto::on_scope_fail c{ [&] { order.push_back(3); } }; ds_yield(); }
                    if (order != std::vector<int>{ 2, 1 }) ds_rec(BAD, 7, 0, 0);
                    break;
                }
                case O_WATCH:
                {
                    pluto::stopwatch a{}, b{};
                    a.start(); ds_yield(); b.start(); const auto t0 = b.in_nanoseconds(); b.stop();
                    const auto t1 = b.in_nanoseconds(); ds_yield();
                    if (b.in_nanoseconds() != t1 || t1 < t0 || a.in_nanoseconds() < t1 || !a.is_running() || b.is_running()) ds_rec(BAD, 8, 0, 0);
                    break;
                }
                case O_GET:
                {
                    for (std::size_t i = 0; i < g->pools.size(); ++i)
                        if (g->pools[i] && g->pools[i]->target_workers_size() != static_cast<std::size_t>(g->pc[i].workers)) ds_rec(BAD, 6, static_cast<long>(i), 0);
                    for (std::size_t i = 0; i < g->logs.size(); ++i)
                    {
                        const lg_t& l = *g->logs[i]; const log_config& c = g->lc[i];
                        if (l.level() != c.level || l.write_header() != c.header || l.buffer_flush_size() != static_cast<std::size_t>(c.flush) || l.buffer_max_size() != static_cast<std::size_t>(c.max) || l.file_rotation_size() != static_cast<std::size_t>(c.rsize) || !l.is_logging()
                            || (!c.max && l.num_discarded_logs())) ds_rec(BAD, 9, static_cast<long>(i), 0);
                    }
                    break;
                }
                case O_YIELD: for (long i = 0; i < o.c; ++i) ds_yield(); break;
                case O_SLEEP: ds_sleep_until(ds_now() + static_cast<std::uint64_t>(o.c)); break;
            }
    }

    // ---- generation -------------------------------------------------------------------------------
    struct builder
    {
        world& w; hc::rng& r; int budget;
        int new_entry(int lg, int file, bool formatted = true)
        {
            entry e; e.lg = lg; e.file = file; e.level = levels[r.in(0, 8)]; e.how = static_cast<int>(r.in(0, formatted ? 3 : 2)); e.num = static_cast<int>(r.in(-2000000000, 2000000000));
            if (e.how == 3) { std::ostringstream o; o << std::hex << std::setw(8) << std::setfill('0') << e.num << std::dec << '|' << e.num << '|' << e.num / 16.0; e.text = o.str(); }
            else for (long i = r.chance(20) ? r.in(20, 200) : r.in(1, 20); i > 0; --i) e.text += static_cast<char>(r.in('a', 'z'));
            w.entries.push_back(e); return static_cast<int>(w.entries.size()) - 1;
        }
        int entry_for_any(bool formatted = true)
        {
            const int lg = static_cast<int>(r.in(0, static_cast<long>(w.lc.size()) - 1));
            return new_entry(lg, static_cast<int>(r.in(0, w.lc[static_cast<std::size_t>(lg)].files - 1)), formatted);
        }
        int new_task(int pool, bool timed, int depth)
        {
            const int id = static_cast<int>(w.tasks.size());
            w.tasks.push_back({}); --budget;
            task t; t.pool = pool; t.prio = static_cast<int>(r.in(-3, 3)); t.timed = timed; t.delay = r.in(0, 100000);
            t.body = ops(static_cast<int>(r.in(0, 4)), pool, timed ? 9 : depth + 1, false);
            w.tasks[static_cast<std::size_t>(id)] = t;
            return id;
        }
        // from: lowest pool the code may post to (itself included); a task waits only for pools above its own
        std::vector<op> ops(int n, int from, int depth, bool user)
        {
            std::vector<op> v;
            const int np = static_cast<int>(w.pc.size());
            for (int i = 0; i < n; ++i)
            {
                const long c = r.in(0, 99);
                if (c < 35) v.push_back({ O_LOG, entry_for_any(), 0, 0 });
                else if (c < 42) { const int a = entry_for_any(false), b = entry_for_any(false); v.push_back({ O_LOG2, a, b, r.in(0, 1) }); }
                else if (c < 60 && depth < 3 && budget > 0) { const int id = new_task(static_cast<int>(r.in(std::max(from, 0), np - 1)), false, depth); v.push_back({ O_POST, id, 0, 0 }); }
                else if (c < 66 && depth < 3 && budget > 0 && from + 1 < np) { const int id = new_task(static_cast<int>(r.in(from + 1, np - 1)), false, depth); v.push_back({ O_SYNC, id, 0, 0 }); }
                else if (c < 70 && depth < 3 && budget > 0) { const int id = new_task(static_cast<int>(r.in(std::max(from, 0), np - 1)), true, depth); v.push_back({ O_AFTER, id, 0, 0 }); }
                else if (c < 82 && !w.cc.empty()) v.push_back({ O_CACHE, static_cast<int>(r.in(0, static_cast<long>(w.cc.size()) - 1)), static_cast<int>(r.in(0, 5)), r.in(0, 999999) });
                else if (c < 84 && user && budget > 3)
                {
                    const int k = ++w.locals + 100;
                    w.local_workers[k] = r.in(1, 2);
                    std::vector<int> ids; for (long j = r.in(1, 3); j > 0; --j) ids.push_back(new_task(-1, false, 2));
                    for (int id : ids) w.tasks[static_cast<std::size_t>(id)].pool = k;
                    w.local_tasks[k] = ids;
                    v.push_back({ O_LOCAL_POOL, k, 0, 0 });
                }
                else if (c < 87 && user)
                {
                    const int k = ++w.locals + 100;
                    std::vector<int> ids; for (long j = r.in(1, 4); j > 0; --j) ids.push_back(new_entry(k, 0));
                    w.local_entries[k] = ids;
                    v.push_back({ O_LOCAL_LOG, k, 0, 0 });
                }
                else if (c < 90) v.push_back({ O_SCOPE, 0, 0, 0 });
                else if (c < 93) v.push_back({ O_WATCH, 0, 0, 0 });
                else if (c < 95 && user) v.push_back({ O_GET, 0, 0, 0 });
                else if (c < 97) v.push_back({ O_SLEEP, 0, 0, r.in(1, 150000) });
                else v.push_back({ O_YIELD, 0, 0, r.in(1, 4) });
            }
            return v;
        }
    };

    // ---- checking ---------------------------------------------------------------------------------
    std::map<std::string, std::string> read_tree()
    {
        std::map<std::string, std::string> t;
        for (auto& e : fs::recursive_directory_iterator(g->root))
            if (fs::is_regular_file(e.path()))
            {
                std::FILE* f = std::fopen(e.path().c_str(), "rb"); std::string s; char b[65536]; std::size_t n;
                while (f && (n = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
                if (f) std::fclose(f);
                t[e.path().string().substr(g->root.size() + 1)] = s;
            }
        return t;
    }
    void check_tasks()
    {
        const std::uint32_t n = ds_nevents(); const ds_event* e = ds_events();
        const std::size_t nt = g->tasks.size();
        std::vector<long> posted(nt, -1), begun(nt, -1), ended(nt, -1), tid(nt, -1), count(nt, 0);
        std::vector<std::uint64_t> due(nt, 0);
        std::map<int, long> local_end;
        std::map<int, int> pool_of_thread;
        std::map<int, std::set<int>> threads_of_pool;
        for (std::uint32_t i = 0; i < n; ++i)
        {
            const ds_event& x = e[i]; const std::size_t a = static_cast<std::size_t>(x.a);
            switch (x.kind)
            {
                case POST: posted[a] = i; due[a] = x.vt + static_cast<std::uint64_t>(g->tasks[a].timed ? g->tasks[a].delay : 0); break;
                case RUN:
                {
                    const task& t = g->tasks[a];
                    if (++count[a] > 1) expect(false, "task-count", "task " + str(x.a) + " ran twice");
                    if (posted[a] < 0) expect(false, "task-count", "task " + str(x.a) + " ran without having been submitted");
                    if (t.timed && x.vt < due[a]) expect(false, "early", "task " + str(x.a) + " ran before its time");
                    begun[a] = i; tid[a] = x.tid;
                    auto was = pool_of_thread.emplace(x.tid, t.pool);
                    if (!was.second && was.first->second != t.pool) expect(false, "wrong-pool", "task " + str(x.a) + " of pool " + str(t.pool) + " ran on a thread that runs tasks of pool " + str(was.first->second));
                    threads_of_pool[t.pool].insert(x.tid);
                    break;
                }
                case RUN_END: ended[a] = i; break;
                case WAITED: if (ended[a] < 0) expect(false, "sync", "run_sync returned before task " + str(x.a) + " had finished"); break;
                case LOCAL_END: for (int id : g->local_tasks[static_cast<int>(x.a)]) if (ended[static_cast<std::size_t>(id)] < 0) expect(false, "task-count", "task " + str(id) + " had not run when its pool was destroyed with complete_tasks"); break;
                case ALL_DONE: for (std::size_t k = 0; k < nt; ++k) if (posted[k] >= 0 && !g->tasks[k].timed && g->tasks[k].pool <= x.a && ended[k] < 0) expect(false, "task-count", "waiting for pool " + str(x.a) + " returned before task " + str(static_cast<long>(k)) + " had finished"); break;
                case BAD:
                {
                    static const char* const what[] = { "", "a log writer was given an entry nobody made", "a log writer was given an entry that differs from what was logged", "a cache returned a value of another key or cache", "a cache holds more than its capacity", "a cache's capacity changed", "a pool's target worker count is another's", "scope guards ran wrongly", "stopwatches disturb each other", "a logger's configuration is another's" };
                    expect(false, x.a == 1 || x.a == 2 ? "foreign-entry" : x.a <= 5 ? "cache" : "config", std::string(what[x.a]) + " (" + str(x.b) + ", " + str(x.c) + ")");
                    break;
                }
                default: break;
            }
        }
        for (std::size_t k = 0; k < nt; ++k)
        {
            if (posted[k] >= 0 && !g->tasks[k].timed && ended[k] < 0) expect(false, "task-count", "task " + str(static_cast<long>(k)) + " never ran though its pool completes its tasks");
            if (begun[k] >= 0 && ended[k] < 0) expect(false, "task-count", "task " + str(static_cast<long>(k)) + " was begun and not finished");
            hc::count(count[k] ? "tasks_run" : "tasks_not_run");
        }
        for (auto& t : threads_of_pool)
        {
            const long limit = t.first >= 100 ? g->local_workers[t.first] : g->pc[static_cast<std::size_t>(t.first)].workers;
            if (static_cast<long>(t.second.size()) > limit) expect(false, "wrong-pool", "tasks of pool " + str(t.first) + " ran on " + str(static_cast<long>(t.second.size())) + " threads, it has " + str(limit));
        }
        // threads that never were workers
        for (std::uint32_t i = 0; i < n; ++i) if (e[i].kind == RUN && e[i].tid >= 0 && e[i].tid <= static_cast<int>(g->users.size()) && e[i].tid == 0) expect(false, "wrong-pool", "a task ran on the thread that owns the pools");
    }
    void check_logs(const std::vector<long>& discarded)
    {
        const std::uint32_t n = ds_nevents(); const ds_event* e = ds_events();
        const std::size_t ne = g->entries.size();
        std::vector<long> call(ne, -1), ret(ne, -1), seen(ne, 0);
        for (std::uint32_t i = 0; i < n; ++i) { if (e[i].kind == LOG) call[static_cast<std::size_t>(e[i].a)] = i; if (e[i].kind == LOGGED) ret[static_cast<std::size_t>(e[i].a)] = i; }
        auto tree = read_tree();
        auto config_of = [](int lg) { if (lg < 100) return g->lc[static_cast<std::size_t>(lg)]; log_config c; c.header = lg % 2; return c; };
        std::map<int, int> files; for (std::size_t i = 0; i < g->lc.size(); ++i) files[static_cast<int>(i)] = g->lc[i].files; for (auto& l : g->local_entries) files[l.first] = 1;
        for (auto& x : files)
        {
            const int lg = x.first; const log_config c = config_of(lg);
            long missing = 0;
            for (int f = 0; f < x.second; ++f)
            {
                std::vector<std::string> pieces;            // newest first
                for (int k = 0; ; ++k)
                {
                    const std::string name = "l" + str(lg) + "/f" + str(f) + (k ? "_" + str(k) : "") + ".log";
                    auto it = tree.find(name); if (it == tree.end()) break;
                    pieces.push_back(it->second); tree.erase(it);
                }
                std::vector<int> order;
                for (auto p = pieces.rbegin(); p != pieces.rend(); ++p)
                {
                    std::size_t at = 0; const std::string h = header_of(lg) + "\n";
                    if (c.header) { if (p->compare(0, h.size(), h)) expect(false, "header", "a file of logger " + str(lg) + " does not start with that logger's header: " + p->substr(0, 40)); else at = h.size(); }
                    while (at < p->size())
                    {
                        int id = -1; if ((*p)[at] == '\x01') id = std::atoi(p->c_str() + at + 1);
                        const std::string want = id >= 0 && id < static_cast<int>(ne) ? render(id, lg) + "\n" : "";
                        if (want.empty() || p->compare(at, want.size(), want)) { expect(false, "content", "file " + str(f) + " of logger " + str(lg) + " has text that is no entry written by that logger: " + p->substr(at, 80)); at = p->size(); break; }
                        if (g->entries[static_cast<std::size_t>(id)].lg != lg || g->entries[static_cast<std::size_t>(id)].file != f) expect(false, "foreign-entry", "entry " + str(id) + " of logger " + str(g->entries[static_cast<std::size_t>(id)].lg) + " is in a file of logger " + str(lg));
                        ++seen[static_cast<std::size_t>(id)]; order.push_back(id); at += want.size();
                    }
                }
                long first_call = -1;       // an entry may not follow one that was called after it had returned
                for (int id : order) { if (ret[static_cast<std::size_t>(id)] >= 0 && ret[static_cast<std::size_t>(id)] < first_call) expect(false, "order", "entry " + str(id) + " of logger " + str(lg) + " is written after one logged later"); first_call = std::max(first_call, call[static_cast<std::size_t>(id)]); }
                hc::count("families"); hc::count("entries_found", static_cast<long>(order.size()));
            }
            for (std::size_t id = 0; id < ne; ++id)
                if (g->entries[id].lg == lg && call[id] >= 0)
                {
                    const bool wanted = c.level <= g->entries[id].level;
                    if (seen[id] > 1) expect(false, "duplicate-entry", "entry " + str(static_cast<long>(id)) + " was written " + str(seen[id]) + " times");
                    if (seen[id] && !wanted) expect(false, "level-filter", "entry " + str(static_cast<long>(id)) + " is below the level of logger " + str(lg));
                    if (!seen[id] && wanted) { ++missing; if (!c.max) expect(false, "lost-entry", "entry " + str(static_cast<long>(id)) + " of logger " + str(lg) + " was not written"); }
                }
            if (lg < 100 && missing != discarded[static_cast<std::size_t>(lg)]) expect(false, "discard-count", "logger " + str(lg) + " says it discarded " + str(discarded[static_cast<std::size_t>(lg)]) + " entries, " + str(missing) + " are missing");
        }
        for (auto& x : tree) expect(false, "extra-file", "file " + x.first + " belongs to no logger");
    }

    std::string scratch;
    void program(hc::rng& r, std::uint64_t seed, bool big)
    {
        world w; g = &w;
        static int serial = 0;
        w.root = scratch + "/m" + str(serial++ % 8) + "_" + str(static_cast<long>(seed % 100000));
        fs::remove_all(w.root); fs::create_directories(w.root);
        if (::chdir(w.root.c_str())) std::abort();
        fs_root(w.root.c_str());
        for (long i = r.in(1, 3); i > 0; --i)
        {
            log_config c; c.level = r.chance(60) ? lv::verbose : levels[r.in(0, 8)]; c.header = r.chance(50); c.flush = r.chance(60) ? 1 : r.in(2, 9);
            if (r.chance(25)) c.max = r.in(c.flush, c.flush + 4);
            if (r.chance(25)) c.rsize = r.in(30, 400);
            c.files = static_cast<int>(r.in(1, 3)); w.lc.push_back(c);
        }
        for (long i = r.in(1, 3); i > 0; --i) { pool_config c; c.workers = r.in(1, big ? 8 : 3); c.complete = true; w.pc.push_back(c); }
        for (long i = r.in(0, 2); i > 0; --i) w.cc.push_back(r.in(1, 5));
        builder b{ w, r, static_cast<int>(big ? r.in(50, 200) : r.in(2, 14)) };
        const int nu = static_cast<int>(r.in(1, big ? 6 : 3));
        for (int u = 0; u < nu; ++u) w.users.push_back(b.ops(static_cast<int>(big ? r.in(30, 150) : r.in(2, 10)), -1, 0, true));
        const std::vector<op> after = b.ops(static_cast<int>(r.in(0, 4)), -1, 9, true);        // after the pools are gone: only logs, caches, helpers
        w.desc = str(nu) + " threads, pools"; for (auto& c : w.pc) w.desc += " " + str(c.workers);
        w.desc += ", loggers"; for (auto& c : w.lc) w.desc += " (flush" + str(c.flush) + " max" + str(c.max) + " rsize" + str(c.rsize) + " level" + str(static_cast<long>(c.level)) + (c.header ? " hdr" : "") + " files" + str(c.files) + ")";
        w.desc += ", caches"; for (auto& c : w.cc) w.desc += " " + str(c);
        const bool wait = r.chance(60), join_all = wait && r.chance(40);
        std::vector<long> discarded(w.lc.size(), 0);

        ds_begin(seed, 0, &fatal);
        fs_hook(&no_fault);
        for (std::size_t i = 0; i < w.lc.size(); ++i) { w.logs.push_back(std::unique_ptr<lg_t>(new lg_t{})); set_up(*w.logs.back(), static_cast<int>(i), w.lc[i]); }
        for (auto& c : w.pc) { w.pools.push_back(std::unique_ptr<tp_t>(new tp_t{ static_cast<std::size_t>(c.workers) })); w.pools.back()->on_stop(tp_t::action::complete_tasks); }
        for (long c : w.cc) w.caches.push_back(std::unique_ptr<cache_t>(new cache_t{ static_cast<std::size_t>(c) }));
        {
            std::vector<std::thread> th;
            for (auto& u : w.users) { const std::vector<op>* v = &u; th.emplace_back([v] { exec(*v); }); }
            for (auto& t : th) t.join();
        }
        if (wait)       // a pool's tasks post to it and the ones above only
            for (std::size_t p = 0; p < w.pools.size(); ++p)
            {
                w.pools[p]->wait_until_all_tasks_complete();
                ds_rec(ALL_DONE, static_cast<long>(p), 0, 0);
                if (w.pools[p]->target_workers_size() != static_cast<std::size_t>(w.pc[p].workers)) ds_rec(BAD, 6, static_cast<long>(p), 0);
            }
        if (join_all && w.tasks.end() == std::find_if(w.tasks.begin(), w.tasks.end(), [](const task& t) { return t.timed; })) w.pools[0]->on_stop(tp_t::action::join_all);
        for (std::size_t p = 0; p < w.pools.size(); ++p) { delete w.pools[p].get(); (void)w.pools[p].release(); }     // (its tasks may still use it)
        exec(after);
        ds_quiesce();
        // loggers go one after the other; the remaining ones still work
        std::vector<std::size_t> order; for (std::size_t i = 0; i < w.logs.size(); ++i) order.push_back(i);
        for (std::size_t i = order.size(); i-- > 1; ) std::swap(order[i], order[static_cast<std::size_t>(r.in(0, static_cast<long>(i)))]);
        for (std::size_t i : order)
        {
            discarded[i] = static_cast<long>(w.logs[i]->num_discarded_logs());
            w.logs[i].reset();
        }
        w.caches.clear();
        fs_hook(nullptr);
        const int left = ds_end();
        expect(left == 0, "thread-leak", str(left) + " threads left");
        expect(fs_outside() == 0, "touched-outside", "something outside the directory of the log files was touched");
        check_tasks();
        check_logs(discarded);
        hc::count("events", ds_nevents()); hc::count("steps", ds_steps()); hc::distinct(ds_hash());
        hc::count("objects", static_cast<long>(w.lc.size() + w.pc.size() + w.cc.size()) + w.locals);
        if (hc::counters()["iterations"] % 97 == 1) hc::sample(w.desc + " => " + describe(0, 25));
        if (::chdir("/")) std::abort();
        fs::remove_all(w.root);
        g = nullptr;
    }
}

int main(int argc, char** argv)
{
    hc::init(argc, argv);
    const std::uint64_t seed = static_cast<std::uint64_t>(hc::num("seed", 1));
    const long first = hc::num("first", 0), n = hc::num("n", 100), stride = hc::num("stride", 1);
    scratch = std::string(std::getenv("TMPDIR") ? std::getenv("TMPDIR") : "/tmp") + "/multi";
    fs::create_directories(scratch);
    {   // once-only initialisation of the runtime
        if (::chdir(scratch.c_str())) return 3;
        lg_t l{}; l.write("warm.log", lv::info, { "a", 1, "b" }, "x"); tp_t p{ 1 }; p.run_sync([] {});
    }
    fs::remove(scratch + "/warm.log");
    for (long i = first; i < first + n * stride; i += stride)
    {
        const std::uint64_t s = seed * 1000003ULL + static_cast<std::uint64_t>(i);
        hc::rng r(s);
        hc::on_step(("seed=" + std::to_string(seed) + " first=" + std::to_string(i) + " n=1").c_str());
        hc::count("iterations");
        const bool big = i % 151 == 150;
        ds_limits(big ? 400000 : 40000, big ? 4000000 : 500000);
        program(r, s, big);
        if (hc::violations() > 20) break;
    }
    fs_hook(nullptr);
    if (::chdir("/")) return 3;
    fs::remove_all(scratch);
    return hc::finish();
}
