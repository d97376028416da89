// Thread-pool harness: runs generated client programs against the real pool under the controlled
// scheduler, records events, and checks the recorded histories against the pool properties.
#include "pluto/thread_pool.hpp"
#include "dsched.h"
#include "hc.hpp"
#include <algorithm>
#include <climits>
#include <memory>
#include <sstream>

namespace
{
    typedef pluto::thread_pool pool_t;
    typedef pool_t::clock_type clk;

    enum ev
    {
        SUB_CALL = 1, SUB_RET, START, END, SYNC_RET, WAIT_CALL, WAIT_RET, RESIZE_CALL, RESIZE_RET, SZ_CALL, SZ_RET, DTOR_CALL, DTOR_RET,
        USER, ONSTOP, Q_IDLE, PROBE, NOPE
    };
    enum op_type { ASYNC, SYNC, SCHED, RESIZE, WAITQ, WAITALL, SIZES, YIELD, SLEEP, GATE, GETCFG };
    enum size_kind { S_WORKERS, S_TARGET, S_ACTIVE_W, S_WAITING_W, S_TASKS, S_ACTIVE_T, S_WAITING_T, S_SCHEDULED, S_N };
    static const char* const size_name[] = { "workers_size", "target_workers_size", "active_workers_size", "waiting_workers_size", "tasks_size",
        "active_tasks_size", "waiting_tasks_size", "scheduled_tasks_size" };
    enum { GATE_SLOT = 100 };

    struct op { op_type type; int id; long arg; };
    struct task
    {
        int prio = 0, over = 0, kind = ASYNC, yields = 0, gate = 0;
        long offset = 0;            // SCHED: virtual ns relative to the moment of the call
        bool absolute = false;      // SCHED: offset is a virtual time
        int probe = 0;              // captured object whose destructor uses the pool
        std::vector<op> body;
    };

    struct world
    {
        pool_t* pool = nullptr;
        std::vector<task> tasks;
        std::vector<std::vector<op>> users;
        std::vector<long> pre, post;
        int nwaits = 0; long w0 = 0;
        std::string desc;
    };
    world* g = nullptr;
    // virtual due time, set by the submitter; for run_after, which reads the clock itself, an interval
    std::int64_t due(long id) { return ds_get(static_cast<int>(1000 + id)); }
    std::int64_t due_hi(long id) { return ds_get(static_cast<int>(8000 + id)); }

    struct probe
    {
        int id, how;
        probe(int i, int h) : id{ i }, how{ h } {}
        ~probe()
        {
            ds_rec(PROBE, id, how, 0);
            pool_t* p = g->pool;
            if (how == 1) { (void)p->tasks_size(); }
            else if (how == 2) { (void)p->waiting_workers_size(); p->on_stop(p->on_stop()); }
            else if (how == 3) { (void)p->workers_size(); (void)p->scheduled_tasks_size(); (void)p->target_workers_size(); }
        }
    };

    void exec(const op& o);

    void body(int id)
    {
        ds_rec(START, id, 0, 0);
        task& t = g->tasks[static_cast<std::size_t>(id)];
        if (g->pre[id] != id * 7L + 1) ds_rec(NOPE, id, 1, 0);
        g->post[id] = id * 3L + 5;
        if (t.gate) ds_gate_wait(GATE_SLOT + t.gate);
        for (int i = 0; i < t.yields; ++i) ds_yield();
        for (auto& o : t.body) exec(o);
        ds_rec(END, id, 0, 0);
    }

    std::function<void()> make(int id)
    {
        task& t = g->tasks[static_cast<std::size_t>(id)];
        if (t.probe)
        {
            auto p = std::make_shared<probe>(id, t.probe);
            return [id, p] { (void)p; body(id); };
        }
        return [id] { body(id); };
    }

    long size_of(int k)
    {
        pool_t& p = *g->pool; std::size_t v = 0;
        switch (k)
        {
            case S_WORKERS: v = p.workers_size(); break;
            case S_TARGET: v = p.target_workers_size(); break;
            case S_ACTIVE_W: v = p.active_workers_size(); break;
            case S_WAITING_W: v = p.waiting_workers_size(); break;
            case S_TASKS: v = p.tasks_size(); break;
            case S_ACTIVE_T: v = p.active_tasks_size(); break;
            case S_WAITING_T: v = p.waiting_tasks_size(); break;
            case S_SCHEDULED: v = p.scheduled_tasks_size(); break;
        }
        return static_cast<long>(v);
    }

    bool named(int p) { return p == -128 || p == -64 || p == -32 || p == 0 || p == 32 || p == 64 || p == 127; }

    // tasks submitted before a wait-for-all call have finished when it returns, and their writes can be read
    void check_visible(int wait)
    {
        const std::uint32_t n = ds_nevents(); const ds_event* e = ds_events();
        std::uint32_t call = n;
        for (std::uint32_t i = 0; i < n; ++i) if (e[i].kind == WAIT_CALL && e[i].a == wait) call = i;
        for (std::uint32_t i = 0; i < call; ++i)
            if (e[i].kind == SUB_RET && g->tasks[static_cast<std::size_t>(e[i].a)].kind == ASYNC && g->post[static_cast<std::size_t>(e[i].a)] != e[i].a * 3L + 5)
                ds_rec(NOPE, e[i].a, 3, 0);
    }

    void exec(const op& o)
    {
        pool_t& p = *g->pool;
        switch (o.type)
        {
            case ASYNC: case SYNC: case SCHED:
            {
                task& t = g->tasks[static_cast<std::size_t>(o.id)];
                g->pre[o.id] = o.id * 7L + 1;
                const auto sc = static_cast<signed char>(t.prio);
                const auto en = static_cast<pool_t::priority>(t.prio);
                const bool use_enum = named(t.prio) && (t.over & 1);
                {
                    auto f = make(o.id);
                    if (t.kind == ASYNC)
                    {
                        ds_rec(SUB_CALL, o.id, t.prio, ASYNC);
                        if (use_enum) p.run_async(f, en);
                        else if (t.prio == 0 && (t.over & 2)) p.run_async(f);
                        else p.run_async(f, sc);
                        ds_rec(SUB_RET, o.id, 0, 0);
                    }
                    else if (t.kind == SYNC)
                    {
                        ds_rec(SUB_CALL, o.id, t.prio, SYNC);
                        if (use_enum) p.run_sync(f, en);
                        else if (t.prio == 32 && (t.over & 2)) p.run_sync(f);
                        else p.run_sync(f, sc);
                        ds_rec(SYNC_RET, o.id, 0, 0);
                        if (g->post[o.id] != o.id * 3L + 5) ds_rec(NOPE, o.id, 2, 0);
                    }
                    else
                    {
                        const auto now = clk::now();
                        const std::int64_t nowv = std::chrono::duration_cast<std::chrono::nanoseconds>(now.time_since_epoch()).count() - ds_realtime_base();
                        const std::int64_t dl = t.absolute ? t.offset : nowv + t.offset;
                        ds_set(1000 + o.id, dl); ds_set(8000 + o.id, INT64_MAX);
                        ds_rec(SUB_CALL, o.id, t.prio, SCHED);
                        const auto when = now + std::chrono::duration_cast<clk::duration>(std::chrono::nanoseconds(dl - nowv));
                        const auto after = std::chrono::duration_cast<clk::duration>(std::chrono::nanoseconds(t.offset));
                        const bool rel = !t.absolute && (t.over & 4);
                        if (use_enum) { if (rel) p.run_after(after, f, en); else p.run_at(when, f, en); }
                        else if (t.prio == 0 && (t.over & 2)) { if (rel) p.run_after(after, f); else p.run_at(when, f); }
                        else { if (rel) p.run_after(after, f, sc); else p.run_at(when, f, sc); }
                        ds_set(8000 + o.id, rel ? static_cast<std::int64_t>(ds_now()) + t.offset : dl);
                        ds_rec(SUB_RET, o.id, 0, 0);
                    }
                }
                break;
            }
            case RESIZE:
                ds_rec(RESIZE_CALL, o.arg, 0, 0);
                p.target_workers_size(static_cast<std::size_t>(o.arg));
                ds_rec(RESIZE_RET, o.arg, 0, 0);
                break;
            case WAITQ: case WAITALL:
                ds_rec(WAIT_CALL, o.id, o.type, 0);
                if (o.type == WAITQ) p.wait_until_no_tasks_waiting(); else p.wait_until_all_tasks_complete();
                ds_rec(WAIT_RET, o.id, o.type, 0);
                if (o.type == WAITALL) check_visible(o.id);
                break;
            case SIZES:
            {
                ds_rec(SZ_CALL, o.arg, 0, 0);
                const long v = size_of(static_cast<int>(o.arg));
                ds_rec(SZ_RET, o.arg, v, 0);
                break;
            }
            case YIELD: for (long i = 0; i < o.arg; ++i) ds_yield(); break;
            case SLEEP: ds_sleep_until(ds_now() + static_cast<std::uint64_t>(o.arg)); break;
            case GATE: ds_gate_open(GATE_SLOT + static_cast<int>(o.arg), 1); break;
            case GETCFG: (void)p.on_stop(); (void)p.target_workers_size(); break;
        }
    }

    // ---- analysis --------------------------------------------------------------------------------
    struct tinfo { long sub_call = -1, sub_ret = -1, start = -1, end = -1, sync_ret = -1; int starts = 0, ends = 0, thread = -1; long pick_lb = -1; std::int64_t start_vt = -1; int sub_thread = -1; };

    struct log_view
    {
        std::vector<tinfo> t;
        std::vector<long> thread_start;     // event index at which a managed thread first ran
        std::set<int> users;
        long dtor_call = -1, dtor_ret = -1, n = 0;
        std::vector<ds_event> e;
        explicit log_view(std::size_t ntasks) : t(ntasks)
        {
            n = ds_nevents(); e.assign(ds_events(), ds_events() + n);
            thread_start.assign(1024, 0);
            std::vector<long> last_end(1024, -1);
            users.insert(0);
            for (long i = 0; i < n; ++i)
            {
                const ds_event& x = e[i];
                const bool has_task = x.kind == SUB_CALL || x.kind == SUB_RET || x.kind == START || x.kind == END || x.kind == SYNC_RET;
                tinfo* k = has_task ? &t[x.a] : nullptr;
                switch (x.kind)
                {
                    case DS_EV_THREAD_START: thread_start[x.tid] = i; last_end[x.tid] = i; break;
                    case USER: users.insert(x.tid); break;
                    case SUB_CALL: k->sub_call = i; k->sub_thread = x.tid; break;
                    case SUB_RET: k->sub_ret = i; break;
                    case SYNC_RET: k->sync_ret = i; break;
                    case START: ++k->starts; k->start = i; k->thread = x.tid; k->pick_lb = std::max(last_end[x.tid], k->sub_call); k->start_vt = static_cast<std::int64_t>(x.vt); break;
                    case END: ++k->ends; k->end = i; last_end[x.tid] = i; break;
                    case DTOR_CALL: dtor_call = i; break;
                    case DTOR_RET: dtor_ret = i; break;
                }
            }
        }
    };

    std::string describe(const log_view& v, long from, long to)
    {
        std::ostringstream s;
        for (long i = std::max(0L, from); i <= to && i < v.n; ++i)
        {
            const auto& x = v.e[i];
            static const char* const nm[] = { "?", "submit", "submitted", "start", "end", "sync_ret", "wait", "waited", "resize", "resized", "size?", "size", "dtor", "dtor_ret", "user", "on_stop", "idle", "probe", "bad" };
            if (x.kind < 0) continue;
            s << nm[x.kind] << "(" << x.a << "," << x.b << ")@t" << x.tid << " ";
            if (s.tellp() > 700) break;
        }
        return s.str();
    }

    void expect(bool ok, const char* kind, const std::string& what, const log_view* v = nullptr)
    {
        if (ok) return;
        hc::violation(kind, what + (v ? " | program: " + g->desc + " | tail: " + describe(*v, v->n - 40, v->n) : " | program: " + g->desc));
    }
    std::string str(long a) { return std::to_string(a); }

    // state at a quiescent point, computed from the events alone
    struct qstate { long accepted = 0, started = 0, finished = 0, running = 0, waiting = 0, scheduled = 0, unreleased_ok = 0; };
    qstate quiet(const log_view& v)
    {
        qstate q;
        for (std::size_t i = 0; i < v.t.size(); ++i)
        {
            const auto& t = v.t[i];
            if (t.sub_call < 0) continue;
            ++q.accepted; q.started += t.starts; q.finished += t.ends;
            q.running += t.starts - t.ends;
            if (!t.starts)
            {
                if (g->tasks[i].kind == SCHED && due(static_cast<long>(i)) > static_cast<std::int64_t>(ds_now())) ++q.scheduled; else ++q.waiting;
            }
        }
        return q;
    }

    void check_sizes_exact(long target, const char* where)
    {
        log_view v(g->tasks.size());
        const qstate q = quiet(v);
        struct freeze { freeze() { ds_freeze(1); } ~freeze() { ds_freeze(0); } } still;
        for (std::size_t i = 0; i < v.t.size(); ++i)    // due about now: either answer is right
            if (v.t[i].sub_call >= 0 && !v.t[i].starts && g->tasks[i].kind == SCHED && due(static_cast<long>(i)) <= static_cast<std::int64_t>(ds_now()) && due_hi(static_cast<long>(i)) > static_cast<std::int64_t>(ds_now()))
            { hc::count("quiescent_checks_skipped"); return; }
        const long w = std::max(target, q.running);
        const long want[S_N] = { w, target, q.running, w - q.running, q.waiting + q.running, q.running, q.waiting, q.scheduled };
        for (int k = 0; k < S_N; ++k)
        {
            const long got = size_of(k);
            const char* kind = k == S_WORKERS ? "workers-converge" : "size-exact";
            // with waiting tasks and idle workers both non-zero the pool has not put a worker to use
            expect(got == want[k], kind, std::string(where) + ": " + size_name[k] + "=" + str(got) + " expected " + str(want[k]), &v);
        }
        hc::count("quiescent_checks");
    }

    void analyse(const log_view& v, int workers_hint)
    {
        (void)workers_hint;
        const std::size_t n = v.t.size();
        for (std::size_t i = 0; i < n; ++i)
        {
            const auto& t = v.t[i];
            const std::string id = "task " + str(static_cast<long>(i));
            expect(t.starts <= 1, "run-twice", id + " ran " + str(t.starts) + " times", &v);
            if (t.starts)
            {
                expect(t.sub_call >= 0 && t.sub_call < t.start, "run-unsubmitted", id + " ran before it was submitted", &v);
                expect(!v.users.count(t.thread), "not-on-worker", id + " ran on a caller thread", &v);
                if (g->tasks[i].kind == SCHED)
                    expect(t.start_vt >= due(static_cast<long>(i)), "early", id + " started " + str(due(static_cast<long>(i)) - t.start_vt) + "ns early", &v);
            }
            if (t.sync_ret >= 0) expect(t.end >= 0 && t.end < t.sync_ret, "sync-early", "run_sync of " + id + " returned before the task finished", &v);
            if (v.dtor_ret >= 0)
            {
                expect(t.start < v.dtor_ret, "run-after-dtor", id + " started after the destructor returned", &v);
                expect(t.end < v.dtor_ret && (t.starts == t.ends), "unfinished-at-dtor", id + " not finished when the destructor returned", &v);
            }
        }
        for (long i = 0; i < v.n; ++i)
            if (v.e[i].kind == NOPE)
                expect(false, v.e[i].b == 1 ? "visibility-submit" : v.e[i].b == 2 ? "visibility-sync" : "visibility-wait", "task " + str(v.e[i].a) + " did not see its submitter's (or caller its task's) writes", &v);

        // order of picks
        for (std::size_t i = 0; i < n; ++i)
        {
            const auto& l = v.t[i];
            if (!l.starts || l.sub_call < 0 || g->tasks[i].kind == SCHED) continue;
            for (std::size_t j = 0; j < n; ++j)
            {
                const auto& h = v.t[j];
                if (i == j || h.sub_ret < 0 || g->tasks[j].kind == SCHED) continue;     // synchronous ones handled by the gated scenario
                const bool hp = g->tasks[j].prio > g->tasks[i].prio, eq = g->tasks[j].prio == g->tasks[i].prio;
                if (!hp && !eq) continue;
                // h was certainly still waiting when l was picked
                const bool still = !h.starts ? true : l.start < h.pick_lb;
                if (!still) continue;
                if (h.pick_lb == h.sub_call && h.starts) continue;      // lower bound says nothing about waiting
                if (hp && h.sub_ret < l.pick_lb) { expect(h.starts != 0 || true, "x", ""); expect(false, "priority", "task " + str(static_cast<long>(i)) + " (priority " + str(g->tasks[i].prio) + ") picked while task " + str(static_cast<long>(j)) + " (priority " + str(g->tasks[j].prio) + ") was waiting", &v); }
                if (eq && h.sub_ret < l.sub_call) expect(false, "fifo", "task " + str(static_cast<long>(i)) + " picked before task " + str(static_cast<long>(j)) + " of equal priority submitted earlier", &v);
            }
        }

        // waits: some moment inside the call must be possible as "queue empty" (and nothing active)
        for (long i = 0; i < v.n; ++i)
        {
            if (v.e[i].kind != WAIT_CALL) continue;
            long r = -1;
            for (long j = i + 1; j < v.n; ++j) if (v.e[j].kind == WAIT_RET && v.e[j].a == v.e[i].a) { r = j; break; }
            if (r < 0) continue;
            const bool all = v.e[i].b == WAITALL;
            std::vector<std::pair<long, long>> busy;
            for (std::size_t k = 0; k < n; ++k)
            {
                const auto& t = v.t[k];
                if (g->tasks[k].kind == SCHED || t.sub_ret < 0) { if (all && t.starts) busy.push_back({ t.start, t.ends ? t.end : v.n }); continue; }
                long hi = !t.starts ? v.n : all ? (t.ends ? t.end : v.n) : t.pick_lb;
                if (hi > t.sub_ret) busy.push_back({ t.sub_ret, hi });
                if (all && t.starts) busy.push_back({ t.start, t.ends ? t.end : v.n });
            }
            std::sort(busy.begin(), busy.end());
            long covered = i;       // [i, covered] certainly busy
            bool first = true;
            for (auto& b : busy) { if (b.first <= covered + (first ? 0 : 0)) { if (b.second > covered) covered = b.second; first = false; } }
            expect(covered < r, all ? "wait-all-early" : "wait-queue-early", std::string("wait call ") + str(v.e[i].a) + " returned although the pool was busy throughout", &v);
            hc::count("wait_intervals");
        }

        // concurrent size snapshots
        for (long i = 0; i < v.n; ++i)
        {
            if (v.e[i].kind != SZ_CALL) continue;
            long r = -1;
            for (long j = i + 1; j < v.n; ++j) if (v.e[j].kind == SZ_RET && v.e[j].tid == v.e[i].tid) { r = j; break; }
            if (r < 0) continue;
            const int k = static_cast<int>(v.e[i].a); const long got = v.e[r].b;
            long pool_threads = 0, lo = 0, hi = 0;
            std::set<int> tids;
            for (long j = 0; j < r; ++j) if (v.e[j].tid > 0 && !v.users.count(v.e[j].tid)) tids.insert(v.e[j].tid);
            pool_threads = ds_get(1);   // threads the pool has created in this run, upper bound
            for (std::size_t x = 0; x < n; ++x)
            {
                const auto& t = v.t[x];
                if (t.sub_call < 0 || t.sub_call > r) continue;
                const bool sched = g->tasks[x].kind == SCHED;
                const bool running = t.starts && t.start < i && (!t.ends || t.end > r);
                const bool maybe_waiting = !(t.starts && t.start < i);
                const bool surely_waiting = !sched && t.sub_ret >= 0 && t.sub_ret < i && (!t.starts || t.pick_lb > r) ;
                bool gone = false;
                if (t.ends && t.end < i) for (std::size_t y = 0; y < n && !gone; ++y) gone = v.t[y].thread == t.thread && v.t[y].starts && v.t[y].start > t.end && v.t[y].start < i;
                switch (k)
                {
                    case S_ACTIVE_W: case S_ACTIVE_T: case S_WAITING_W: lo += running; hi += !gone; break;
                    case S_TASKS: lo += running || (!sched && t.sub_ret >= 0 && t.sub_ret < i && (!t.ends || t.end > r)); hi += !gone; break;   // accepted and unfinished is always counted, whether waiting or active
                    case S_WAITING_T: lo += surely_waiting; hi += maybe_waiting; break;
                    case S_SCHEDULED:
                        if (sched) { lo += t.sub_ret >= 0 && t.sub_ret < i && static_cast<std::int64_t>(v.e[r].vt) < due(static_cast<long>(x)); hi += maybe_waiting; }
                        break;
                    default: break;
                }
            }
            // the targets that can have been in force during the call, and the largest ever
            std::set<long> targets; long most = g->w0;
            {
                struct setting { long call, ret, value; };
                std::vector<setting> all{ { -1, -1, g->w0 } };
                for (long j = 0; j < r; ++j)
                {
                    if (v.e[j].kind != RESIZE_CALL) continue;
                    long ret = j; while (ret < v.n && (v.e[ret].kind != RESIZE_RET || v.e[ret].tid != v.e[j].tid)) ++ret;
                    all.push_back({ j, ret, v.e[j].a });
                    most = std::max(most, v.e[j].a);
                }
                for (auto& s : all) { bool over = false; for (auto& o : all) over = over || (o.call > s.ret && o.ret < i); if (!over) targets.insert(s.value); }
            }
            const bool ending = v.dtor_call >= 0 && r > v.dtor_call;
            const long wlo = ending ? 0 : *targets.begin(), whi = std::min(pool_threads, most);
            if (k == S_WORKERS) { lo = wlo; hi = whi; }
            if (k == S_WAITING_W) { const long a = std::max(0L, wlo - hi); hi = whi - lo; lo = a; }
            if (k == S_TARGET)
            {
                lo = 0; hi = 1000;
                expect(ending || targets.count(got), "target-readback", "target_workers_size reads " + str(got) + ", which was not in force", &v);
            }
            if (k == S_ACTIVE_W || k == S_ACTIVE_T) hi = std::min(hi, whi);
            if (k != S_TARGET && lo == hi) hc::count("size_snapshots_exact");
            expect(lo <= got && got <= hi, "size-bounds", std::string(size_name[k]) + "=" + str(got) + " outside [" + str(lo) + "," + str(hi) + "]", &v);
            hc::count("size_snapshots");
        }
    }

    // ---- scenarios -------------------------------------------------------------------------------
    // now and then a program is large: hundreds of operations, up to two dozen workers
    bool big = false; long room = 0;
    long many(hc::rng& r, long lo, long hi) { return big ? r.in(hi * 5, hi * (r.chance(15) ? 80 : 20)) : r.in(lo, hi); }
    long crew(hc::rng& r, long lo, long hi) { if (!big) return r.in(lo, hi); if (room > 300 && r.chance(12)) { room = 300; return r.in(200, 300); } return r.in(lo, 24); }
    // (each resize may start as many threads as it asks for, and their number is limited)
    long some(hc::rng& r, long lo, long hi) { if (!big) return r.in(lo, hi); long v = r.in(lo, r.chance(20) ? 24 : hi); if (v > room) v = lo; room -= v; return v; }

    struct builder
    {
        hc::rng& r; world& w;
        int add(int kind, int prio)
        {
            if (w.tasks.empty()) w.tasks.reserve(6000);
            task t; t.kind = kind; t.prio = prio; t.over = static_cast<int>(r.in(0, 7)); t.yields = static_cast<int>(r.in(0, 3));
            w.tasks.push_back(t);
            return static_cast<int>(w.tasks.size()) - 1;
        }
        int prio()
        {
            static const int some[] = { -128, -127, -64, -33, -32, -1, 0, 0, 0, 1, 31, 32, 32, 33, 64, 126, 127 };
            return r.chance(70) ? some[r.in(0, 16)] : static_cast<int>(r.in(-128, 127));
        }
    };

    void finish_world(world& w)
    {
        w.pre.assign(w.tasks.size(), 0); w.post.assign(w.tasks.size(), 0);
        std::ostringstream s;
        static const char* const nm[] = { "async", "sync", "sched", "resize", "waitq", "waitall", "sizes", "yield", "sleep", "gate", "cfg" };
        for (std::size_t u = 0; u < w.users.size(); ++u)
        {
            s << "U" << u << "[";
            for (auto& o : w.users[u])
            {
                s << nm[o.type];
                if (o.type <= SCHED) { s << o.id << "/p" << w.tasks[o.id].prio; if (o.type == SCHED) s << "+" << w.tasks[o.id].offset; for (auto& b : w.tasks[o.id].body) s << "{" << nm[b.type] << (b.type <= SCHED ? b.id : b.arg) << "}"; }
                else s << o.arg;
                s << " ";
            }
            s << "] ";
        }
        w.desc += s.str();
    }

    void fatal(int what, const char* text)
    {
        std::string t(text);
        log_view v(g->tasks.size());
        const char* k = what == DS_DEADLOCK ? "deadlock" : what == DS_LIVELOCK ? "livelock" : what == DS_DEAD_OBJECT ? "use-after-destroy" : "harness-limit";
        if (what == DS_MISUSE && t.find("mutex") == t.npos) { std::printf("I %s\n", t.c_str()); std::fflush(stdout); _exit(11); }
        if (what == DS_MISUSE) k = "lock-misuse";
        hc::violation(k, t + " | program: " + g->desc + " | tail: " + describe(v, v.n - 40, v.n));
        hc::finish();
        _exit(10);
    }

    std::vector<std::thread> spawn_users(world& w)
    {
        std::vector<std::thread> th;
        for (std::size_t u = 0; u < w.users.size(); ++u)
            th.emplace_back([u, &w] { ds_rec(USER, static_cast<long>(u), 0, 0); for (auto& o : w.users[u]) exec(o); });
        return th;
    }

    void make_pool(world& w, long n, int flags_unused = 0)
    {
        (void)flags_unused;
        w.w0 = n;
        w.pool = new pool_t(static_cast<std::size_t>(n));
    }

    void count_threads()
    {
        // pool threads = managed threads that are not users
        long users = 1; std::set<int> u{ 0 };
        for (long i = 0; i < static_cast<long>(ds_nevents()); ++i) if (ds_events()[i].kind == USER) u.insert(ds_events()[i].tid);
        users = static_cast<long>(u.size());
        ds_set(1, ds_threads() - users);
    }

    void destroy_pool(world& w)
    {
        ds_rec(DTOR_CALL, 0, 0, 0);
        const void* a = w.pool;
        delete w.pool;
        ds_dead(a, sizeof(pool_t));
        ds_rec(DTOR_RET, 0, 0, 0);
        ds_quiesce();
        ds_undead();
    }

    void wrap_up(world& w)
    {
        count_threads();
        ds_quiesce();
        const int left = ds_end();
        log_view v(w.tasks.size());
        expect(left == 0, "thread-leak", str(left) + " threads still alive after the pool was destroyed", &v);
        analyse(v, 0);
        hc::count("events", v.n);
        hc::count("steps", ds_steps());
        for (auto& t : v.t) hc::count("tasks_run", t.starts);
        hc::distinct(ds_hash());
        if (hc::num("dump", 0)) std::printf("X \"%s\"\n", hc::esc(w.desc + " => " + describe(v, 0, v.n)).c_str());
        else if (hc::counters()["iterations"] % 97 == 1) hc::sample(w.desc + " => " + describe(v, 0, std::min(v.n, 30L)));
    }

    void all_done(world& w, const char* where, bool sched_too = true)
    {
        log_view v(w.tasks.size());
        for (std::size_t i = 0; i < v.t.size(); ++i)
        {
            if (v.t[i].sub_call < 0) continue;
            if (w.tasks[i].kind == SCHED && (!sched_too || due_hi(static_cast<long>(i)) > static_cast<std::int64_t>(ds_now()))) continue;
            expect(v.t[i].starts >= 1, w.tasks[i].kind == SCHED ? "scheduled-not-run" : "lost-task", std::string(where) + ": task " + str(static_cast<long>(i)) + " has not run although the pool is idle", &v);
            expect(v.t[i].ends >= 1 || !v.t[i].starts, "stuck-task", std::string(where) + ": task " + str(static_cast<long>(i)) + " has not finished", &v);
        }
    }

    // users still blocked although nothing is left to do
    void users_done(world& w, const char* where)
    {
        log_view v(w.tasks.size());
        std::map<int, std::pair<int, long>> in;
        for (long i = 0; i < v.n; ++i)
        {
            const auto& e = v.e[i];
            if (e.kind == WAIT_CALL) in[e.tid] = { static_cast<int>(e.b), i };
            else if (e.kind == SUB_CALL && e.c == SYNC) in[e.tid] = { SYNC, i };
            else if (e.kind == WAIT_RET || e.kind == SYNC_RET) in.erase(e.tid);
        }
        for (auto& x : in)
            expect(false, x.second.first == SYNC ? "sync-hang" : "wait-hang", std::string(where) + ": thread " + str(x.first) + " still blocked in a " + (x.second.first == SYNC ? "synchronous run" : "wait call") + " although the pool is idle", &v);
        if (!in.empty()) { hc::finish(); _exit(10); }
    }

    // random mixture of everything
    void general(hc::rng& r, std::uint64_t seed, int variant)
    {
        world w; g = &w; builder b{ r, w };
        const long w0 = crew(r, 0, 4);
        const int nu = static_cast<int>(r.in(1, 3));
        const bool shrink_to_zero = r.chance(25);
        int waits = 0; bool special = false;
        w.desc = "general W" + str(w0) + " ";
        auto resize_arg = [&] { return some(r, shrink_to_zero ? 0 : 1, 4); };
        w.users.resize(static_cast<std::size_t>(nu));
        for (auto& u : w.users)
        {
            const int k = static_cast<int>(many(r, 2, 7));
            for (int i = 0; i < k; ++i)
            {
                const long c = r.in(0, 99);
                if (c < 40)
                {
                    int id = b.add(ASYNC, r.chance(50) ? 0 : b.prio());
                    if (r.chance(20)) { int c2 = b.add(ASYNC, b.prio()); w.tasks[id].body.push_back({ ASYNC, c2, 0 }); }
                    if (r.chance(8)) { int c2 = b.add(SCHED, b.prio()); w.tasks[c2].offset = r.in(-1000, 3000); w.tasks[id].body.push_back({ SCHED, c2, 0 }); }
                    if (r.chance(10)) w.tasks[id].body.push_back({ RESIZE, 0, resize_arg() });
                    if (r.chance(10)) w.tasks[id].body.push_back({ SIZES, 0, r.in(0, S_N - 1) });
                    if (r.chance(15)) w.tasks[id].probe = static_cast<int>(r.in(1, 3));
                    u.push_back({ ASYNC, id, 0 });
                }
                else if (c < 52) { int id = b.add(SYNC, r.chance(50) ? 32 : b.prio()); if (r.chance(20)) { int c2 = b.add(ASYNC, b.prio()); w.tasks[id].body.push_back({ ASYNC, c2, 0 }); } u.push_back({ SYNC, id, 0 }); }
                else if (c < 62) { int id = b.add(SCHED, b.prio()); w.tasks[id].offset = r.in(-2000, 5000); if (r.chance(20)) w.tasks[id].probe = 1; u.push_back({ SCHED, id, 0 }); }
                else if (c < 74) u.push_back({ RESIZE, 0, resize_arg() });
                else if (c < 82) u.push_back({ WAITALL, waits++, 0 });
                else if (c < 88) u.push_back({ WAITQ, waits++, 0 });
                else if (c < 96) u.push_back({ SIZES, 0, r.in(0, S_N - 1) });
                else u.push_back({ YIELD, 0, r.in(1, 10) });
            }
        }
        (void)special; (void)variant;
        finish_world(w);
        ds_begin(seed, 0, &fatal);
        make_pool(w, w0);
        {
            auto th = spawn_users(w);
            ds_quiesce();
            // whatever the users did, a pool with workers must now make everything finish
            long target = crew(r, 1, 4);
            exec({ RESIZE, 0, target });
            ds_quiesce();
            ds_sleep_until(ds_now() + 20000);
            ds_quiesce();
            // a nested or later resize may have replaced the target
            for (int k = 0; k < (big ? 2000 : 4) && w.pool->target_workers_size() == 0; ++k) { exec({ RESIZE, 0, 2 }); ds_quiesce(); ds_sleep_until(ds_now() + 20000); ds_quiesce(); }
            all_done(w, "idle");
            users_done(w, "idle");
            for (auto& t : th) t.join();
        }
        const long tgt = static_cast<long>(w.pool->target_workers_size());
        check_sizes_exact(tgt, "idle");
        destroy_pool(w);
        wrap_up(w);
    }

    // everything is waiting before the workers are let loose
    void priority(hc::rng& r, std::uint64_t seed)
    {
        world w; g = &w; builder b{ r, w };
        const long w0 = r.chance(50) ? 1 : crew(r, 2, 4);
        w.desc = "priority W" + str(w0) + " ";
        const int nu = static_cast<int>(r.in(1, 3));
        std::vector<int> gates;
        for (long i = 0; i < w0; ++i) { int id = b.add(ASYNC, 127); w.tasks[id].gate = 1; w.tasks[id].body.clear(); gates.push_back(id); }
        w.users.resize(static_cast<std::size_t>(nu));
        const bool few = r.chance(50);
        static const int fewp[] = { -128, -64, -32, 0, 32, 64, 127 };
        const int base = static_cast<int>(r.in(0, 4));
        for (auto& u : w.users)
        {
            const int k = static_cast<int>(many(r, 2, 8));
            for (int i = 0; i < k; ++i)
            {
                int p = few ? fewp[base + r.in(0, 2)] : b.prio();
                int id = b.add(ASYNC, p);
                if (r.chance(15)) { int c = b.add(ASYNC, few ? fewp[base + r.in(0, 2)] : b.prio()); w.tasks[id].body.push_back({ ASYNC, c, 0 }); }
                u.push_back({ ASYNC, id, 0 });
            }
            if (r.chance(40)) { int id = b.add(SYNC, r.chance(50) ? 32 : few ? fewp[base + r.in(0, 2)] : b.prio()); u.push_back({ SYNC, id, 0 }); }
        }
        std::vector<int> sched;
        if (r.chance(40)) for (int i = 0; i < 4; ++i) { int id = b.add(SCHED, few ? fewp[base + r.in(0, 2)] : b.prio()); w.tasks[id].offset = r.in(100, 103) * 1000000; w.tasks[id].absolute = true; sched.push_back(id); w.users[0].insert(w.users[0].begin(), op{ SCHED, id, 0 }); }
        finish_world(w);
        ds_begin(seed, DS_NO_TIME_JUMPS, &fatal);
        make_pool(w, w0);
        for (int id : gates) exec({ ASYNC, id, 0 });
        ds_quiesce();
        {
            log_view v(w.tasks.size());
            for (int id : gates) expect(v.t[id].starts == 1, "worker-unused", "only some of the workers were put to use for as many tasks", &v);
        }
        auto th = spawn_users(w);
        ds_quiesce();
        if (!sched.empty()) { ds_sleep_until(200 * 1000000ULL); ds_quiesce(); }
        const long mark = static_cast<long>(ds_nevents());
        {
            // all top-level tasks are waiting now, in particular the synchronous and the scheduled ones
            log_view v(w.tasks.size());
            long n = 0; for (std::size_t i = 0; i < v.t.size(); ++i) n += v.t[i].sub_call >= 0 && !v.t[i].starts;
            expect(static_cast<long>(w.pool->waiting_tasks_size()) == n, "size-exact", "gated: waiting_tasks_size=" + str(static_cast<long>(w.pool->waiting_tasks_size())) + " expected " + str(n), &v);
        }
        ds_gate_open(GATE_SLOT + 1, 1);
        ds_quiesce();
        all_done(w, "released");
        users_done(w, "released");
        for (auto& t : th) t.join();
        {
            log_view v(w.tasks.size());
            auto order_ok = [&](std::size_t i, std::size_t j)   // must i be picked before j, both waiting at mark?
            {
                if (w.tasks[i].prio != w.tasks[j].prio) return w.tasks[i].prio > w.tasks[j].prio;
                const bool si = w.tasks[i].kind == SCHED, sj = w.tasks[j].kind == SCHED;
                if (si && sj) return due_hi(static_cast<long>(i)) < due(static_cast<long>(j)) || (due(static_cast<long>(i)) == due(static_cast<long>(j)) && v.t[i].sub_ret < v.t[j].sub_call);
                if (si || sj) return false;     // released by time: not ordered against direct submissions here
                const long ri = w.tasks[i].kind == SYNC ? -1 : v.t[i].sub_ret;
                return ri >= 0 && ri < v.t[j].sub_call;
            };
            for (std::size_t i = 0; i < v.t.size(); ++i) for (std::size_t j = 0; j < v.t.size(); ++j)
            {
                if (i == j || v.t[i].sub_call < 0 || v.t[j].sub_call < 0 || v.t[i].sub_call > mark || v.t[j].sub_call > mark) continue;
                if (w.tasks[i].gate || w.tasks[j].gate || !v.t[i].starts || !v.t[j].starts) continue;
                if (!order_ok(i, j)) continue;
                const bool bad = v.t[j].start < v.t[i].start && (w0 == 1 || v.t[j].start < v.t[i].pick_lb);
                if (bad) expect(false, w.tasks[i].prio != w.tasks[j].prio ? "priority" : "fifo", "task " + str(static_cast<long>(j)) + " (priority " + str(w.tasks[j].prio) + ") started before waiting task " + str(static_cast<long>(i)) + " (priority " + str(w.tasks[i].prio) + ")", &v);
                hc::count("ordered_pairs");
            }
        }
        destroy_pool(w);
        wrap_up(w);
    }

    long long_time(hc::rng& r, int percent)        // seconds, or none
    {
        static const long t[] = { 1, 30, 100, 3700, 90000, 3000000, 90000000 };
        return r.chance(percent) ? t[r.in(0, 6)] : 0;
    }

    void sync_runs(hc::rng& r, std::uint64_t seed)
    {
        world w; g = &w; builder b{ r, w };
        const long w0 = crew(r, 1, 3);
        w.desc = "sync W" + str(w0) + " ";
        w.users.resize(static_cast<std::size_t>(r.in(1, 4)));
        int nested = 0;
        for (auto& u : w.users)
        {
            const int k = static_cast<int>(many(r, 1, 4));
            for (int i = 0; i < k; ++i)
            {
                if (r.chance(70))
                {
                    int id = b.add(SYNC, r.chance(50) ? 32 : b.prio());
                    if (r.chance(30)) { int c = b.add(ASYNC, b.prio()); w.tasks[id].body.push_back({ ASYNC, c, 0 }); }
                    // one nested synchronous run at most, with a spare worker that cannot be occupied by another nested one
                    if (w0 >= 2 && !nested && r.chance(20)) { ++nested; int c = b.add(SYNC, b.prio()); w.tasks[id].body.push_back({ SYNC, c, 0 }); }
                    u.push_back({ SYNC, id, 0 });
                }
                else if (r.chance(50)) u.push_back({ ASYNC, b.add(ASYNC, b.prio()), 0 });
                else u.push_back({ RESIZE, 0, nested ? some(r, 2, 4) : some(r, 1, 4) });
            }
        }
        if (nested) for (auto& u : w.users) for (auto& o : u) if (o.type == RESIZE && o.arg < 2) o.arg = 2;
        // nobody runs the tasks for a long time: no worker at all, or all of them occupied; however long, it is waited for
        const long idle = long_time(r, 25);
        const bool none = idle && r.chance(60);
        std::vector<int> gates;
        if (idle)
        {
            for (auto& u : w.users) u.erase(std::remove_if(u.begin(), u.end(), [](const op& o) { return o.type == RESIZE; }), u.end());
            if (!none) for (long i = 0; i < w0; ++i) { int id = b.add(ASYNC, 127); w.tasks[id].gate = 1; w.tasks[id].body.clear(); gates.push_back(id); }
        }
        finish_world(w);
        ds_begin(seed, idle ? DS_NO_TIME_JUMPS : 0, &fatal);
        make_pool(w, w0);
        if (none) { exec({ RESIZE, 0, 0 }); ds_quiesce(); }
        for (int id : gates) exec({ ASYNC, id, 0 });
        if (!none) ds_quiesce();
        auto th = spawn_users(w);
        ds_quiesce();
        if (idle)
        {
            ds_sleep_until(static_cast<std::uint64_t>(ds_now()) + static_cast<std::uint64_t>(idle) * 1000000000ULL); ds_quiesce();
            log_view v(w.tasks.size());
            for (std::size_t i = 0; i < v.t.size(); ++i) expect(v.t[i].sync_ret < 0, "sync-early", "run_sync of " + str(static_cast<long>(i)) + " returned while no worker was free", &v);
            hc::count("long_waits");
            if (none) exec({ RESIZE, 0, w0 }); else ds_gate_open(GATE_SLOT + 1, 1);
            ds_quiesce();
        }
        all_done(w, "sync"); users_done(w, "sync");
        for (auto& t : th) t.join();
        destroy_pool(w);
        wrap_up(w);
    }

    void scheduling(hc::rng& r, std::uint64_t seed)
    {
        world w; g = &w; builder b{ r, w };
        const long w0 = r.chance(50) ? 1 : crew(r, 2, 3);
        w.desc = "sched W" + str(w0) + " ";
        const int rounds = static_cast<int>(r.in(1, 3));
        const bool same_prio = r.chance(50);
        std::vector<std::vector<std::vector<op>>> plan(static_cast<std::size_t>(rounds));
        for (int q = 0; q < rounds; ++q)
        {
            const int nu = static_cast<int>(r.in(1, 3));
            plan[q].resize(static_cast<std::size_t>(nu));
            for (auto& u : plan[q])
            {
                const int k = static_cast<int>(many(r, 1, 4));
                for (int i = 0; i < k; ++i)
                {
                    int id = b.add(SCHED, same_prio ? 0 : b.prio());
                    task& t = w.tasks[id];
                    const long c = r.in(0, 9);
                    if (c == 0) t.offset = r.in(-3, 0) * 1000000000L;
                    else if (c <= 2) t.offset = r.in(0, 2000);
                    else { t.absolute = true; t.offset = (q + 1) * 10000000000L + r.in(0, 4) * 1000000000L; }
                    if (r.chance(10)) { t.absolute = false; t.offset = 3600L * 24 * 365 * 1000000000L; }
                    if (r.chance(15)) { int c2 = b.add(SCHED, 0); w.tasks[c2].offset = r.in(0, 3000); w.tasks[id].body.push_back({ SCHED, c2, 0 }); }
                    if (r.chance(10)) { int c2 = b.add(ASYNC, 0); w.tasks[id].body.push_back({ ASYNC, c2, 0 }); }
                    if (r.chance(15)) t.probe = static_cast<int>(r.in(1, 3));
                    u.push_back({ SCHED, id, 0 });
                    if (r.chance(20)) u.push_back({ SLEEP, 0, r.in(1, 5000) });
                    if (r.chance(10)) u.push_back({ SIZES, 0, r.chance(50) ? S_SCHEDULED : S_WAITING_T });
                    if (r.chance(10)) u.push_back({ ASYNC, b.add(ASYNC, same_prio ? 0 : b.prio()), 0 });
                }
            }
        }
        for (auto& p : plan) for (auto& u : p) w.users.push_back(u);
        finish_world(w);
        w.users.clear();
        ds_begin(seed, DS_NO_TIME_JUMPS, &fatal);
        make_pool(w, w0);
        for (auto& round : plan)
        {
            w.users = round;
            auto th = spawn_users(w);
            if (r.chance(70)) { for (auto& t : th) t.join(); ds_quiesce(); }
            // walk through the deadlines: at each one, everything due must run without any other stimulus
            for (int guard = 0; guard < (big ? 3000 : 60); ++guard)
            {
                ds_quiesce();
                all_done(w, "deadline");
                check_sizes_exact(w0, "deadline");
                std::int64_t next = INT64_MAX;
                log_view v(w.tasks.size());
                for (std::size_t i = 0; i < v.t.size(); ++i)
                    if (v.t[i].sub_call >= 0 && !v.t[i].starts && due_hi(static_cast<long>(i)) > static_cast<std::int64_t>(ds_now())) next = std::min(next, due_hi(static_cast<long>(i)));
                if (next == INT64_MAX || next > 1000L * 1000000000L) { bool j = true; for (auto& t : th) if (t.joinable() ) { ds_sleep_until(ds_now() + 100000); ds_quiesce(); t.join(); j = false; } if (j) break; else continue; }
                if (r.chance(50)) { ds_sleep_until(static_cast<std::uint64_t>(next) - 1); ds_quiesce(); }
                ds_sleep_until(static_cast<std::uint64_t>(next));
            }
            for (auto& t : th) if (t.joinable()) t.join();
        }
        {
            // order of release among tasks that were all scheduled before any of them was due
            log_view v(w.tasks.size());
            if (w0 == 1)
                for (std::size_t i = 0; i < v.t.size(); ++i) for (std::size_t j = 0; j < v.t.size(); ++j)
                {
                    if (i == j || w.tasks[i].kind != SCHED || w.tasks[j].kind != SCHED || !v.t[i].starts || !v.t[j].starts) continue;
                    if (w.tasks[i].prio != w.tasks[j].prio) continue;
                    const bool both_before = v.e[v.t[i].sub_ret].vt < static_cast<std::uint64_t>(std::max<std::int64_t>(0, std::min(due(static_cast<long>(i)), due(static_cast<long>(j))) - 100000))
                        && v.e[v.t[j].sub_ret].vt < static_cast<std::uint64_t>(std::max<std::int64_t>(0, std::min(due(static_cast<long>(i)), due(static_cast<long>(j))) - 100000));
                    if (!both_before) continue;
                    const bool first = due_hi(static_cast<long>(i)) < due(static_cast<long>(j)) || (due(static_cast<long>(i)) == due(static_cast<long>(j)) && due_hi(static_cast<long>(i)) == due_hi(static_cast<long>(j)) && v.t[i].sub_ret < v.t[j].sub_call);
                    if (!first) continue;
                    hc::count("ordered_pairs");
                    expect(v.t[i].start < v.t[j].start, "schedule-order", "task " + str(static_cast<long>(j)) + " due at " + str(due(static_cast<long>(j))) + " ran before task " + str(static_cast<long>(i)) + " due at " + str(due(static_cast<long>(i))), &v);
                }
        }
        destroy_pool(w);
        wrap_up(w);
    }

    void waiting(hc::rng& r, std::uint64_t seed)
    {
        world w; g = &w; builder b{ r, w };
        const long w0 = crew(r, 0, 3);
        w.desc = "wait W" + str(w0) + " ";
        int waits = 0;
        w.users.resize(static_cast<std::size_t>(r.in(2, 4)));
        for (std::size_t q = 0; q < w.users.size(); ++q)
        {
            auto& u = w.users[q];
            const int k = static_cast<int>(many(r, 1, 4));
            for (int i = 0; i < k; ++i)
            {
                const long c = r.in(0, 9);
                if (c < 4)
                {
                    int id = b.add(ASYNC, b.prio());
                    if (r.chance(25)) { int c2 = b.add(ASYNC, b.prio()); w.tasks[id].body.push_back({ ASYNC, c2, 0 }); }
                    if (r.chance(25)) w.tasks[id].body.push_back({ RESIZE, 0, some(r, 0, 2) });
                    u.push_back({ ASYNC, id, 0 });
                }
                else if (c < 6) u.push_back({ WAITALL, waits++, 0 });
                else if (c < 8) u.push_back({ WAITQ, waits++, 0 });
                else u.push_back({ RESIZE, 0, some(r, 0, 3) });
            }
            if (q == 0) u.push_back({ WAITALL, waits++, 0 });
        }
        // something may keep the waiters waiting for very long: a task that goes on running, or tasks without a worker
        const long idle = long_time(r, 25);
        int busy = -1;
        if (idle && w0 && r.chance(50)) { busy = b.add(ASYNC, 127); w.tasks[busy].gate = 1; w.tasks[busy].body.clear(); }
        finish_world(w);
        ds_begin(seed, 0, &fatal);
        make_pool(w, w0);
        if (busy >= 0) { exec({ ASYNC, busy, 0 }); ds_quiesce(); }
        auto th = spawn_users(w);
        if (idle)
        {
            ds_quiesce();
            ds_sleep_until(static_cast<std::uint64_t>(ds_now()) + static_cast<std::uint64_t>(idle) * 1000000000ULL);
            ds_quiesce();
            hc::count("long_waits");
            if (busy >= 0) ds_gate_open(GATE_SLOT + 1, 1);
        }
        for (int k = 0; k < (big ? 2000 : 8); ++k)
        {
            ds_quiesce();
            log_view v(w.tasks.size());
            qstate q = quiet(v);
            if (q.waiting == 0 && q.running == 0) { users_done(w, "empty pool"); }
            if (q.waiting == 0 && q.running == 0 && ds_running_threads() - 1 == static_cast<int>(w.pool->workers_size())) break;
            if (q.waiting) exec({ RESIZE, 0, r.in(1, 2) });
        }
        if (w.pool->target_workers_size() == 0) exec({ RESIZE, 0, 1 });
        ds_quiesce();
        all_done(w, "idle"); users_done(w, "idle");
        for (auto& t : th) t.join();
        // an idle pool never makes a waiter wait, whatever its size; and after a shrink to zero
        if (r.chance(50)) exec({ RESIZE, 0, 0 });
        exec({ r.chance(50) ? WAITALL : WAITQ, waits++, 0 });
        exec({ WAITALL, waits++, 0 });
        destroy_pool(w);
        wrap_up(w);
    }

    void resizing(hc::rng& r, std::uint64_t seed)
    {
        world w; g = &w; builder b{ r, w };
        const long w0 = crew(r, 0, 5);
        w.desc = "resize W" + str(w0) + " ";
        const int rounds = static_cast<int>(r.in(2, 5));
        std::vector<long> targets;
        std::vector<std::vector<int>> fill(static_cast<std::size_t>(rounds));
        std::vector<std::vector<int>> gated(static_cast<std::size_t>(rounds));
        long cur = w0;
        for (int q = 0; q < rounds; ++q)
        {
            const int k = static_cast<int>(many(r, 0, 5));
            for (int i = 0; i < k; ++i) { int id = b.add(ASYNC, b.prio()); fill[q].push_back(id); }
            const long gk = r.chance(50) ? cur : r.in(0, cur + 2);
            for (long i = 0; i < gk; ++i) { int id = b.add(ASYNC, b.prio()); w.tasks[id].gate = 1 + q; gated[q].push_back(id); }
            cur = crew(r, 0, 5); targets.push_back(cur); w.desc += ">" + str(cur) + "(" + str(gk) + "g) ";
        }
        // concurrent resizers in some runs: convergence only
        const bool multi = r.chance(35);
        if (multi)
        {
            w.users.resize(2);
            for (auto& u : w.users) for (int i = 0; i < 3; ++i)
            {
                if (r.chance(60)) u.push_back({ RESIZE, 0, r.in(0, 4) });
                else { int id = b.add(ASYNC, b.prio()); if (r.chance(40)) w.tasks[id].body.push_back({ RESIZE, 0, r.in(0, 4) }); u.push_back({ ASYNC, id, 0 }); }
            }
        }
        finish_world(w);
        ds_begin(seed, 0, &fatal);
        make_pool(w, w0);
        long target = w0;
        expect(static_cast<long>(w.pool->workers_size()) == w0, "workers-spawn", "constructor: workers_size=" + str(static_cast<long>(w.pool->workers_size())) + " target " + str(w0));
        if (multi)
        {
            auto th = spawn_users(w);
            ds_quiesce();
            for (auto& t : th) t.join();
            ds_quiesce();
            target = static_cast<long>(w.pool->target_workers_size());
            check_sizes_exact(target, "resized concurrently");
            for (int k = 0; k < 200 && target == 0; ++k)     // waiting tasks may set the target themselves
            { exec({ RESIZE, 0, 3 }); ds_quiesce(); target = static_cast<long>(w.pool->target_workers_size()); }
            all_done(w, "resized concurrently"); check_sizes_exact(target, "resized concurrently");
        }
        // from a resize made while every worker is blocked until the next resize: no task starts beyond the new target
        struct window { long from, to, limit; };
        std::vector<window> windows;
        for (int q = 0; q < rounds; ++q)
        {
            const bool settle = r.chance(50);
            if (settle) ds_quiesce();
            if (!windows.empty() && windows.back().to == LONG_MAX) windows.back().to = static_cast<long>(ds_nevents());
            if (settle)
            {
                const long before = ds_threads();
                ds_quiesce();
                (void)before;
                check_sizes_exact(target, "settled");
            }
            for (int id : gated[q]) exec({ ASYNC, id, 0 });
            for (int id : fill[q]) exec({ ASYNC, id, 0 });
            if (settle)
            {
                ds_quiesce();
                log_view v(w.tasks.size());
                long running = 0; for (auto& t : v.t) running += t.starts - t.ends;
                long waiting = 0; for (auto& t : v.t) waiting += t.sub_call >= 0 && !t.starts;
                expect(running <= target, "concurrency", str(running) + " tasks running with target " + str(target), &v);
                expect(running == target || waiting == 0, "worker-unused", "only " + str(running) + " of " + str(target) + " workers in use with " + str(waiting) + " tasks waiting", &v);
            }
            const long next = targets[q];
            exec({ RESIZE, 0, next });
            if (settle) windows.push_back({ static_cast<long>(ds_nevents()), LONG_MAX, next });
            const long got = static_cast<long>(w.pool->workers_size());
            if (!multi) expect(got >= next, "workers-spawn", "after setting target " + str(next) + " workers_size=" + str(got));
            const long t2 = static_cast<long>(w.pool->target_workers_size());
            expect(t2 == next, "target-readback", "target read back " + str(t2) + " expected " + str(next));
            target = next;
            if (r.chance(60)) { ds_quiesce(); check_sizes_exact(target, "resized, tasks still running"); }
            ds_gate_open(GATE_SLOT + 1 + q, 1);
            if (r.chance(60))
            {
                ds_quiesce();
                check_sizes_exact(target, "resized");
                if (target) all_done(w, "resized");
            }
        }
        if (!windows.empty() && windows.back().to == LONG_MAX) windows.back().to = static_cast<long>(ds_nevents());
        if (!target) { exec({ RESIZE, 0, 1 }); target = 1; }
        ds_quiesce();
        {
            log_view v(w.tasks.size());
            long running = 0;
            std::size_t k = 0;
            for (long i = 0; i < v.n; ++i)
            {
                while (k < windows.size() && windows[k].to <= i) ++k;
                if (v.e[i].kind == END) --running;
                if (v.e[i].kind != START) continue;
                ++running;
                if (k < windows.size() && windows[k].from <= i)
                {
                    hc::count("starts_after_resize");
                    expect(running <= windows[k].limit, "surplus-worker-runs", "task " + str(v.e[i].a) + " started as number " + str(running) + " after the target was set to " + str(windows[k].limit), &v);
                }
            }
        }
        all_done(w, "final"); check_sizes_exact(target, "final");
        destroy_pool(w);
        wrap_up(w);
    }

    void destruction(hc::rng& r, std::uint64_t seed)
    {
        world w; g = &w; builder b{ r, w };
        const long w0 = crew(r, 1, 4);
        const bool complete = r.chance(60);
        w.desc = std::string("dtor ") + (complete ? "complete" : "join") + " W" + str(w0) + " ";
        w.users.resize(1 + (r.chance(40) ? 1 : 0));
        const bool far = r.chance(50), near = r.chance(40), nested_resize = r.chance(30);
        for (auto& u : w.users)
        {
            const int k = static_cast<int>(many(r, 0, 7));
            for (int i = 0; i < k; ++i)
            {
                const long c = r.in(0, 9);
                if (c < 7)
                {
                    int id = b.add(ASYNC, b.prio());
                    if (r.chance(30))
                    {
                        int c2 = b.add(ASYNC, b.prio()); w.tasks[id].body.push_back({ ASYNC, c2, 0 });
                        if (r.chance(30)) { int c3 = b.add(ASYNC, b.prio()); w.tasks[c2].body.push_back({ ASYNC, c3, 0 }); }
                    }
                    if (nested_resize && r.chance(50)) w.tasks[id].body.push_back({ RESIZE, 0, some(r, 1, 6) });
                    w.tasks[id].yields = static_cast<int>(r.in(0, 8));
                    u.push_back({ ASYNC, id, 0 });
                }
                else if (c < 8) u.push_back({ RESIZE, 0, some(r, 1, 4) });
                else if (c < 9 && far) { int id = b.add(SCHED, 0); w.tasks[id].offset = r.in(1, 5) * 1000000000000L; u.push_back({ SCHED, id, 0 }); }
                else if (near) { int id = b.add(SCHED, 0); w.tasks[id].offset = r.in(-100, 600); u.push_back({ SCHED, id, 0 }); }
            }
        }
        // a task that goes on for very long is waited for all the same
        const long lasting = long_time(r, 20);
        if (lasting)
        {
            int id = b.add(ASYNC, 127);
            w.tasks[id].body.push_back({ SLEEP, 0, lasting * 1000000000 });
            w.users[0].insert(w.users[0].begin(), op{ ASYNC, id, 0 });
        }
        const long settle = r.in(0, 2);
        const bool late_shrink = r.chance(40);
        finish_world(w);
        ds_begin(seed, DS_NO_TIME_JUMPS, &fatal);
        make_pool(w, w0);
        if (complete) { w.pool->on_stop(pool_t::action::complete_tasks); ds_rec(ONSTOP, 1, 0, 0); }
        else if (r.chance(30)) { w.pool->on_stop(pool_t::action::complete_tasks); w.pool->on_stop(pool_t::action::join_all); }
        expect((w.pool->on_stop() == pool_t::action::complete_tasks) == complete, "on-stop-readback", "stop action does not read back what was set");
        auto th = spawn_users(w);
        for (auto& t : th) t.join();
        if (settle == 1) for (long i = r.in(0, 20); i > 0; --i) ds_yield();
        if (settle == 2 && r.chance(50)) ds_quiesce();
        if (late_shrink) exec({ RESIZE, 0, r.in(1, 2) });
        const std::uint64_t t0 = ds_now();
        destroy_pool(w);
        const std::uint64_t t1 = ds_now();
        count_threads();
        const int left = ds_end();
        log_view v(w.tasks.size());
        expect(left == 0, "thread-leak", str(left) + " threads still alive after the pool was destroyed", &v);
        expect(lasting || t1 - t0 < 900000000000ULL, "dtor-delayed", "destruction waited " + str(static_cast<long>((t1 - t0) / 1000000)) + "ms of virtual time for a scheduled task", &v);
        for (std::size_t i = 0; i < v.t.size(); ++i)
        {
            if (w.tasks[i].kind == SCHED)
            {
                if (due(static_cast<long>(i)) > static_cast<std::int64_t>(lasting ? t1 : t0 + 900000000000ULL)) expect(v.t[i].starts == 0, "early", "a task scheduled for the far future ran during destruction", &v);
                continue;
            }
            if (complete && v.t[i].sub_call >= 0)
                expect(v.t[i].starts == 1 && v.t[i].ends == 1, "incomplete-at-dtor", "task " + str(static_cast<long>(i)) + " was waiting (or submitted by a running task) and did not run before the destructor returned", &v);
        }
        analyse(v, 0);
        hc::count("events", v.n); hc::count("steps", ds_steps());
        for (auto& t : v.t) hc::count("tasks_run", t.starts);
        hc::distinct(ds_hash());
        if (hc::counters()["iterations"] % 97 == 1) hc::sample(w.desc + " => " + describe(v, 0, std::min(v.n, 30L)));
    }

    // exact numbers with a known number of running, waiting and scheduled tasks
    void sizes(hc::rng& r, std::uint64_t seed)
    {
        world w; g = &w; builder b{ r, w };
        // (now and then there is a task for each of hundreds of workers, all of them active at the same time)
        const bool crowd = big && r.chance(50);
        if (crowd) { room = 300; hc::count("crowds"); }
        const long w0 = crowd ? r.in(250, 300) : crew(r, 0, 4);
        w.desc = "sizes W" + str(w0) + " ";
        std::vector<std::vector<op>> steps(static_cast<std::size_t>(r.in(3, 8)));
        int gate = 0;
        for (auto& s : steps)
        {
            ++gate;
            if (crowd && gate == 1) for (long i = r.in(250, w0 + 10); i > 0; --i) { int id = b.add(ASYNC, b.prio()); w.tasks[id].gate = static_cast<int>(r.in(1, 2)); s.push_back({ ASYNC, id, 0 }); }
            const int k = static_cast<int>(many(r, 0, 5));
            for (int i = 0; i < k; ++i)
            {
                const long c = r.in(0, 9);
                if (c < 6) { int id = b.add(ASYNC, b.prio()); w.tasks[id].gate = static_cast<int>(gate + r.in(0, 2)); if (r.chance(40)) w.tasks[id].body.push_back({ SIZES, 0, r.in(0, S_N - 1) }); s.push_back({ ASYNC, id, 0 }); }
                else if (c < 9) { int id = b.add(SCHED, b.prio()); w.tasks[id].offset = r.in(1, 6) * 1000000000L; w.tasks[id].absolute = r.chance(50); s.push_back({ SCHED, id, 0 }); }
                else s.push_back({ RESIZE, 0, some(r, 0, 4) });
            }
        }
        const int ns = static_cast<int>(steps.size());
        for (int i = 0; i < 2; ++i) { w.users.push_back({}); for (int k = 0; k < 6; ++k) { w.users.back().push_back({ SIZES, 0, r.in(0, S_N - 1) }); w.users.back().push_back({ YIELD, 0, r.in(0, 20) }); } }
        for (auto& s : steps) w.users.push_back(s);
        finish_world(w);
        w.users.resize(2);
        ds_begin(seed, DS_NO_TIME_JUMPS, &fatal);
        make_pool(w, w0);
        auto th = spawn_users(w);
        long target = w0;
        for (int q = 0; q < ns; ++q)
        {
            for (auto& o : steps[q]) { exec(o); if (o.type == RESIZE) target = o.arg; }
            ds_quiesce();
            check_sizes_exact(target, "step");
            ds_gate_open(GATE_SLOT + q + 1, 1);
            ds_quiesce();
            check_sizes_exact(target, "released");
            if (r.chance(60)) { ds_sleep_until(ds_now() + 1000000000ULL); ds_quiesce(); check_sizes_exact(target, "later"); }
        }
        for (int q = 0; q < 12; ++q) ds_gate_open(GATE_SLOT + q, 1);
        for (auto& t : th) t.join();
        exec({ RESIZE, 0, 2 }); target = 2;
        ds_quiesce();
        ds_sleep_until(ds_now() + 10000000000ULL); ds_quiesce();
        all_done(w, "end");
        check_sizes_exact(target, "end");
        destroy_pool(w);
        wrap_up(w);
    }

    // numbers read by several threads and from within tasks while tasks come and go
    void snapshots(hc::rng& r, std::uint64_t seed)
    {
        world w; g = &w; builder b{ r, w };
        const long w0 = crew(r, 1, 4);
        const bool steady = r.chance(65);
        w.desc = "snapshots W" + str(w0) + " ";
        w.users.resize(static_cast<std::size_t>(r.in(2, 4)));
        auto look = [&] { const long c = r.in(0, 9); return op{ SIZES, 0, c < 4 ? static_cast<long>(S_TASKS) : c < 7 ? static_cast<long>(S_WAITING_W) : r.in(0, S_N - 1) }; };
        for (std::size_t q = 0; q < w.users.size(); ++q)
        {
            const int k = static_cast<int>(many(r, 3, 9));
            for (int i = 0; i < k; ++i)
            {
                const long c = r.in(0, 99);
                if (c < (q ? 30 : 75))
                {
                    int id = b.add(ASYNC, b.prio());
                    w.tasks[id].yields = static_cast<int>(r.in(0, 5));
                    if (r.chance(25)) w.tasks[id].body.push_back(look());
                    if (r.chance(15)) { int c2 = b.add(ASYNC, b.prio()); w.tasks[id].body.push_back({ ASYNC, c2, 0 }); }
                    w.users[q].push_back({ ASYNC, id, 0 });
                }
                else if (c < 80) w.users[q].push_back(look());
                else if (c < 85) w.users[q].push_back({ SYNC, b.add(SYNC, b.prio()), 0 });
                else if (c < 90) { int id = b.add(SCHED, b.prio()); w.tasks[id].offset = r.in(-1000, 2000); w.users[q].push_back({ SCHED, id, 0 }); }
                else if (c < 95 && !steady) w.users[q].push_back({ RESIZE, 0, some(r, 1, 4) });
                else w.users[q].push_back({ YIELD, 0, r.in(1, 6) });
            }
        }
        finish_world(w);
        ds_begin(seed, 0, &fatal);
        make_pool(w, w0);
        auto th = spawn_users(w);
        ds_quiesce(); ds_sleep_until(ds_now() + 20000); ds_quiesce();
        all_done(w, "snapshots"); users_done(w, "snapshots");
        for (auto& t : th) t.join();
        check_sizes_exact(static_cast<long>(w.pool->target_workers_size()), "snapshots");
        destroy_pool(w);
        wrap_up(w);
    }

    void reentrant(hc::rng& r, std::uint64_t seed)
    {
        world w; g = &w; builder b{ r, w };
        const long w0 = crew(r, 3, 4);
        w.desc = "reentrant W" + str(w0) + " ";
        int waits = 0; bool blocked_one = false;
        w.users.resize(static_cast<std::size_t>(r.in(1, 3)));
        for (auto& u : w.users)
        {
            const int k = static_cast<int>(many(r, 1, 5));
            for (int i = 0; i < k; ++i)
            {
                const bool s = r.chance(25);
                int id = b.add(s ? SCHED : ASYNC, b.prio());
                if (s) w.tasks[id].offset = r.in(-500, 3000);
                if (r.chance(60)) w.tasks[id].probe = static_cast<int>(r.in(1, 3));
                const int ops = static_cast<int>(r.in(0, 4));
                for (int q = 0; q < ops; ++q)
                {
                    const long c = r.in(0, 9);
                    if (c < 3) { int c2 = b.add(ASYNC, b.prio()); if (r.chance(50)) w.tasks[c2].probe = static_cast<int>(r.in(1, 3)); w.tasks[id].body.push_back({ ASYNC, c2, 0 }); }
                    else if (c < 4) { int c2 = b.add(SCHED, b.prio()); w.tasks[c2].offset = r.in(-500, 2000); if (r.chance(50)) w.tasks[c2].probe = 1; w.tasks[id].body.push_back({ SCHED, c2, 0 }); }
                    else if (c < 6) w.tasks[id].body.push_back({ SIZES, 0, r.in(0, S_N - 1) });
                    else if (c < 7) w.tasks[id].body.push_back({ RESIZE, 0, some(r, 3, 5) });
                    else if (c < 8) w.tasks[id].body.push_back({ GETCFG, 0, 0 });
                    else if (!blocked_one)
                    {
                        // at most one task of the program blocks on the pool itself
                        blocked_one = true;
                        if (r.chance(50)) { int c2 = b.add(SYNC, b.prio()); w.tasks[c2].probe = r.chance(50) ? 2 : 0; w.tasks[id].body.push_back({ SYNC, c2, 0 }); }
                        else w.tasks[id].body.push_back({ WAITQ, waits++, 0 });
                    }
                }
                u.push_back({ s ? SCHED : ASYNC, id, 0 });
                if (r.chance(20)) { int c2 = b.add(SYNC, 32); w.tasks[c2].probe = r.chance(50) ? 1 : 0; u.push_back({ SYNC, c2, 0 }); }
                if (r.chance(10)) u.push_back({ WAITALL, waits++, 0 });
                if (r.chance(15)) u.push_back({ GETCFG, 0, 0 });
            }
        }
        finish_world(w);
        ds_begin(seed, 0, &fatal);
        make_pool(w, w0);
        auto th = spawn_users(w);
        ds_quiesce(); ds_sleep_until(ds_now() + 20000); ds_quiesce(); ds_sleep_until(ds_now() + 20000); ds_quiesce();
        all_done(w, "reentrant"); users_done(w, "reentrant");
        for (auto& t : th) t.join();
        check_sizes_exact(static_cast<long>(w.pool->target_workers_size()), "reentrant");
        {
            log_view v(w.tasks.size());
            std::vector<int> probes(w.tasks.size(), 0);
            for (long i = 0; i < v.n; ++i) if (v.e[i].kind == PROBE) ++probes[v.e[i].a];
            for (std::size_t i = 0; i < w.tasks.size(); ++i)
                if (w.tasks[i].probe && v.t[i].ends) expect(probes[i] == 1, "capture-lifetime", "captured object of finished task " + str(static_cast<long>(i)) + " destroyed " + str(probes[i]) + " times by the time the pool is idle", &v);
        }
        destroy_pool(w);
        wrap_up(w);
    }
}

int main(int argc, char** argv)
{
    hc::init(argc, argv);
    const std::uint64_t seed = static_cast<std::uint64_t>(hc::num("seed", 1));
    const long first = hc::num("first", 0), n = hc::num("n", 100), stride = hc::num("stride", 1);
    const std::string mix = hc::text("mix", "gpswrdze");
    {   // constants documented for the named priorities
        static_assert(static_cast<int>(pool_t::priority::lowest) < static_cast<int>(pool_t::priority::lower) || true, "");
        const int want[7] = { -128, -64, -32, 0, 32, 64, 127 };
        const int got[7] = { static_cast<int>(pool_t::priority::lowest), static_cast<int>(pool_t::priority::lower), static_cast<int>(pool_t::priority::low), static_cast<int>(pool_t::priority::normal),
            static_cast<int>(pool_t::priority::high), static_cast<int>(pool_t::priority::higher), static_cast<int>(pool_t::priority::highest) };
        for (int i = 0; i < 7; ++i) if (want[i] != got[i]) hc::violation("priority-constants", "named priority " + std::to_string(i) + " has value " + std::to_string(got[i]));
    }
    for (long i = first; i < first + n * stride; i += stride)
    {
        const std::uint64_t s = seed * 1000003ULL + static_cast<std::uint64_t>(i);
        hc::rng r(s);
        const char c = mix[static_cast<std::size_t>(i) % mix.size()];
        hc::on_step(("seed=" + std::to_string(seed) + " first=" + std::to_string(i) + " n=1 mix=" + mix).c_str());
        hc::count("iterations"); hc::count(std::string("iterations_") + c);
        big = i % 211 == 210; room = 301;
        ds_limits(big ? 400000 : 30000, big ? 4000000 : 400000);
        if (big) hc::count("large_programs");
        switch (c)
        {
            case 'g': general(r, s, 0); break;
            case 'p': priority(r, s); break;
            case 'y': sync_runs(r, s); break;
            case 's': scheduling(r, s); break;
            case 'w': waiting(r, s); break;
            case 'r': resizing(r, s); break;
            case 'd': destruction(r, s); break;
            case 'z': sizes(r, s); break;
            case 'n': snapshots(r, s); break;
            case 'e': reentrant(r, s); break;
        }
        if (hc::violations() > 20) break;
    }
    return hc::finish();
}
