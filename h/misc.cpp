// Helpers harness. PART 1: ranges, scope guards, numeric helpers. 2: stopwatch (CLOCK chooses the clock). 4: platform helpers.
#include "hc.hpp"
#include <chrono>
#include <cstddef>
#include <ctime>
#if PART & 2
#if CLOCK
#if CLOCK == 1
typedef std::nano tick;
#elif CLOCK == 2
typedef std::milli tick;
#else
typedef std::ratio<7, 300> tick;
#endif
struct test_clock
{
    typedef long long rep; typedef tick period; typedef std::chrono::duration<rep, period> duration; typedef std::chrono::time_point<test_clock> time_point;
    static constexpr bool is_steady = false;
    static inline long long at = 0, reads = 0;
    static time_point now() { ++reads; return time_point{ duration{ at } }; }
};
#define PLUTO_STOPWATCH_CLOCK_TYPE test_clock
#endif
#include "pluto/stopwatch.hpp"
#endif
#if PART & 1
#include "pluto/range.hpp"
#include "pluto/scope.hpp"
#include "pluto/value.hpp"
#endif
#if PART & 4
#include "pluto/platform.hpp"
#include <sys/syscall.h>
#include <sys/wait.h>
#endif
#include <any>
#include <atomic>
#include <cmath>
#include <climits>
#include <functional>
#include <limits>
#include <list>
#include <memory>
#include <stdexcept>
#include <thread>
#include <type_traits>

namespace
{
    std::string num(long long v) { return std::to_string(v); }
    std::string ctx;
    void bad(const char* kind, const std::string& what) { hc::violation(kind, what + " for " + ctx); }
    void expect(const char* kind, const char* what, bool ok) { hc::count("comparisons"); if (!ok) bad(kind, std::string(what) + " is wrong"); }

#if PART & 1
    // ---- ranges ------------------------------------------------------------------------------------------
    template<class T> void pair_of_ranges(const T& ab, const T& ae, const T& bb, const T& be, const std::string& what)
    {
        const char* k = "range"; ctx = what;
        const pluto::range<T> a{ ab, ae }, b{ bb, be };
        const bool eq = ab == bb && ae == be, lt = ab < bb || (ab == bb && ae < be), gt = bb < ab || (ab == bb && be < ae);
        expect(k, "begin or end", a.begin == ab && a.end == ae);
        expect(k, "is_equal", a.is_equal(b) == eq); expect(k, "==", (a == b) == eq); expect(k, "!=", (a != b) == !eq);
        expect(k, "is_less", a.is_less(b) == lt); expect(k, "<", (a < b) == lt); expect(k, ">", (a > b) == gt); expect(k, "<=", (a <= b) == !gt); expect(k, ">=", (a >= b) == !lt);
        const bool over = ab == bb || (ab < be && bb < ae);
        expect(k, "is_overlapping", a.is_overlapping(b) == over); expect(k, "is_overlapping the other way round", b.is_overlapping(a) == over);
        expect(k, "is_overlapping with itself", a.is_overlapping(a) && b.is_overlapping(b));
        expect(k, "is_less_no_overlap", a.is_less_no_overlap(b) == (!(ab == bb) && !(bb < ae)));
        if (!(ae < ab) && !(be < bb)) expect(k, "exactly one of before, after, overlapping", (a.is_less_no_overlap(b) ? 1 : 0) + (b.is_less_no_overlap(a) ? 1 : 0) + (a.is_overlapping(b) ? 1 : 0) == 1);
        pluto::range<T> c{ a }; expect(k, "a copy", c == a); c = b; expect(k, "an assigned copy", c == b && c.begin == bb && c.end == be);
    }
    void small_ranges()
    {   // every pair of ranges over seven points, also in terms of the points they contain
        for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) for (int c = -3; c <= 3; ++c) for (int d = -3; d <= 3; ++d)
        {
            const std::string w = "[" + num(a) + "," + num(b) + ") and [" + num(c) + "," + num(d) + ")";
            pair_of_ranges<int>(a, b, c, d, w);
            expect("range", "size", pluto::int_range(a, b).size() == b - a);
            if (a < b && c < d)
            {
                bool share = false; for (int p = -3; p < 3; ++p) if (a <= p && p < b && c <= p && p < d) share = true;
                expect("range", "overlap of the points", pluto::int_range(a, b).is_overlapping(pluto::int_range(c, d)) == share);
                bool before = true; for (int p = a; p < b; ++p) for (int q = c; q < d; ++q) if (q <= p) before = false;
                expect("range", "before, by the points", pluto::int_range(a, b).is_less_no_overlap(pluto::int_range(c, d)) == before);
            }
            hc::distinct(static_cast<std::uint64_t>(((a * 7 + b) * 7 + c) * 7 + d + 100000));
        }
    }
    template<class T> void typed_ranges(hc::rng& r, const char* name)
    {
        typedef std::numeric_limits<T> L;
        auto value = [&]() -> T { switch (r.in(0, 5)) { case 0: return L::lowest(); case 1: return L::max(); case 2: return static_cast<T>(L::max() - 1); case 3: return static_cast<T>(r() >> r.in(0, 63)); default: return static_cast<T>(r.in(0, 4)); } };
        const T a = value(), b = r.chance(70) ? value() : a, c = r.chance(50) ? value() : a, d = r.chance(50) ? value() : b;
        pair_of_ranges<T>(a, b, c, d, std::string(name) + " [" + std::to_string(a) + "," + std::to_string(b) + ") and [" + std::to_string(c) + "," + std::to_string(d) + ")");
        const T lo = static_cast<T>(r.in(0, 100)), hi = static_cast<T>(lo + static_cast<T>(r.in(0, 100)));
        expect("range", "size", pluto::range<T>(lo, hi).size() == static_cast<T>(hi - lo));
        hc::distinct(r());
    }
    void ranges(hc::rng& r)
    {
        typed_ranges<int>(r, "int"); typed_ranges<unsigned>(r, "unsigned"); typed_ranges<long>(r, "long"); typed_ranges<unsigned long>(r, "unsigned long"); typed_ranges<long long>(r, "long long"); typed_ranges<unsigned long long>(r, "unsigned long long");
        typed_ranges<short>(r, "short"); typed_ranges<unsigned char>(r, "unsigned char"); typed_ranges<double>(r, "double"); typed_ranges<float>(r, "float");
        static char cell[16]; auto p = [&]() { return static_cast<void*>(cell + r.in(0, 15)); };
        pair_of_ranges<void*>(p(), p(), p(), p(), "pointers");
        { const pluto::pvoid_range q(cell + 2, cell + 9); expect("range", "begin or end of pvoid_range", q.begin == cell + 2 && q.end == cell + 9); }
        { const pluto::range<const char*> q(cell + r.in(0, 3), cell + r.in(4, 15)); expect("range", "size of a pointer range", q.size() == q.end - q.begin); }
        auto s = [&]() { std::string t; for (long n = r.in(0, 2); n > 0; --n) t += static_cast<char>('a' + r.in(0, 2)); return t; };
        pair_of_ranges<std::string>(s(), s(), s(), s(), "strings");
        static_assert(std::is_same<pluto::int_range, pluto::range<int>>::value && std::is_same<pluto::uint_range, pluto::range<unsigned>>::value && std::is_same<pluto::long_range, pluto::range<long>>::value && std::is_same<pluto::ulong_range, pluto::range<unsigned long>>::value
            && std::is_same<pluto::long_long_range, pluto::range<long long>>::value && std::is_same<pluto::ulong_long_range, pluto::range<unsigned long long>>::value && std::is_same<pluto::pvoid_range, pluto::range<void*>>::value, "aliases");
        hc::sample("ranges over ten arithmetic types, pointers and strings with extreme and equal ends");
    }

    // ---- scope guards ---------------------------------------------------------------------------------------
    struct scope_plan;
    struct task_plan { int id; bool empty = false, throws = false; std::shared_ptr<task_plan> adds; std::shared_ptr<scope_plan> runs; };
    enum step_kind { guard_exit, guard_success, guard_fail, add_task, nested, tried, in_destructor, throwing, in_handler };
    struct step_plan { step_kind kind; std::size_t guard = 0; std::shared_ptr<task_plan> task; std::shared_ptr<scope_plan> scope, handler; bool from_constructor = false; };
    struct scope_plan { int id; std::vector<step_plan> steps; };

    struct planner
    {
        hc::rng& r; int next = 0, budget; bool large = false;
        std::shared_ptr<task_plan> task(int depth)
        {
            auto t = std::make_shared<task_plan>(); t->id = ++next;
            t->empty = r.chance(7); t->throws = r.chance(25);
            if (depth > 0 && r.chance(25)) t->adds = task(depth - 1);
            if (depth > 0 && r.chance(20)) t->runs = scope(depth - 1);
            return t;
        }
        std::shared_ptr<scope_plan> scope(int depth)
        {
            auto s = std::make_shared<scope_plan>(); s->id = ++next;
            std::size_t guards = 0;
            const bool wide = large; large = false;     // one scope with hundreds of tasks
            for (long n = wide ? r.in(100, 600) : r.in(1, 5); n > 0 && (wide || --budget > 0); --n)
            {
                step_plan p{};
                const long k = wide && n > 1 && r.chance(99) ? r.in(r.chance(90) ? 40 : 0, 64) : r.in(0, 99);
                if (k < 40 || guards == 0) { p.kind = static_cast<step_kind>(r.in(0, 2)); p.from_constructor = r.chance(60); if (p.from_constructor) p.task = task(depth); ++guards; }
                else if (k < 65) { p.kind = add_task; p.guard = r() % guards; p.task = task(depth); }
                else if (k < 75) p.kind = throwing;
                else if (depth > 0) { p.kind = r.chance(25) ? nested : r.chance(33) ? tried : r.chance(50) ? in_destructor : in_handler; p.scope = scope(depth - 1); if (p.kind == in_handler) p.handler = scope(depth - 1); }
                else p.kind = throwing;
                s->steps.push_back(p);
                if (p.kind == throwing) break;
            }
            return s;
        }
    };
    std::string plan_text(const scope_plan& s, int depth = 0);
    std::string plan_text(const task_plan& t, int depth)
    {
        std::string o = "t" + num(t.id); if (t.empty) return o + "(empty)";
        if (t.adds) o += "(adds " + plan_text(*t.adds, depth) + ")";
        if (t.runs) o += "(runs " + plan_text(*t.runs, depth) + ")";
        if (t.throws) o += "!";
        return o;
    }
    std::string plan_text(const scope_plan& s, int depth)
    {
        static const char* const name[] = { "exit", "success", "fail", "add", "nest", "try", "~", "throw", "catch" };
        std::string o = "{";
        for (auto& p : s.steps) { o += std::string(" ") + name[p.kind]; if (p.kind == add_task) o += " g" + num(static_cast<long>(p.guard)); if (p.task) o += " " + plan_text(*p.task, depth); if (p.scope) o += plan_text(*p.scope, depth + 1); if (p.handler) o += " handler" + plan_text(*p.handler, depth + 1); o += ";"; }
        return o + " }";
    }
    typedef std::vector<std::string> events;
    std::vector<std::weak_ptr<int>> tokens;
    struct run_real
    {
        events log;
        typedef std::vector<std::function<void(const std::function<void()>&)>> adders;
        std::function<void()> make(const task_plan& t, const std::function<void(const std::function<void()>&)>& add)
        {
            if (t.empty) return {};
            auto token = std::make_shared<int>(t.id); tokens.push_back(token);
            return [this, &t, add, token]
            {
                log.push_back("task " + num(t.id));
                if (log.size() > 20000) { bad("scope", "tasks are run without end"); hc::finish(); ::_exit(10); }
                if (t.adds) add(make(*t.adds, add));
                if (t.runs) scope(*t.runs);
                if (*token != t.id) log.push_back("captured state of task " + num(t.id) + " is gone");
                log.push_back("end " + num(*token));
                if (t.throws) { if (t.id % 2) throw std::runtime_error("task"); throw t.id; }
            };
        }
        struct runner { run_real& r; const scope_plan& s; ~runner() { try { r.scope(s); } catch (int) { r.log.push_back("destructor caught"); } catch (const std::exception&) { r.log.push_back("destructor caught"); } } };
        template<class G> void guarded(const scope_plan& s, std::size_t i, adders& gs)
        {
            const step_plan& p = s.steps[i];
            std::function<void(const std::function<void()>&)> add; G* self = nullptr;
            auto adder = [&self](const std::function<void()>& f) { self->add(f); };
            if (p.from_constructor) { G g{ make(*p.task, adder) }; self = &g; gs.push_back(adder); steps(s, i + 1, gs); }
            else { G g; self = &g; gs.push_back(adder); steps(s, i + 1, gs); }
        }
        void steps(const scope_plan& s, std::size_t i, adders& gs)
        {
            if (i == s.steps.size()) return;
            const step_plan& p = s.steps[i];
            switch (p.kind)
            {
                case guard_exit: guarded<pluto::on_scope_exit>(s, i, gs); return;
                case guard_success: guarded<pluto::on_scope_success>(s, i, gs); return;
                case guard_fail: guarded<pluto::on_scope_fail>(s, i, gs); return;
                case add_task: gs[p.guard](make(*p.task, gs[p.guard])); break;
                case nested: scope(*p.scope); break;
                case tried: try { scope(*p.scope); } catch (...) { log.push_back("caught"); } break;
                case in_handler: try { scope(*p.scope); } catch (...) { log.push_back("handling"); scope(*p.handler); log.push_back("handled"); } break;
                case in_destructor: { runner r{ *this, *p.scope }; steps(s, i + 1, gs); return; }
                case throwing: log.push_back("throw"); if (s.id % 2) throw s.id; throw std::runtime_error("scope");
            }
            steps(s, i + 1, gs);
        }
        void scope(const scope_plan& s) { adders gs; log.push_back("enter " + num(s.id)); steps(s, 0, gs); log.push_back("leave " + num(s.id)); }
    };
    struct run_model
    {
        events log;
        int unwinding = 0; bool ambiguous = false;      // before C++17 a program cannot tell whose exception is in flight
        struct guard { step_kind kind; std::vector<const task_plan*> tasks; };
        bool task(const task_plan& t, guard& g)
        {
            log.push_back("task " + num(t.id));
            if (t.adds) g.tasks.push_back(t.adds.get());
            if (t.runs && scope(*t.runs)) return true;
            log.push_back("end " + num(t.id));
            return t.throws;
        }
        bool steps(const scope_plan& s, std::size_t i, std::vector<guard*>& gs)     // -> left by an exception
        {
            if (i == s.steps.size()) return false;
            const step_plan& p = s.steps[i];
            if (p.kind <= guard_fail)
            {
                guard g{ p.kind, {} }; if (p.from_constructor) g.tasks.push_back(p.task.get());
                gs.push_back(&g);
                const bool threw = steps(s, i + 1, gs);
                if (g.kind != guard_exit && !threw && unwinding) ambiguous = true;
                unwinding += threw;
                if (g.kind == guard_exit || (g.kind == guard_fail) == threw)
                    while (!g.tasks.empty()) { const task_plan* t = g.tasks.back(); g.tasks.pop_back(); if (!t->empty) task(*t, g); }
                unwinding -= threw;
                return threw;
            }
            if (p.kind == in_destructor) { const bool threw = steps(s, i + 1, gs); unwinding += threw; if (scope(*p.scope)) log.push_back("destructor caught"); unwinding -= threw; return threw; }
            if (p.kind == throwing) { log.push_back("throw"); return true; }
            if (p.kind == add_task) gs[p.guard]->tasks.push_back(p.task.get());
            if (p.kind == nested && scope(*p.scope)) return true;
            if (p.kind == tried && scope(*p.scope)) log.push_back("caught");
            if (p.kind == in_handler && scope(*p.scope)) { log.push_back("handling"); if (scope(*p.handler)) return true; log.push_back("handled"); }
            return steps(s, i + 1, gs);
        }
        bool scope(const scope_plan& s) { std::vector<guard*> gs; log.push_back("enter " + num(s.id)); if (steps(s, 0, gs)) return true; log.push_back("leave " + num(s.id)); return false; }
    };
    template<class T> constexpr bool duplicable() { return std::is_copy_constructible<T>::value || std::is_copy_assignable<T>::value; }
    void scopes(hc::rng& r)
    {
        planner p{ r, 0, 45, r() % 300 == 0 };
        if (p.large) hc::count("large_programs");
        const auto plan = p.scope(static_cast<int>(r.in(1, 4)));
        ctx = "the program " + plan_text(*plan).substr(0, 900);
        tokens.clear();
        run_model m; if (m.scope(*plan)) m.log.push_back("caught at the top");
        if (__cplusplus < 201703L && m.ambiguous) { hc::count("skipped"); return; }
        run_real q; try { q.scope(*plan); } catch (...) { q.log.push_back("caught at the top"); }
        hc::count("comparisons"); hc::count("guard_events", static_cast<long>(m.log.size()));
        if (q.log != m.log)
        {
            std::size_t i = 0; while (i < q.log.size() && i < m.log.size() && q.log[i] == m.log[i]) ++i;
            bad("scope", "event " + num(static_cast<long>(i)) + " is \"" + (i < q.log.size() ? q.log[i] : "nothing") + "\" instead of \"" + (i < m.log.size() ? m.log[i] : "nothing") + "\"");
        }
        for (auto& t : tokens) if (!t.expired()) { bad("scope", "a task was not destroyed with its guard"); break; }
        std::uint64_t h = 3; for (auto& e : m.log) h = hc::mix(h, hc::hash(e)); hc::distinct(h);
        if (m.log.size() > 12) hc::sample("scopes " + plan_text(*plan).substr(0, 300));
if (duplicable<pluto::on_scope_exit>() || duplicable<pluto::on_scope_success>() || duplicable<pluto::on_scope_fail>()) bad("scope", "a guard can be copied, so that each of its tasks runs twice");
    }

    // ---- numeric helpers --------------------------------------------------------------------------------------
    template<class T> bool eqv(T a, T b) { return a == b || (a != a && b != b); }
    template<class T> T draw(hc::rng& r)
    {
        typedef std::numeric_limits<T> L;
        if constexpr (std::is_floating_point<T>::value)
            switch (r.in(0, 8)) { case 0: return L::infinity(); case 1: return -L::infinity(); case 2: return L::quiet_NaN(); case 3: return static_cast<T>(-0.0); case 4: return L::max(); case 5: return L::denorm_min(); case 6: return static_cast<T>(r.in(-20, 20)) / 2; default: return std::ldexp(static_cast<T>(static_cast<std::int64_t>(r())), static_cast<int>(r.in(-90, 20))); }
        else switch (r.in(0, 4)) { case 0: return L::max(); case 1: return static_cast<T>(L::min() + 1); case 2: return static_cast<T>(r() >> r.in(0, 63)); default: return static_cast<T>(r.in(std::is_signed<T>::value ? -5 : 0, 5)); }
    }
    template<class T> void values(hc::rng& r, const char* name)
    {
        const char* k = "value-helper";
        const T a = draw<T>(r), b = r.chance(25) ? a : draw<T>(r);
        ctx = std::string(name) + " " + std::to_string(a) + " and " + std::to_string(b);
        if constexpr (std::is_signed<T>::value || std::is_floating_point<T>::value)
            if (!(std::is_integral<T>::value && a == std::numeric_limits<T>::min())) { const T w = a < 0 ? static_cast<T>(-a) : a; expect(k, "abs", eqv<T>(pluto::abs(a), w)); expect(k, "type of abs", std::is_same<decltype(pluto::abs(a)), T>::value); }
        expect(k, "copy", eqv<T>(pluto::copy(a), a));
        const T& mn = (pluto::min)(a, b); const T& mx = (pluto::max)(a, b);
        expect(k, "min", &mn == (b < a ? &b : &a)); expect(k, "max", &mx == (a < b ? &b : &a));
        expect(k, "min with less", &(pluto::min)(a, b, std::less<>{}) == (b < a ? &b : &a)); expect(k, "max with less", &(pluto::max)(a, b, std::less<>{}) == (a < b ? &b : &a));
        expect(k, "min with greater", &(pluto::min)(a, b, std::greater<>{}) == (b > a ? &b : &a)); expect(k, "max with greater", &(pluto::max)(a, b, std::greater<>{}) == (a > b ? &b : &a));
        auto never = [](const T&, const T&) { return false; };
        expect(k, "min of all-equal values", &(pluto::min)(a, b, never) == &a); expect(k, "max of all-equal values", &(pluto::max)(a, b, never) == &a);
        if constexpr (std::is_floating_point<T>::value)
        {
            expect(k, "pow", eqv<T>(pluto::pow(a, b), std::pow(a, b))); expect(k, "type of pow", std::is_same<decltype(pluto::pow(a, b)), T>::value);
            expect(k, "round", eqv<T>(pluto::round(a), std::round(a)) && std::signbit(pluto::round(a)) == std::signbit(std::round(a))); expect(k, "type of round", std::is_same<decltype(pluto::round(a)), T>::value);
        }
        else
        {
            const double x = static_cast<double>(a), y = static_cast<double>(b);
            expect(k, "pow", eqv<double>(pluto::pow(a, b), std::pow(x, y))); expect(k, "type of pow", std::is_same<decltype(pluto::pow(a, b)), double>::value);
            expect(k, "round", eqv<double>(static_cast<double>(pluto::round(a)), std::round(x)));
        }
        hc::distinct(r());
    }
    struct item { int rank, id; bool operator<(const item& o) const { return rank < o.rank; } };
    struct counted { static inline long copies = 0; int v; explicit counted(int q) : v{ q } {} counted(const counted& o) : v{ o.v } { ++copies; } };
    void numbers(hc::rng& r)
    {
        values<signed char>(r, "signed char"); values<short>(r, "short"); values<int>(r, "int"); values<long>(r, "long"); values<long long>(r, "long long");
        values<unsigned char>(r, "unsigned char"); values<unsigned>(r, "unsigned"); values<unsigned long>(r, "unsigned long"); values<float>(r, "float"); values<double>(r, "double"); values<long double>(r, "long double");
        const char* k = "value-helper"; ctx = "objects";
        const item a{ static_cast<int>(r.in(0, 2)), 1 }, b{ static_cast<int>(r.in(0, 2)), 2 };
        expect(k, "min of objects", (pluto::min)(a, b).id == (b.rank < a.rank ? 2 : 1)); expect(k, "max of objects", (pluto::max)(a, b).id == (a.rank < b.rank ? 2 : 1));
        auto by_id = [](const item& x, const item& y) { return x.id < y.id; };
        expect(k, "min of objects by a predicate", &(pluto::min)(a, b, by_id) == &a && &(pluto::min)(b, a, by_id) == &a); expect(k, "max of objects by a predicate", &(pluto::max)(a, b, by_id) == &b && &(pluto::max)(b, a, by_id) == &b);
        std::vector<int> v; for (long n = r.in(0, 5); n > 0; --n) v.push_back(static_cast<int>(r()));
        ctx = "containers";
        expect(k, "copy of a vector", pluto::copy(v) == v); expect(k, "copy of a string", pluto::copy(std::string("a\0b", 3)) == std::string("a\0b", 3));
#if __cplusplus >= 201703L
        std::vector<std::any> w; for (int x : v) w.emplace_back(x);
        const auto w2 = pluto::copy(w); bool same = w2.size() == w.size(); for (std::size_t i = 0; same && i < w.size(); ++i) same = std::any_cast<int>(&w2[i]) && std::any_cast<int>(w2[i]) == v[i];
        expect(k, "copy of a vector of std::any", same);
#endif
        counted::copies = 0; const counted c{ 7 }; expect(k, "copy of a counted object", pluto::copy(c).v == 7 && counted::copies == 1);
        const auto sp = std::make_shared<int>(3); expect(k, "copy of a shared_ptr", pluto::copy(sp) == sp);
        hc::sample("two values of each of eleven arithmetic types, ties included, objects and containers");
    }
#endif

#if PART & 2
    // ---- stopwatch ----------------------------------------------------------------------------------------------
    typedef pluto::stopwatch::clock_type clk;
    static_assert(std::is_same<decltype(std::declval<const pluto::stopwatch&>().time()), clk::duration>::value, "time() has the clock's precision");
#if CLOCK
    void jump(long long d) { clk::at += d; }
    struct model { long long acc = 0, start = 0; bool on = false; long long total() const { return acc + (on ? clk::at - start : 0); } };
    template<class D> long long whole(long long ticks) { const __int128 n = static_cast<__int128>(ticks) * clk::period::num * D::period::den, d = static_cast<__int128>(clk::period::den) * D::period::num; return static_cast<long long>(n / d); }
    void check(const pluto::stopwatch& s, const model& m)
    {
        const char* k = "stopwatch"; using namespace std::chrono;
        const long long t = m.total();
        auto at = [&](const char* w, long long got, long long want) { hc::count("comparisons"); if (got != want) bad(k, std::string(w) + " gives " + num(got) + " instead of " + num(want) + " (clock ticks " + num(t) + ")"); };
        at("is_running", s.is_running(), m.on); at("time", s.time().count(), t);
        at("in_nanoseconds", s.in_nanoseconds(), whole<nanoseconds>(t)); at("in_microseconds", s.in_microseconds(), whole<microseconds>(t)); at("in_milliseconds", s.in_milliseconds(), whole<milliseconds>(t));
        at("in_seconds", s.in_seconds(), whole<seconds>(t)); at("in_minutes", s.in_minutes(), whole<minutes>(t)); at("in_hours", s.in_hours(), whole<hours>(t));
        at("count", s.count<milliseconds>(), whole<milliseconds>(t)); at("count of days", s.count<duration<long long, std::ratio<86400>>>(), whole<duration<long long, std::ratio<86400>>>(t));
        if (t >= 0)
        {
            at("nanoseconds_part", s.nanoseconds_part(), whole<nanoseconds>(t) % 1000); at("microseconds_part", s.microseconds_part(), whole<microseconds>(t) % 1000); at("milliseconds_part", s.milliseconds_part(), whole<milliseconds>(t) % 1000);
            at("seconds_part", s.seconds_part(), whole<seconds>(t) % 60); at("minutes_part", s.minutes_part(), whole<minutes>(t) % 60); at("hours_part", s.hours_part(), whole<hours>(t));
            at("count with a rollover", s.count<seconds>(7), whole<seconds>(t) % 7);
        }
    }
    void watch(hc::rng& r)
    {
        static const long long unit[] = { 1, 999, 1000, 1001, 999999, 1000000, 59999999999LL, 60000000000LL, 3599999999999LL, 3600000000000LL, 86400000000000LL };
        clk::at = r.chance(50) ? 0 : r.in(-1000000, 1000000000);
        const bool now = r.chance(50), back = r.chance(10);
        std::vector<pluto::stopwatch> s; std::vector<model> m(1);
        if (now) { s.emplace_back(true); m[0].on = true; m[0].start = clk::at; } else if (r.chance(50)) s.emplace_back(false); else s.emplace_back();
        std::string h = now ? "started " : "stopped ";
        std::uint64_t fp = now;
        const long long scale = CLOCK == 1 ? 1 : 1000000;
        auto step = [&](long long d) { jump(d); h += "+" + num(d) + " "; fp = hc::mix(fp, static_cast<std::uint64_t>(d)); };
        for (long n = r() % 200 == 0 ? r.in(100, 700) : r.in(2, 25); n > 0; --n)
        {
            const std::size_t i = r() % s.size(); auto& w = s[i]; auto& q = m[i];
            if (r.chance(75)) { long long d = unit[r() % 11] / scale * r.in(0, 3) + r.in(0, 3); if (r.chance(10)) d = 3155760000000000LL / scale; if (back && r.chance(30)) d = -d; step(d); }
            const long op = r.in(0, 8); fp = hc::mix(fp, static_cast<std::uint64_t>(op * 8 + static_cast<long>(i)));
            ctx = h;
            switch (op)
            {
                case 0: case 1: h += "start "; w.start(); if (!q.on) { q.on = true; q.start = clk::at; } break;
                case 2: case 3: h += "stop "; w.stop(); if (q.on) { q.acc += clk::at - q.start; q.on = false; } break;
                case 4: h += "stop_and_time "; { const auto t = w.stop_and_time(); if (q.on) { q.acc += clk::at - q.start; q.on = false; } hc::count("comparisons"); if (t.count() != q.acc) bad("stopwatch", "stop_and_time gives " + num(t.count()) + " instead of " + num(q.acc)); } break;
                case 5: if (r.chance(50)) { h += "reset "; w.reset(); q = model{}; } break;
                case 6: if (r.chance(50)) { h += "restart "; w.restart(); q = model{}; q.on = true; q.start = clk::at; } break;
                case 7: if (s.size() < 4) { h += "copy "; s.push_back(pluto::stopwatch(s[i])); m.push_back(model(m[i])); } break;
                default: { const std::size_t j = r() % s.size(); h += "assign "; s[j] = s[i]; m[j] = m[i]; } break;
            }
            ctx = h;
            for (std::size_t j = 0; j < s.size(); ++j) check(s[j], m[j]);
            if (r.chance(30)) { step(r.in(1, 5)); ctx = h; for (std::size_t j = 0; j < s.size(); ++j) check(s[j], m[j]); }
        }
        hc::distinct(fp); if (h.size() > 60) hc::sample(h.substr(0, 200));
    }
#else
    void watch(hc::rng& r)
    {   // the default clock really runs: the reading lies between what brackets it
        static_assert(std::is_same<clk, std::chrono::steady_clock>::value, "default clock");
        clk::duration lo{}, hi{}; clk::time_point in{}, out{}; bool on = false; pluto::stopwatch s; ctx = "the steady clock";
        auto burn = [&] { std::atomic<long> k{ r.in(0, 3000) }; while (k > 0) --k; };
        for (int n = 0; n < 30; ++n)
        {
            burn();
            const long op = r.chance(10) ? 2 : r.chance(5) ? 3 : r.in(0, 1);
            const auto a = clk::now();
            if (op == 0) s.start(); else if (op == 1) s.stop(); else if (op == 2) s.restart(); else s.reset();
            const auto b = clk::now();
            if (op >= 2) { lo = hi = {}; on = false; }
            if ((op == 0 && !on) || op == 2) { out = a; in = b; on = true; }
            else if (op == 1 && on) { lo += a - in; hi += b - out; on = false; }
            burn();
            const auto c = clk::now(); const auto t = s.time(); const auto d = clk::now();
            expect("stopwatch", "is_running", s.is_running() == on);
            expect("stopwatch", "time (at least)", t >= lo + (on ? c - in : clk::duration{}));
            expect("stopwatch", "time (at most)", t <= hi + (on ? d - out : clk::duration{}));
        }
        hc::distinct(r()); hc::sample("thirty operations on a stopwatch with the default clock, bracketed by clock readings");
    }
#endif
#endif

#if PART & 4
    // ---- platform -------------------------------------------------------------------------------------------------
    const char* d_file_name(const char* p) { const char* e = p + std::strlen(p); while (e > p && e[-1] != '/' && e[-1] != '\\') --e; return e; }
    void names(hc::rng& r)
    {
        static const std::string abc[] = { "/", "\\", "a", "b.cpp", ".", "..", " ", ":", "\xC3\xA9", "\xff", "dir", "\x5c\x5c", "//", "C:" };
        std::string s; for (long n = r.chance(90) ? r.in(0, 8) : r.in(20, 200); n > 0; --n) s += abc[r() % 14];
        if (r() % 300 == 0) { std::string deep; const long n = r.in(1, 8) == 1 ? r.in(60000, 300000) : r.in(200, 20000); while (static_cast<long>(deep.size()) < n) deep += r.chance(50) ? std::string(static_cast<std::size_t>(r.in(1, 300)), 'n') : abc[r() % 14]; s = deep + s; hc::count("long_paths"); }
        std::unique_ptr<char[]> p(new char[s.size() + 1]); std::memcpy(p.get(), s.c_str(), s.size() + 1);
        ctx = "path " + (s.size() > 300 ? s.substr(0, 100) + " .. " + s.substr(s.size() - 150) : s);
        const char* got = pluto::file_name(p.get()); const char* want = d_file_name(p.get());
        hc::count("comparisons");
        if (got != want) bad("platform", "file_name gives offset " + num(got - p.get()) + " instead of " + num(want - p.get()));
        hc::distinct(hc::hash(s)); if (s.size() > 12 && s.size() < 300) hc::sample("file name of " + s);
    }
    bool same_tm(const std::tm& a, const std::tm& b) { return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year && a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday && a.tm_isdst == b.tm_isdst; }
    std::string tm_text(const std::tm& t) { char b[128]; std::snprintf(b, sizeof b, "%d-%d-%d %d:%d:%d wday %d yday %d dst %d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday, t.tm_isdst); return b; }
    // the calendar, by definition (proleptic Gregorian, no leap seconds)
    std::tm civil(long long t)
    {
        std::tm o{}; long long days = t / 86400, sec = t % 86400; if (sec < 0) { sec += 86400; --days; }
        o.tm_hour = static_cast<int>(sec / 3600); o.tm_min = static_cast<int>(sec / 60 % 60); o.tm_sec = static_cast<int>(sec % 60);
        o.tm_wday = static_cast<int>(((days % 7) + 11) % 7);
        long long era = days / 146097, d = days % 146097; if (d < 0) { d += 146097; --era; }
        long long y = 1970 + era * 400;
        auto leap = [](long long q) { return q % 4 == 0 && (q % 100 != 0 || q % 400 == 0); };
        while (d >= (leap(y) ? 366 : 365)) { d -= leap(y) ? 366 : 365; ++y; }
        o.tm_yday = static_cast<int>(d); static const int len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
        int m = 0; while (d >= len[m] + (m == 1 && leap(y) ? 1 : 0)) { d -= len[m] + (m == 1 && leap(y) ? 1 : 0); ++m; }
        o.tm_mon = m; o.tm_mday = static_cast<int>(d) + 1; o.tm_year = static_cast<int>(y - 1900);
        return o;
    }
    std::time_t draw_time(hc::rng& r)
    {
        switch (r.in(0, 6)) { case 0: return r.in(-10, 10); case 1: return r.in(-2208988800L, 4102444800L); case 2: return r.in(-60000000000L, 250000000000L); case 3: return 2147483647L + r.in(-2, 2); case 4: return r.in(0, 60) * 31556952L + r.in(-90000, 90000); case 5: return 951782400L + r.in(-100000, 100000); default: return 1700000000L + r.in(-40000000, 40000000); }
    }
    const char* const zones[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "XXX-5:45", "YYY11", "AEST-10AEDT,M10.1.0,M4.1.0/3" };
    void zone(long i) { ::setenv("TZ", zones[i % 6], 1); ::tzset(); ctx = std::string("zone ") + zones[i % 6]; }
    void times(hc::rng& r)
    {
        const std::string z = ctx;
        std::time_t last = 0;
        for (int k = 0; k < 40; ++k)
        {
            // (now and then close to the previous one)
            const std::time_t t = k && r.chance(40) ? last + (r.chance(50) ? r.in(-90, 90) : r.in(-8000, 8000)) : draw_time(r); last = t; std::tm want{}; ctx = z + " time " + num(t);
            std::tm g = pluto::gm_time(t); hc::count("comparisons", 2);
            if (!same_tm(g, civil(t))) bad("platform", "gm_time gives " + tm_text(g) + " instead of " + tm_text(civil(t)));
            ::localtime_r(&t, &want); std::tm l = pluto::local_time(t);
            if (!same_tm(l, want) || l.tm_gmtoff != want.tm_gmtoff) bad("platform", "local_time gives " + tm_text(l) + " instead of " + tm_text(want));
            hc::distinct(static_cast<std::uint64_t>(t));
        }
        ctx = z;
    }
    void threads(hc::rng& r)
    {
        const int n = static_cast<int>(r.in(2, 6)); ctx = num(n) + " threads";
        std::atomic<int> ready{ 0 }; std::atomic<bool> go{ false }; std::vector<std::size_t> ids(static_cast<std::size_t>(n)); std::vector<int> pids(static_cast<std::size_t>(n)); std::vector<std::string> wrong(static_cast<std::size_t>(n)); std::vector<std::thread> ts;
        const std::uint64_t base = r();
        for (int i = 0; i < n; ++i) ts.emplace_back([&, i]
        {
            hc::rng q(base + static_cast<std::uint64_t>(i)); auto& w = wrong[static_cast<std::size_t>(i)];
            ids[static_cast<std::size_t>(i)] = pluto::thread_id(); pids[static_cast<std::size_t>(i)] = pluto::process_id();
            if (pluto::thread_id() != static_cast<std::size_t>(::syscall(SYS_gettid))) w = "thread_id is not the operating system's";
            ++ready; while (!go) std::this_thread::yield();
            for (int k = 0; k < 60 && w.empty(); ++k)
            {
                const std::time_t t = draw_time(q); std::tm e{}; ::localtime_r(&t, &e);
                if (!same_tm(pluto::local_time(t), e)) w = "local_time is wrong while other threads use it, time " + num(t);
                if (!same_tm(pluto::gm_time(t), civil(t))) w = "gm_time is wrong while other threads use it, time " + num(t);
                if (pluto::thread_id() != ids[static_cast<std::size_t>(i)]) w = "thread_id changed within a thread";
            }
        });
        while (ready < n) std::this_thread::yield();
        go = true; for (auto& t : ts) t.join();
        std::set<std::size_t> s(ids.begin(), ids.end()); s.insert(pluto::thread_id());
        hc::count("comparisons", n * 60); hc::count("threads", n);
        if (s.size() != static_cast<std::size_t>(n) + 1) bad("platform", "two live threads have the same thread_id");
        for (int p : pids) if (p != ::getpid()) bad("platform", "process_id is wrong in a thread");
        for (auto& w : wrong) if (!w.empty()) bad("platform", w);
    }
    void processes(hc::rng&)
    {
        ctx = "a forked process";
        if (pluto::process_id() != static_cast<int>(::getpid())) bad("platform", "process_id is not the operating system's");
        if (pluto::thread_id() != static_cast<std::size_t>(::syscall(SYS_gettid))) bad("platform", "thread_id is not the operating system's");
        const int before = pluto::process_id();
        std::fflush(stdout);
        const pid_t c = ::fork();
        if (c == 0)
        {
            int rc = 0; const pid_t me = static_cast<pid_t>(::syscall(SYS_getpid));
            if (pluto::process_id() != me) rc |= 1;
            if (pluto::thread_id() != static_cast<std::size_t>(::syscall(SYS_gettid))) rc |= 2;
            const pid_t g = ::fork(); if (g == 0) ::_exit(pluto::process_id() == static_cast<int>(::syscall(SYS_getpid)) && pluto::thread_id() == static_cast<std::size_t>(::syscall(SYS_gettid)) ? 0 : 1);
            int st = 0; ::waitpid(g, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc |= 4;
            ::_exit(rc);
        }
        int st = 0; ::waitpid(c, &st, 0); hc::count("comparisons", 5); hc::count("forks", 2);
        if (!WIFEXITED(st)) { bad("platform", "the forked process died"); return; }
        if (WEXITSTATUS(st) & 1) bad("platform", "process_id is wrong after a fork");
        if (WEXITSTATUS(st) & 2) bad("platform", "thread_id is wrong after a fork");
        if (WEXITSTATUS(st) & 4) bad("platform", "process_id or thread_id is wrong after two forks");
        if (pluto::process_id() != before) bad("platform", "process_id changed");
    }
#endif
}

int main(int argc, char** argv)
{
    hc::init(argc, argv);
    const std::uint64_t seed = static_cast<std::uint64_t>(hc::num("seed", 1));
    const long first = hc::num("first", 0), n = hc::num("n", 100), stride = hc::num("stride", 1);
    const std::string mix = hc::text("mix", "r");
    for (long i = first; i < first + n * stride; i += stride)
    {
        hc::rng r(seed * 1000003ULL + static_cast<std::uint64_t>(i));
        hc::on_step(("seed=" + std::to_string(seed) + " n=1 mix=" + mix + " first=" + std::to_string(i)).c_str());
        hc::count("iterations");
        const char c = mix[static_cast<std::size_t>(i / stride) % mix.size()];
#if PART & 1
        if (c == 'r') { if (i == 0) small_ranges(); ranges(r); }
        if (c == 's') scopes(r);
        if (c == 'v') numbers(r);
#endif
#if PART & 2
        if (c == 'w') watch(r);
#endif
#if PART & 4
        if (c == 'f')
        {
            for (int k = 0; k < 20; ++k) names(r);
            zone(i); times(r); threads(r);
            if (i % 8 < 1) processes(r);
        }
#endif
        (void)c;
        if (hc::violations() > 20) break;
    }
    return hc::finish();
}
