// Thread-safe cache harness: generated multi-threaded programs against the real safe_lru_cache under the
// controlled scheduler; every recorded history must be equivalent to a sequential history of the plain
// cache (reference model) that respects real-time order.
#include "pluto/safe_lru_cache.hpp"
#include "dsched.h"
#include "hc.hpp"
#include <algorithm>
#include <set>
#include <sstream>
#include <thread>

namespace
{
    std::string str(long v) { return std::to_string(v); }
    enum op_type { INSERT, ASSIGN, GET, REMOVE, CONTAINS, SIZE, CAP, EMPTY, CLEAR, SETCAP, N_OPS };
    const char* const op_name[] = { "insert", "insert_or_assign", "get", "remove", "contains", "size", "capacity", "empty", "clear", "set_capacity" };
    enum ev { CALL = 1, RET };

    // element types whose operations are scheduling points
    struct key
    {
        int v;
        explicit key(int x) : v{ x } {}
        key(const key& o) : v{ o.v } { if (ds_active()) ds_yield(); }
        key& operator=(const key&) = default;
    };
    bool operator<(const key& a, const key& b) { if (ds_active() && (ds_rand() & 7) == 0) ds_yield(); return a.v < b.v; }
    struct val
    {
        long v; long w;
        explicit val(long x) : v{ x }, w{ ~x } {}
        val(const val& o) : v{ o.v }, w{ 0 } { if (ds_active()) ds_yield(); w = o.w; }
        val& operator=(const val& o) { v = o.v; if (ds_active()) ds_yield(); w = o.w; return *this; }
        long get() const { return v == ~w ? v : -777; }         // -777: torn
    };
    template<class T> T of(long v) { return T(static_cast<int>(v)); }
    template<> std::string of<std::string>(long v) { return std::string(20, 'x') + std::to_string(v); }
    long to(int v) { return v; }
    long to(const val& v) { return v.get(); }
    long to(const std::string& s) { return s.size() < 20 ? -777 : std::strtol(s.c_str() + 20, nullptr, 10); }

    struct op { int type; long k, v; };
    struct rec { op o; long r, out; std::uint32_t call, ret; int thread; };

    struct state
    {
        long cap; std::vector<std::pair<long, long>> e;
        bool operator<(const state& o) const { return cap != o.cap ? cap < o.cap : e < o.e; }
        // applies the operation; false when its recorded result is not what the model gives
        bool apply(const rec& x)
        {
            auto at = std::find_if(e.begin(), e.end(), [&](auto& p) { return p.first == x.o.k; });
            const bool has = at != e.end();
            auto front = [&] { auto p = *at; e.erase(at); e.insert(e.begin(), p); };
            switch (x.o.type)
            {
                case INSERT: case ASSIGN:
                    if (x.r != !has) return false;
                    if (has) { if (x.o.type == ASSIGN) { at->second = x.o.v; front(); } }
                    else if (cap) { if (static_cast<long>(e.size()) >= cap) e.pop_back(); e.insert(e.begin(), { x.o.k, x.o.v }); }
                    return true;
                case GET:
                    if (x.r != has) return false;
                    if (!has) return true;
                    if (at->second != x.out) return false;
                    front(); return true;
                case REMOVE: if (x.r != has) return false; if (has) e.erase(at); return true;
                case CONTAINS: return x.r == has;
                case SIZE: return x.r == static_cast<long>(e.size());
                case CAP: return x.r == cap;
                case EMPTY: return x.r == e.empty();
                case CLEAR: e.clear(); return true;
                case SETCAP: cap = x.o.v; while (static_cast<long>(e.size()) > cap) e.pop_back(); return true;
            }
            return false;
        }
    };
    std::string show(const rec& x)
    {
        std::ostringstream o;
        o << "T" << x.thread << " [" << x.call << "," << x.ret << "] " << op_name[x.o.type] << "(";
        if (x.o.type <= CONTAINS) o << x.o.k;
        if (x.o.type <= ASSIGN) o << "," << x.o.v;
        if (x.o.type == SETCAP) o << x.o.v;
        o << ")=" << x.r;
        if (x.o.type == GET && x.r) o << ":" << x.out;
        return o.str();
    }

    // searches for a sequential explanation
    struct checker
    {
        const std::vector<rec>& h; std::set<std::pair<std::uint64_t, state>> dead; long nodes = 0;
        bool go(std::uint64_t done, const state& s)
        {
            if (done == (1ULL << h.size()) - 1) return true;
            if (!dead.insert({ done, s }).second) return false;
            ++nodes;
            std::uint32_t first_ret = ~0U;
            for (std::size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) first_ret = std::min(first_ret, h[i].ret);
            for (std::size_t i = 0; i < h.size(); ++i)
            {
                if ((done >> i & 1) || h[i].call > first_ret) continue;
                state n = s;
                if (n.apply(h[i]) && go(done | 1ULL << i, n)) return true;
            }
            return false;
        }
    };

    [[noreturn]] void fatal(int outcome, const char* text)
    {
        hc::violation(outcome == DS_DEADLOCK ? "deadlock" : outcome == DS_LIVELOCK ? "livelock" : outcome == DS_DEAD_OBJECT ? "use-after-destroy" : "lock-misuse", text);
        hc::finish();
        _exit(10);
    }

    template<class C> void run(hc::rng& r, std::uint64_t seed, const char* name)
    {
        typedef typename C::key_type K; typedef typename C::value_type V;
        const int threads = static_cast<int>(r.chance(8) ? r.in(5, 9) : r.in(2, 4));
        const long keys = r.in(1, 4), cap0 = r.in(0, 3);
        // weights: which operations this program uses
        std::vector<int> menu;
        for (int o = 0; o < N_OPS; ++o) for (long w = r.in(0, o == CLEAR ? 1 : o <= GET ? 4 : 2); w > 0; --w) menu.push_back(o);
        if (menu.empty()) menu = { INSERT, GET };
        std::vector<std::vector<op>> prog(static_cast<std::size_t>(threads));
        long serial = 0; int total = 0;
        for (auto& p : prog)
        {
            const long n = r.in(1, threads == 2 ? 7 : threads > 4 ? 3 : 5);
            for (long i = 0; i < n; ++i) { p.push_back({ r.pick(menu), r.in(0, keys - 1), 0 }); p.back().v = p.back().type == SETCAP ? r.in(0, 3) : ++serial; ++total; }
        }
        std::vector<std::vector<rec>> log(static_cast<std::size_t>(threads));
        ds_begin(seed, 0, &fatal);
        C* c = new C(static_cast<std::size_t>(cap0));
        // prefill
        std::vector<rec> hist;
        for (long i = r.in(0, 2); i > 0; --i)
        {
            rec x{ { INSERT, r.in(0, keys - 1), ++serial }, 0, 0, 0, 0, -1 };
            ds_rec(CALL, 0, 0, 0); x.call = ds_nevents(); x.r = c->insert(of<K>(x.o.k), of<V>(x.o.v)); ds_rec(RET, 0, 0, 0); x.ret = ds_nevents();
            hist.push_back(x);
        }
        std::vector<std::thread> th;
        for (int t = 0; t < threads; ++t)
            th.emplace_back([&, t]
            {
                for (auto& o : prog[static_cast<std::size_t>(t)])
                {
                    const K k = of<K>(o.k); const V v = of<V>(o.v); V out = of<V>(-9L); const C& q = *c;
                    rec x{ o, 0, 0, 0, 0, t };
                    ds_rec(CALL, t, 0, 0); x.call = ds_nevents();
                    switch (o.type)
                    {
                        case INSERT: x.r = c->insert(k, v); break;
                        case ASSIGN: x.r = c->insert_or_assign(k, v); break;
                        case GET: x.r = c->get(k, out); break;
                        case REMOVE: x.r = c->remove(k); break;
                        case CONTAINS: x.r = q.contains(k); break;
                        case SIZE: x.r = static_cast<long>(q.size()); break;
                        case CAP: x.r = static_cast<long>(q.capacity()); break;
                        case EMPTY: x.r = q.empty(); break;
                        case CLEAR: c->clear(); break;
                        case SETCAP: c->capacity(static_cast<std::size_t>(o.v)); break;
                    }
                    ds_rec(RET, t, 0, 0); x.ret = ds_nevents();
                    if (ds_holds_locks()) hc::violation("lock-kept", std::string(op_name[o.type]) + " returned with the lock held");
                    x.out = to(out);
                    log[static_cast<std::size_t>(t)].push_back(x);
                    if ((ds_rand() & 3) == 0) ds_yield();
                }
            });
        for (auto& t : th) t.join();
        ds_quiesce();
        // final state, read one operation at a time (values from least to most recently used do not matter: order is read by shrinking)
        auto seq = [&](int type, long k, long v)
        {
            rec x{ { type, k, v }, 0, 0, 0, 0, -2 }; V out = of<V>(-9L);
            ds_rec(CALL, 0, 0, 0); x.call = ds_nevents();
            switch (type)
            {
                case SIZE: x.r = static_cast<long>(c->size()); break;
                case CAP: x.r = static_cast<long>(c->capacity()); break;
                case CONTAINS: x.r = c->contains(of<K>(k)); break;
                case GET: x.r = c->get(of<K>(k), out); x.out = to(out); break;
                case SETCAP: c->capacity(static_cast<std::size_t>(v)); break;
            }
            ds_rec(RET, 0, 0, 0); x.ret = ds_nevents();
            hist.push_back(x);
        };
        for (auto& l : log) hist.insert(hist.end(), l.begin(), l.end());
        const std::size_t body = hist.size();
        seq(SIZE, 0, 0); seq(CAP, 0, 0);
        if (r.chance(50)) { for (long s = hist[body].r; s-- > 0;) { seq(SETCAP, 0, s); for (long k = 0; k < keys; ++k) seq(CONTAINS, k, 0); } }
        else for (long k = 0; k < keys; ++k) seq(GET, k, 0);
        std::uint64_t hash = ds_hash();
        ds_dead(c, sizeof *c);
        ds_undead();
        delete c;
        if (int left = ds_end()) hc::violation("thread-leak", str(left) + " threads unfinished");
        if (hist.size() > 63) hist.resize(63);
        checker ck{ hist, {}, 0 };
        state s{ cap0, {} };
        hc::count("histories"); hc::count("operations", total); hc::count(std::string("histories_") + name);
        long overlap = 0;
        for (std::size_t i = 0; i < body; ++i) for (std::size_t j = 0; j < i; ++j) if (hist[i].call < hist[j].ret && hist[j].call < hist[i].ret) ++overlap;
        hc::count("overlapping_pairs", overlap);
        if (!ck.go(0, s))
        {
            std::string d = std::string(name) + " initial capacity " + str(cap0) + ": no sequential order explains ";
            auto o = hist; std::sort(o.begin(), o.end(), [](auto& a, auto& b) { return a.call < b.call; });
            for (auto& x : o) d += show(x) + "; ";
            hc::violation("not-linearizable", d);
        }
        hc::count("search_nodes", ck.nodes);
        if (overlap) hc::distinct(hash);
    }
}

int main(int argc, char** argv)
{
    hc::init(argc, argv);
    const std::uint64_t seed = static_cast<std::uint64_t>(hc::num("seed", 1));
    const long first = hc::num("first", 0), n = hc::num("n", 100), stride = hc::num("stride", 1);
    for (long i = first; i < first + n * stride; i += stride)
    {
        const std::uint64_t s = seed * 1000003ULL + static_cast<std::uint64_t>(i);
        hc::rng r(s);
        hc::on_step(("seed=" + std::to_string(seed) + " first=" + std::to_string(i) + " n=1").c_str());
        hc::count("iterations");
        switch (r.in(0, 3))
        {
            case 0: run<pluto::safe_lru_cache<int, int>>(r, s, "int_int"); break;
            case 1: run<pluto::safe_lru_cache<std::string, std::string>>(r, s, "string_string"); break;
            default: run<pluto::safe_lru_cache<key, val>>(r, s, "yielding"); break;
        }
        if (hc::violations() > 20) break;
    }
    return hc::finish();
}
