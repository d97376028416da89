// LRU cache harness (single thread): runs generated operation sequences against the real caches beside a
// reference model, comparing every result and every query; also copies, moves and throwing element types.
#include "pluto/lru_cache.hpp"
#include "pluto/safe_lru_cache.hpp"
#include "hc.hpp"
#include <algorithm>
#include <functional>
#include <list>
#include <map>
#include <limits>
#include <memory>
#include <utility>

namespace
{
    std::string str(long v) { return std::to_string(v); }

    // ---- element type that counts its instances and throws on demand --------------------------------
    struct boom {};
    long live = 0, budget = -1;         // budget: number of potentially throwing operations left before one throws
    long copies = 0;
    void tick() { ++copies; if (budget >= 0 && budget-- == 0) { budget = -1; throw boom{}; } }
    struct obj
    {
        long v; std::unique_ptr<long> p;
        explicit obj(long x) : v{ x }, p{ new long(x) } { ++live; }
        obj(const obj& o) : v{ o.v } { tick(); p.reset(new long(*o.p)); ++live; }
        obj(obj&& o) : v{ o.v }, p{ new long(*o.p) } { ++live; }        // leaves the source intact
        obj& operator=(const obj& o) { tick(); v = o.v; *p = *o.p; return *this; }
        obj& operator=(obj&& o) { v = o.v; *p = *o.p; return *this; }
        ~obj() { --live; v = -77; }
        long get() const { return *p == v ? v : -1; }
    };
    bool operator<(const obj& a, const obj& b) { tick(); return *a.p < *b.p; }

    // key whose equivalence is coarser than identity: ordered by tens only
    struct coarse { long v; };
    bool operator<(const coarse& a, const coarse& b) { return a.v / 10 < b.v / 10; }

    template<class T> struct mk;
    template<> struct mk<int> { static int of(long v) { return static_cast<int>(v * 1000003L); } static long to(int v) { return v / 1000003; } };
    template<> struct mk<long> { static long of(long v) { return -v; } static long to(long v) { return -v; } };
    template<> struct mk<std::string>
    {
        static std::string of(long v) { return std::string(static_cast<std::size_t>((v + 9) % 3) * 20, 'k') + std::to_string(v) + std::string(1, '\0'); }
        static long to(const std::string& s) { auto i = s.find_last_of('k'); return std::strtol(s.c_str() + (i == s.npos ? 0 : i + 1), nullptr, 10); }
    };
    template<> struct mk<obj> { static obj of(long v) { return obj(v); } static long to(const obj& o) { return o.get(); } };
    template<> struct mk<std::shared_ptr<long>>
    {
        static std::shared_ptr<long> of(long v) { return std::make_shared<long>(v); }
        static long to(const std::shared_ptr<long>& p) { return p ? *p : -1; }
    };
    template<> struct mk<coarse> { static coarse of(long v) { return coarse{ v * 10 + (copies++ % 10) }; } static long to(coarse c) { return c.v / 10; } };

    // ---- the model ----------------------------------------------------------------------------------
    struct model
    {
        std::size_t cap; std::vector<std::pair<long, long>> e;          // front: most recently used
        explicit model(std::size_t c) : cap{ c } {}
        std::vector<std::pair<long, long>>::iterator at(long k) { return std::find_if(e.begin(), e.end(), [k](auto& p) { return p.first == k; }); }
        bool has(long k) { return at(k) != e.end(); }
        void front(long k) { auto i = at(k); auto p = *i; e.erase(i); e.insert(e.begin(), p); }
        bool insert(long k, long v, bool assign)
        {
            if (has(k)) { if (assign) { at(k)->second = v; front(k); } return false; }
            if (cap) { if (e.size() >= cap) e.pop_back(); e.insert(e.begin(), { k, v }); }
            return true;
        }
        bool get(long k, long& v) { if (!has(k)) return false; v = at(k)->second; front(k); return true; }
        bool remove(long k) { if (!has(k)) return false; e.erase(at(k)); return true; }
        void capacity(std::size_t c) { cap = c; while (e.size() > c) e.pop_back(); }
        void clear() { e.clear(); }
        std::string show() const { std::string s = "cap=" + str(static_cast<long>(cap)) + " ["; for (auto& p : e) s += str(p.first) + ":" + str(p.second) + " "; return s + "]"; }
    };

    std::string trail;
    void note(const std::string& s) { trail += s + " "; if (trail.size() > 1500) trail.erase(0, 500); }
    void bad(const char* kind, const std::string& what) { hc::violation(kind, what + "; after: " + trail.substr(trail.size() > 380 ? trail.size() - 380 : 0)); }

    template<class C> void compare(const C& c, model& m, long keys, const char* kind)
    {
        typedef typename C::key_type K;
        if (c.size() != m.e.size()) bad(kind, "size() is " + str(static_cast<long>(c.size())) + ", model " + m.show());
        if (c.capacity() != m.cap) bad(kind, "capacity() is " + str(static_cast<long>(c.capacity())) + ", model " + m.show());
        if (c.empty() != m.e.empty()) bad(kind, "empty() disagrees, model " + m.show());
        for (long k = 0; k < keys; ++k)
            if (c.contains(mk<K>::of(k)) != m.has(k)) bad(kind, "contains(" + str(k) + ") disagrees, model " + m.show());
        hc::count("queries", keys + 3);
    }
    // verifies values and recency order completely; the cache ends up empty
    template<class C> void drain(C& c, model& m, long keys, const char* kind, bool values)
    {
        typedef typename C::key_type K; typedef typename C::value_type V;
        if (values)
        {   // reading from least to most recently used leaves the order as it is
            auto order = m.e; std::reverse(order.begin(), order.end());
            for (auto& p : order)
            {
                V out = mk<V>::of(-1L);
                if (!c.get(mk<K>::of(p.first), out)) bad(kind, "get(" + str(p.first) + ") failed, model " + m.show());
                else if (mk<V>::to(out) != p.second) bad(kind, "get(" + str(p.first) + ") gives " + str(mk<V>::to(out)) + ", model " + m.show());
            }
            hc::count("values_read", static_cast<long>(order.size()));
        }
        for (std::size_t n = m.e.size(); n-- > 0;)
        {
            c.capacity(n); m.capacity(n);
            compare(c, m, keys, kind);
            if (hc::violations() > 20) return;
        }
    }

    template<class C> void step(C& c, model& m, hc::rng& r, long keys, const char* kind, long& serial)
    {
        typedef typename C::key_type K; typedef typename C::value_type V;
        const long k = r.in(0, keys - 1);
        const long op = r.in(0, 99);
        hc::count("operations");
        if (op < 30)
        {
            const long v = ++serial; note("insert(" + str(k) + "," + str(v) + ")");
            const bool got = c.insert(mk<K>::of(k), mk<V>::of(v)), want = m.insert(k, v, false);
            if (got != want) bad(kind, "insert(" + str(k) + ") returned " + str(got) + ", model " + m.show());
        }
        else if (op < 50)
        {
            const long v = ++serial; note("assign(" + str(k) + "," + str(v) + ")");
            const bool got = c.insert_or_assign(mk<K>::of(k), mk<V>::of(v)), want = m.insert(k, v, true);
            if (got != want) bad(kind, "insert_or_assign(" + str(k) + ") returned " + str(got) + ", model " + m.show());
        }
        else if (op < 75)
        {
            V out = mk<V>::of(-9L); long w = -9; note("get(" + str(k) + ")");
            const bool got = c.get(mk<K>::of(k), out), want = m.get(k, w);
            if (got != want) bad(kind, "get(" + str(k) + ") returned " + str(got) + ", model " + m.show());
            else if (mk<V>::to(out) != mk<V>::to(mk<V>::of(w))) bad(kind, "get(" + str(k) + ") wrote " + str(mk<V>::to(out)) + (want ? ", model " : " although the key is absent, model ") + m.show());
        }
        else if (op < 85)
        {
            note("remove(" + str(k) + ")");
            const bool got = c.remove(mk<K>::of(k)), want = m.remove(k);
            if (got != want) bad(kind, "remove(" + str(k) + ") returned " + str(got) + ", model " + m.show());
        }
        else if (op < 91)
        {
            note("contains(" + str(k) + ")");
            if (c.contains(mk<K>::of(k)) != m.has(k)) bad(kind, "contains(" + str(k) + ") disagrees, model " + m.show());
        }
        else if (op < 98)
        {
            std::size_t cap = static_cast<std::size_t>(r.in(0, keys + 1));
            if (r.chance(10)) cap = std::numeric_limits<std::size_t>::max() - static_cast<std::size_t>(r.in(0, 1));
            note("capacity(" + std::to_string(cap) + ")");
            c.capacity(cap); m.capacity(cap);
        }
        else { note("clear"); c.clear(); m.clear(); }
        compare(c, m, keys, kind);
    }

    std::uint64_t print(const model& m) { std::uint64_t h = m.cap < 100 ? m.cap : 100; for (auto& p : m.e) h = hc::mix(h, static_cast<std::uint64_t>(p.first)); return h; }

    template<class C> void model_run(hc::rng& r, const char* name)
    {
        trail.clear(); note(name);
        const long keys = r.chance(10) ? r.in(10, 60) : r.in(1, 8);
        const long before = live;
        {
            model m{ static_cast<std::size_t>(r.chance(8) ? 0 : r.in(1, keys + 1)) };
            note("cap " + str(static_cast<long>(m.cap)));
            C c{ m.cap };
            long serial = 100;
            const long n = r.in(1, keys > 9 ? 300 : 80);
            for (long i = 0; i < n && hc::violations() <= 20; ++i)
            {
                step(c, m, r, keys, "model", serial);
                hc::distinct(print(m));
            }
            hc::count(std::string("runs_") + name);
            if (r.chance(80)) drain(c, m, keys, "model", r.chance(70));
        }
        if (live != before) bad("leak", str(live - before) + " elements outlive the cache");
    }

    // every sequence of length len over 3 keys and a small set of operations
    template<class C> void exhaustive(std::size_t cap, int len, long part, long parts)
    {
        static const int nops = 14;
        long total = 1; for (int i = 0; i < len; ++i) total *= nops;
        for (long s = part; s < total; s += parts)
        {
            trail.clear(); note("exhaustive cap " + str(static_cast<long>(cap)));
            C c{ cap }; model m{ cap }; long t = s;
            for (int i = 0; i < len; ++i)
            {
                const int op = static_cast<int>(t % nops); t /= nops;
                const long k = op % 3; int out = -9; long w = -9; bool a = true, b = true;
                const long v = i + 1;
                if (op < 3) { note("insert(" + str(k) + ")"); a = c.insert(static_cast<int>(k), static_cast<int>(v)); b = m.insert(k, v, false); }
                else if (op < 6) { note("assign(" + str(k) + ")"); a = c.insert_or_assign(static_cast<int>(k), static_cast<int>(v)); b = m.insert(k, v, true); }
                else if (op < 9) { note("get(" + str(k) + ")"); a = c.get(static_cast<int>(k), out); b = m.get(k, w); if (out != w) bad("model", "get gives " + str(out) + ", model " + m.show()); }
                else if (op < 12) { note("remove(" + str(k) + ")"); a = c.remove(static_cast<int>(k)); b = m.remove(k); }
                else if (op == 12) { note("capacity(1)"); c.capacity(1); m.capacity(1); }
                else { note("capacity(3)"); c.capacity(3); m.capacity(3); }
                if (a != b) bad("model", "operation returned " + str(a) + ", model " + m.show());
            }
            bool same = c.size() == m.e.size();
            for (int k = 0; k < 3; ++k) same = same && c.contains(k) == m.has(k);
            if (!same) bad("model", "contents differ from model " + m.show());
            while (!m.e.empty()) { const auto n = m.e.size() - 1; c.capacity(n); m.capacity(n); for (int k = 0; k < 3; ++k) if (c.contains(k) != m.has(k)) bad("model", "evicted the wrong key, model " + m.show()); }
            hc::count("exhaustive_sequences");
            if (hc::violations() > 20) return;
        }
    }

    // ---- many keys, long histories: a model with an index, compared in full from time to time ------------
    struct large_model
    {
        typedef std::list<std::pair<long, long>> L;
        std::size_t cap; L e; std::map<long, L::iterator> at;
        explicit large_model(std::size_t c) : cap{ c } {}
        large_model(const large_model& o) : cap{ o.cap }, e{ o.e } { for (auto i = e.begin(); i != e.end(); ++i) at[i->first] = i; }
        bool has(long k) const { return at.count(k) != 0; }
        void drop() { at.erase(e.back().first); e.pop_back(); }
        void front(L::iterator i) { e.splice(e.begin(), e, i); }
        bool insert(long k, long v, bool assign)
        {
            auto i = at.find(k);
            if (i != at.end()) { if (assign) { i->second->second = v; front(i->second); } return false; }
            if (cap) { if (e.size() >= cap) drop(); e.push_front({ k, v }); at[k] = e.begin(); }
            return true;
        }
        bool get(long k, long& v) { auto i = at.find(k); if (i == at.end()) return false; v = i->second->second; front(i->second); return true; }
        bool remove(long k) { auto i = at.find(k); if (i == at.end()) return false; e.erase(i->second); at.erase(i); return true; }
        void capacity(std::size_t c) { cap = c; while (e.size() > c) drop(); }
        void clear() { e.clear(); at.clear(); }
    };
    template<class C> void large_step(C& c, large_model& m, hc::rng& r, long keys, long& serial, const char* kind)
    {
        typedef typename C::key_type K; typedef typename C::value_type V;
        const long k = r.chance(30) ? r.in(0, std::min(keys - 1, 9L)) : r.in(0, keys - 1), op = r.in(0, 999);
        bool got = true, want = true; const char* what = "";
        if (op < 350) { const long v = ++serial; what = "insert"; got = c.insert(mk<K>::of(k), mk<V>::of(v)); want = m.insert(k, v, false); }
        else if (op < 600) { const long v = ++serial; what = "insert_or_assign"; got = c.insert_or_assign(mk<K>::of(k), mk<V>::of(v)); want = m.insert(k, v, true); }
        else if (op < 850)
        {
            V out = mk<V>::of(-9L); long w = -9; what = "get"; got = c.get(mk<K>::of(k), out); want = m.get(k, w);
            if (mk<V>::to(out) != mk<V>::to(mk<V>::of(w))) hc::violation(kind, "get(" + str(k) + ") wrote " + str(mk<V>::to(out)) + " instead of " + str(w) + " after " + str(serial) + " stores");
        }
        else if (op < 930) { what = "remove"; got = c.remove(mk<K>::of(k)); want = m.remove(k); }
        else if (op < 994) { what = "contains"; got = c.contains(mk<K>::of(k)); want = m.has(k); }
        else if (op < 999)
        {
            std::size_t cap = m.cap; const long how = r.in(0, 3);
            if (how == 0) cap = static_cast<std::size_t>(r.in(1, keys + 9)); else if (how == 1) cap += static_cast<std::size_t>(r.in(1, 300)); else if (how == 2) cap -= std::min(cap - (cap ? 1 : 0), static_cast<std::size_t>(r.in(1, 40)));
            c.capacity(cap); m.capacity(cap);
        }
        else if (r.chance(20)) { c.clear(); m.clear(); }
        hc::count("large_operations");
        if (got != want) hc::violation(kind, std::string(what) + "(" + str(k) + ") returned " + str(got) + " after " + str(serial) + " stores, size " + str(static_cast<long>(m.e.size())) + " capacity " + std::to_string(m.cap));
        if (c.size() != m.e.size() || c.capacity() != m.cap || c.empty() != m.e.empty()) hc::violation(kind, std::string("after ") + what + " size() is " + str(static_cast<long>(c.size())) + " capacity() " + std::to_string(c.capacity()) + ", expected " + str(static_cast<long>(m.e.size())) + " and " + std::to_string(m.cap));
    }
    template<class C> void large_contents(const C& c, const large_model& m, long keys, const char* kind)
    {
        for (long k = 0; k < keys; ++k) if (c.contains(mk<typename C::key_type>::of(k)) != m.has(k)) { hc::violation(kind, "contains(" + str(k) + ") disagrees, size " + str(static_cast<long>(m.e.size())) + " capacity " + std::to_string(m.cap)); return; }
    }
    // values and the whole order; the cache ends up empty
    template<class C> void large_drain(C& c, large_model& m, hc::rng& r, long keys, const char* kind)
    {
        typedef typename C::key_type K; typedef typename C::value_type V;
        if (r.chance(50))
            for (auto i = m.e.rbegin(); i != m.e.rend(); ++i)
            {
                V out = mk<V>::of(-9L);
                if (!c.get(mk<K>::of(i->first), out) || mk<V>::to(out) != i->second) { hc::violation(kind, "key " + str(i->first) + " has value " + str(mk<V>::to(out)) + " instead of " + str(i->second)); return; }
            }
        while (!m.e.empty() && hc::violations() <= 20)
        {
            const long gone = m.e.back().first; const long next = m.e.size() > 1 ? std::prev(m.e.end(), 2)->first : -1;
            const std::size_t n = m.e.size() - 1;
            c.capacity(n); m.capacity(n);
            if (c.contains(mk<K>::of(gone)) || (next >= 0 && !c.contains(mk<K>::of(next))) || c.size() != n) hc::violation(kind, "shrinking to " + str(static_cast<long>(n)) + " did not evict the least recently used key " + str(gone));
        }
    }
    // (the tree functions of lib/stdnodes do not balance)
    std::vector<long> shuffled(hc::rng& r, long n)
    {
        std::vector<long> v; for (long k = 0; k < n; ++k) v.push_back(k);
        for (long k = n - 1; k > 0; --k) std::swap(v[static_cast<std::size_t>(k)], v[static_cast<std::size_t>(r.in(0, k))]);
        return v;
    }
    template<class C> void large_run(hc::rng& r, const char* name)
    {
        const bool huge = r.chance(8);
        const long before = live, keys = huge ? r.in(66000, 70000) : r.in(100, 2000);
        {
            large_model m{ static_cast<std::size_t>(huge ? r.in(65530, 70000) : r.in(20, keys + 20)) };
            C c{ m.cap };
            long serial = 0;
            if (huge) for (const long k : shuffled(r, keys)) { const long v = ++serial; (void)c.insert(mk<typename C::key_type>::of(k), mk<typename C::value_type>::of(v)); m.insert(k, v, false); }
            const long n = huge ? r.in(500, 3000) : r.chance(15) ? r.in(66000, 140000) : r.in(1000, 9000);
            for (long i = 0; i < n && hc::violations() <= 20; ++i)
            {
                large_step(c, m, r, keys, serial, "model");
                if (i % 997 == 0) large_contents(c, m, keys, "model");
            }
            large_contents(c, m, keys, "model");
            {
                C d{ static_cast<const C&>(c) }; large_model dm{ m };
                for (long i = 0; i < 300 && hc::violations() <= 20; ++i) { large_step(d, dm, r, keys, serial, "copy"); large_step(c, m, r, keys, serial, "copy"); }
                large_contents(d, dm, keys, "copy"); large_contents(c, m, keys, "copy");
                if (r.chance(50)) large_drain(d, dm, r, keys, "copy"); else { c = static_cast<const C&>(d); m.cap = dm.cap; m.clear(); for (auto i = dm.e.rbegin(); i != dm.e.rend(); ++i) { m.e.push_front(*i); m.at[i->first] = m.e.begin(); } large_contents(c, m, keys, "copy"); }
            }
            large_drain(c, m, r, keys, "model");
            hc::count(std::string("large_runs_") + name);
        }
        if (live != before) bad("leak", str(live - before) + " elements outlive the caches");
    }

    // ---- copies, assignments, moves -----------------------------------------------------------------
    template<class C> void copies_run(hc::rng& r, const char* name)
    {
        trail.clear(); note(name);
        const long before = live, keys = r.in(1, 7);
        {
            struct item { std::unique_ptr<C> c; model m; bool moved; };
            std::vector<item> v;
            long serial = 100;
            auto fresh = [&] { const auto cap = static_cast<std::size_t>(r.in(0, keys + 1)); return item{ std::make_unique<C>(cap), model{ cap }, false }; };
            v.push_back(fresh());
            const long n = r.in(4, 60);
            for (long i = 0; i < n && hc::violations() <= 20; ++i)
            {
                const std::size_t a = static_cast<std::size_t>(r.in(0, static_cast<long>(v.size()) - 1)), b = static_cast<std::size_t>(r.in(0, static_cast<long>(v.size()) - 1));
                const std::string ab = "#" + str(static_cast<long>(a)) + "<-#" + str(static_cast<long>(b));
                const long op = r.in(0, 99);
                hc::count("copy_operations");
                if (op < 50)
                {
                    if (v[a].moved) continue;
                    note("#" + str(static_cast<long>(a)) + ":");
                    step(*v[a].c, v[a].m, r, keys, "copy", serial);
                }
                else if (op < 62) { if (v.size() < 5 && !v[a].moved) { note("copy of #" + str(static_cast<long>(a))); v.push_back({ std::make_unique<C>(static_cast<const C&>(*v[a].c)), v[a].m, false }); } }
                else if (op < 74) { if (!v[b].moved) { note("assign " + ab); *v[a].c = static_cast<const C&>(*v[b].c); v[a].m = v[b].m; v[a].moved = false; } }
                else if (op < 80) { if (v.size() < 5 && !v[a].moved) { note("move-construct from #" + str(static_cast<long>(a))); item x{ std::make_unique<C>(std::move(*v[a].c)), v[a].m, false }; v[a].moved = true; v.push_back(std::move(x)); } }
                else if (op < 86) { if (a != b && !v[b].moved) { note("move-assign " + ab); *v[a].c = std::move(*v[b].c); v[a].m = v[b].m; v[a].moved = false; v[b].moved = true; } }
                else if (op < 90) { if (a != b && !v[a].moved && !v[b].moved) { note("swap " + ab); using std::swap; swap(*v[a].c, *v[b].c); std::swap(v[a].m, v[b].m); } }
                else if (op < 96) { if (v.size() > 1) { note("destroy #" + str(static_cast<long>(a))); v.erase(v.begin() + static_cast<long>(a)); } }
                else if (v[a].moved)
                {   // a moved-from cache can be given a known state again
                    note("clear moved #" + str(static_cast<long>(a)));
                    v[a].c->clear(); v[a].c->capacity(2); v[a].m = model{ 2 }; v[a].moved = false;
                }
                for (auto& x : v) if (!x.moved) compare(*x.c, x.m, keys, "copy");
                std::uint64_t h = 0; for (auto& x : v) h = hc::mix(h, print(x.m));
                hc::distinct(h);
            }
            while (!v.empty() && hc::violations() <= 20)
            {
                const std::size_t a = static_cast<std::size_t>(r.in(0, static_cast<long>(v.size()) - 1));
                if (!v[a].moved && r.chance(70)) { note("drain #" + str(static_cast<long>(a))); drain(*v[a].c, v[a].m, keys, "copy", r.chance(70)); }
                v.erase(v.begin() + static_cast<long>(a));
            }
            hc::count(std::string("copy_runs_") + name);
        }
        if (live != before) bad("leak", str(live - before) + " elements outlive the caches");
    }

    // ---- throwing element operations ----------------------------------------------------------------
    template<class C> void throwing_run(hc::rng& r, const char* name)
    {
        typedef typename C::key_type K; typedef typename C::value_type V;
        trail.clear(); note(name);
        const long before = live, keys = r.in(2, 6);
        {
            model m{ static_cast<std::size_t>(r.in(1, keys)) };
            auto c = std::make_unique<C>(m.cap);
            long serial = 100;
            const long n = r.in(4, 50);
            for (long i = 0; i < n && hc::violations() <= 20; ++i)
            {
                if (!r.chance(45)) { step(*c, m, r, keys, "exception", serial); continue; }
                const long k = r.in(0, keys - 1), v = ++serial, op = r.in(0, 5), arm = r.in(0, 12);
                const auto cap = static_cast<std::size_t>(r.in(0, keys));
                const K key = mk<K>::of(k); const V val = mk<V>::of(v); V out = mk<V>::of(-9L);
                note("armed(" + str(arm) + ") op" + str(op) + "(" + str(k) + ")");
                bool threw = false;
                model after = m; long w = 0;
                budget = arm;
                try
                {
                    switch (op)
                    {
                        case 0: (void)c->insert(key, val); budget = -1; after.insert(k, v, false); break;
                        case 1: (void)c->insert_or_assign(key, val); budget = -1; after.insert(k, v, true); break;
                        case 2: (void)c->get(key, out); budget = -1; after.get(k, w); break;
                        case 3: (void)c->remove(key); budget = -1; after.remove(k); break;
                        case 4: c->capacity(cap); budget = -1; after.capacity(cap); break;
                        case 5: (void)static_cast<const C&>(*c).contains(key); budget = -1; break;
                    }
                }
                catch (const boom&) { threw = true; note("threw"); }
                budget = -1;
                hc::count("armed_operations");
                if (!threw) m = after;
                else
                {
                    hc::count("throws");
                    const std::size_t size = c->size(), capacity = c->capacity();
                    if (op != 4) { if (capacity != m.cap) bad("exception", "capacity changed from " + str(static_cast<long>(m.cap)) + " to " + str(static_cast<long>(capacity))); }
                    else if (capacity != m.cap && capacity != cap) bad("exception", "capacity is neither the old nor the new one");
                    if (size > capacity) bad("exception", "holds " + str(static_cast<long>(size)) + " keys with capacity " + str(static_cast<long>(capacity)));
                    if (c->empty() != (size == 0)) bad("exception", "empty() disagrees with size()");
                    // whatever it still reports can be retrieved, is one of the values stored under that key, and adds up
                    model now{ capacity }; std::size_t found = 0;
                    for (long q = 0; q < keys; ++q)
                    {
                        if (!c->contains(mk<K>::of(q))) continue;
                        ++found;
                        V got = mk<V>::of(-9L);
                        if (!c->get(mk<K>::of(q), got)) { bad("exception", "reports key " + str(q) + " but cannot retrieve it"); continue; }
                        const long g = mk<V>::to(got);
                        const bool old_ok = m.has(q) && m.at(q)->second == g, new_ok = (op == 0 || op == 1) && q == k && g == v;
                        if (!old_ok && !new_ok) bad("exception", "key " + str(q) + " has value " + str(g) + ", before " + m.show());
                        now.e.insert(now.e.begin(), { q, g });
                    }
                    if (found != size) bad("exception", "size() is " + str(static_cast<long>(size)) + " but " + str(static_cast<long>(found)) + " keys are reported");
                    m = now;
                }
                compare(*c, m, keys, "exception");
                hc::distinct(hc::mix(print(m), static_cast<std::uint64_t>(op * 100 + arm + (threw ? 1000 : 0))));
            }
            if (hc::violations() <= 20) drain(*c, m, keys, "exception", true);
            c.reset();
            hc::count(std::string("throwing_runs_") + name);
        }
        if (live != before) bad("leak", str(live - before) + " elements outlive the cache");
    }
    // copying a whole cache may throw, too, and must leave both sides whole
    template<class C> void throwing_copy(hc::rng& r)
    {
        trail.clear(); note("throwing copy");
        const long before = live, keys = r.in(1, 5);
        {
            const auto cap = static_cast<std::size_t>(r.in(1, keys)), cap2 = static_cast<std::size_t>(r.in(1, keys));
            C a{ cap }, b{ cap2 }; model ma{ cap }, mb{ cap2 }; long serial = 100;
            for (int i = 0; i < 8; ++i) { note("a:"); step(a, ma, r, keys, "exception", serial); note("b:"); step(b, mb, r, keys, "exception", serial); }
            const bool assign = r.chance(50);
            budget = r.in(0, 25); note("armed " + str(budget) + (assign ? " assign b=a" : " copy a"));
            bool threw = false;
            std::unique_ptr<C> d;
            try { if (assign) b = static_cast<const C&>(a); else d = std::make_unique<C>(static_cast<const C&>(a)); budget = -1; }
            catch (const boom&) { threw = true; hc::count("throws_in_copy"); }
            budget = -1;
            compare(a, ma, keys, "exception");
            if (!threw) { compare(assign ? b : *d, ma, keys, "exception"); if (assign) mb = ma; }
            else if (assign)
            {
                const std::size_t size = b.size(); std::size_t found = 0; model now{ b.capacity() };
                if (size > b.capacity()) bad("exception", "assignment target above its capacity");
                for (long q = 0; q < keys; ++q)
                {
                    if (!b.contains(mk<typename C::key_type>::of(q))) continue;
                    ++found; auto got = mk<typename C::value_type>::of(-9L);
                    if (!b.get(mk<typename C::key_type>::of(q), got)) bad("exception", "assignment target reports a key it cannot retrieve");
                    now.e.insert(now.e.begin(), { q, mk<typename C::value_type>::to(got) });
                }
                if (found != size) bad("exception", "assignment target's size does not match its contents");
                mb = now;
            }
            drain(a, ma, keys, "exception", true); drain(b, mb, keys, "exception", true);
        }
        if (live != before) bad("leak", str(live - before) + " elements outlive the caches");
    }
}

int main(int argc, char** argv)
{
    hc::init(argc, argv);
    const std::uint64_t seed = static_cast<std::uint64_t>(hc::num("seed", 1));
    const long first = hc::num("first", 0), n = hc::num("n", 100), stride = hc::num("stride", 1);
    const std::string mix = hc::text("mix", "m");
    using pluto::lru_cache; using pluto::safe_lru_cache;
    for (long i = first; i < first + n * stride; i += stride)
    {
        hc::rng r(seed * 1000003ULL + static_cast<std::uint64_t>(i));
        hc::on_step(("seed=" + std::to_string(seed) + " first=" + std::to_string(i) + " n=1 mix=" + mix).c_str());
        hc::count("iterations");
        const char c = mix[static_cast<std::size_t>(i / stride) % mix.size()];
        if ((c == 'm' || c == 'c') && i % 173 == 172) switch (r.in(0, 3))
        {
            case 0: large_run<lru_cache<long, long>>(r, "long_long"); break;
            case 1: large_run<lru_cache<std::string, std::string>>(r, "string_string"); break;
            case 2: large_run<lru_cache<obj, obj>>(r, "counted"); break;
            default: large_run<lru_cache<coarse, long>>(r, "coarse_order"); break;
        }
        else if (c == 'm') switch (r.in(0, 8))
        {
            case 0: model_run<lru_cache<int, int>>(r, "int_int"); break;
            case 1: model_run<lru_cache<std::string, std::string>>(r, "string_string"); break;
            case 2: model_run<lru_cache<long, std::shared_ptr<long>>>(r, "long_shared"); break;
            case 3: model_run<lru_cache<obj, obj>>(r, "counted"); break;
            case 4: model_run<lru_cache<coarse, int>>(r, "coarse_order"); break;
            case 5: model_run<safe_lru_cache<int, int>>(r, "safe_int_int"); break;
            case 6: model_run<safe_lru_cache<std::string, std::string>>(r, "safe_string_string"); break;
            case 7: model_run<safe_lru_cache<obj, obj>>(r, "safe_counted"); break;
            default: model_run<lru_cache<std::string, long>>(r, "string_long"); break;
        }
        else if (c == 'c') switch (r.in(0, 3))
        {
            case 0: copies_run<lru_cache<int, int>>(r, "int_int"); break;
            case 1: copies_run<lru_cache<std::string, std::string>>(r, "string_string"); break;
            case 2: copies_run<lru_cache<obj, obj>>(r, "counted"); break;
            default: copies_run<lru_cache<long, std::shared_ptr<long>>>(r, "long_shared"); break;
        }
        else if (c == 't') switch (r.in(0, 5))
        {
            case 0: throwing_run<lru_cache<obj, long>>(r, "throwing_key"); break;
            case 1: throwing_run<lru_cache<long, obj>>(r, "throwing_value"); break;
            case 2: throwing_run<lru_cache<obj, obj>>(r, "throwing_both"); break;
            case 3: throwing_run<safe_lru_cache<obj, obj>>(r, "safe_throwing_both"); break;
            default: throwing_copy<lru_cache<obj, obj>>(r); break;
        }
        else if (c == 'x')
        {
            // this slice of all sequences of the given length
            const int len = static_cast<int>(hc::num("len", 4));
            for (std::size_t cap = 0; cap <= 3; ++cap) { exhaustive<lru_cache<int, int>>(cap, len, i, n * stride); exhaustive<safe_lru_cache<int, int>>(cap, len - 1, i, n * stride); }
        }
        if (hc::violations() > 20) break;
    }
    return hc::finish();
}
