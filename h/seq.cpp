// Sequence and container harness: every algorithm of iterator.hpp, container.hpp and the sequence forms of
// string.hpp against naive definitions, over several containers, iterator categories and predicates.
// Iterators are checked: any access outside the given range, or after a move past its ends, is reported.
#include "pluto/container.hpp"
#include "pluto/string.hpp"
#include "hc.hpp"
#include <array>
#include <climits>
#include <cmath>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>

#ifndef PART
#define PART 7
#endif

namespace
{
    std::string str(long v) { return std::to_string(v); }
    typedef std::vector<int> ints;
    std::string show(const ints& v) { std::string s = "["; std::size_t n = 0; for (int x : v) { if (++n > 40) { s += ".."; break; } s += str(x) + " "; } return s + "]"; }
    std::string ctx;
    void bad(const char* kind, const std::string& what) { hc::violation(kind, what + " for " + ctx); }
    template<class A, class B> void same(const char* kind, const char* what, const A& got, const B& want)
    {
        hc::count("comparisons");
        if (!(got == static_cast<A>(want))) bad(kind, std::string(what) + " gives " + str(static_cast<long>(got)) + " instead of " + str(static_cast<long>(want)));
    }

    // element types of the left and the right sequence that only compare in that order
    struct lt { int v; };
    struct rt { int v; };
    bool operator==(const lt& a, const rt& b) { return a.v == b.v; }
    struct relation
    {
        int kind;
        bool test(int l, int r) const
        {
            switch (kind)
            {
                case 0: return l == r;
                case 1: return l < r;
                case 2: return l <= r;
                case 3: return l == r + 1;
                case 4: return l - r <= 1 && r - l <= 1;
                case 5: return true;
                case 6: return false;
                default: return r == 0 || l % (r + 1) == 0;
            }
        }
        bool operator()(const lt& a, const rt& b) const { hc::count("predicate_calls"); return test(a.v, b.v); }
        bool operator()(int a, int b) const { return test(a, b); }
    };

    // a checked iterator over [0,n) of an array; Tag is its category
    template<class T, class Tag> struct chk
    {
        typedef Tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
        const T* base = nullptr; std::ptrdiff_t n = 0, i = 0; const char* who = "";
        void at(std::ptrdiff_t k, std::ptrdiff_t hi) const { if (k < 0 || k > hi) { bad("out-of-range", std::string(who) + " iterator at " + str(k) + " of " + str(n)); hc::finish(); _exit(10); } }
        reference operator*() const { at(i, n - 1); return base[i]; }
        pointer operator->() const { return &**this; }
        reference operator[](std::ptrdiff_t k) const { return *(*this + k); }
        chk& operator++() { at(++i, n); return *this; }
        chk operator++(int) { chk c{ *this }; ++*this; return c; }
        chk& operator--() { at(--i, n); return *this; }
        chk operator--(int) { chk c{ *this }; --*this; return c; }
        chk& operator+=(std::ptrdiff_t k) { at(i += k, n); return *this; }
        chk& operator-=(std::ptrdiff_t k) { at(i -= k, n); return *this; }
        friend chk operator+(chk a, std::ptrdiff_t k) { return a += k; }
        friend chk operator+(std::ptrdiff_t k, chk a) { return a += k; }
        friend chk operator-(chk a, std::ptrdiff_t k) { return a -= k; }
        friend std::ptrdiff_t operator-(const chk& a, const chk& b) { return a.i - b.i; }
        friend bool operator==(const chk& a, const chk& b) { if (a.base != b.base) { bad("out-of-range", "iterators of different sequences compared"); } return a.i == b.i; }
        friend bool operator!=(const chk& a, const chk& b) { return !(a == b); }
        friend bool operator<(const chk& a, const chk& b) { return a.i < b.i; }
        friend bool operator>(const chk& a, const chk& b) { return a.i > b.i; }
        friend bool operator<=(const chk& a, const chk& b) { return a.i <= b.i; }
        friend bool operator>=(const chk& a, const chk& b) { return a.i >= b.i; }
    };
    template<class T> std::vector<T> as(const ints& v) { std::vector<T> o; for (int x : v) o.push_back(T{ x }); return o; }

    // ---- definitions --------------------------------------------------------------------------------
    template<class P> bool match(const ints& l, std::size_t at, const ints& r, P p) { for (std::size_t k = 0; k < r.size(); ++k) if (!p(l[at + k], r[k])) return false; return true; }
    struct truth { bool equal, starts, ends, contains; std::ptrdiff_t first, last; };
    template<class P> truth define(const ints& l, const ints& r, P p)
    {
        truth t{}; const std::size_t n = l.size(), m = r.size();
        t.equal = n == m && match(l, 0, r, p);
        t.starts = m <= n && match(l, 0, r, p);
        t.ends = m <= n && match(l, n - m, r, p);
        t.first = t.last = static_cast<std::ptrdiff_t>(n); t.contains = false;
        for (std::size_t i = 0; i + m <= n; ++i) if (match(l, i, r, p)) { if (!t.contains) t.first = static_cast<std::ptrdiff_t>(i); t.contains = true; t.last = static_cast<std::ptrdiff_t>(i); }
        if (m == 0) { t.first = 0; t.last = static_cast<std::ptrdiff_t>(n); t.contains = true; }
        return t;
    }

    // ---- pairs of sequences, iterator forms ---------------------------------------------------------
    template<class TL, class TR> void pairs_iter(const ints& l, const ints& r, relation p)
    {
        const auto L = as<lt>(l); const auto R = as<rt>(r);
        const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(l.size()), m = static_cast<std::ptrdiff_t>(r.size());
        const truth t = define(l, r, p);
        static const lt dl{}; static const rt dr{};
        const chk<lt, TL> lb{ n ? L.data() : &dl, n, 0, "left" }, le{ n ? L.data() : &dl, n, n, "left" };
        const chk<rt, TR> rb{ m ? R.data() : &dr, m, 0, "right" }, re{ m ? R.data() : &dr, m, m, "right" };
        same("sequence", "equals", pluto::equals(lb, le, rb, re, p), t.equal);
        if (n == m) same("sequence", "equals_same_size", pluto::equals_same_size(lb, le, rb, p), t.equal);
        same("sequence", "starts_with", pluto::starts_with(lb, le, rb, re, p), t.starts);
        if constexpr (std::is_base_of<std::bidirectional_iterator_tag, TL>::value && std::is_base_of<std::bidirectional_iterator_tag, TR>::value)
            same("sequence", "ends_with", pluto::ends_with(lb, le, rb, re, p), t.ends);
        same("sequence", "find", pluto::find(lb, le, rb, re, p).i, t.first);
        IF17(same("sequence", "rfind", pluto::rfind(lb, le, rb, re, p).i, t.last));
        same("sequence", "contains", pluto::contains(lb, le, rb, re, p), t.contains);
        if (p.kind == 0)
        {   // default predicate, also between unlike element types
            same("sequence", "equals (default)", pluto::equals(lb, le, rb, re), t.equal);
            same("sequence", "starts_with (default)", pluto::starts_with(lb, le, rb, re), t.starts);
            same("sequence", "find (default)", pluto::find(lb, le, rb, re).i, t.first);
            IF17(same("sequence", "rfind (default)", pluto::rfind(lb, le, rb, re).i, t.last));
            same("sequence", "contains (default)", pluto::contains(lb, le, rb, re), t.contains);
            if (n == m) same("sequence", "equals_same_size (default)", pluto::equals_same_size(lb, le, rb), t.equal);
            if constexpr (std::is_base_of<std::bidirectional_iterator_tag, TL>::value && std::is_base_of<std::bidirectional_iterator_tag, TR>::value)
                same("sequence", "ends_with (default)", pluto::ends_with(lb, le, rb, re), t.ends);
        }
    }
    template<class L, class R> void pairs_cont(const ints& l, const ints& r, relation p, const char* kind = "sequence")
    {
        const L a(l.begin(), l.end()); const R b(r.begin(), r.end());
        const truth t = define(l, r, p);
        same(kind, "container equals", pluto::equals(a, b, p), t.equal);
        same(kind, "container starts_with", pluto::starts_with(a, b, p), t.starts);
        constexpr bool fwd = std::is_same<L, std::forward_list<int>>::value || std::is_same<R, std::forward_list<int>>::value;
        if constexpr (!fwd) same(kind, "container ends_with", pluto::ends_with(a, b, p), t.ends);
        same(kind, "find_sequence", std::distance(a.begin(), pluto::find_sequence(a, b, p)), t.first);
        IF17(same(kind, "rfind_sequence", std::distance(a.begin(), pluto::rfind_sequence(a, b, p)), t.last));
        same(kind, "contains_sequence", pluto::contains_sequence(a, b, p), t.contains);
        if (p.kind == 0)
        {
            same(kind, "container equals (default)", pluto::equals(a, b), t.equal);
            same(kind, "container starts_with (default)", pluto::starts_with(a, b), t.starts);
            if constexpr (!fwd) same(kind, "container ends_with (default)", pluto::ends_with(a, b), t.ends);
            same(kind, "find_sequence (default)", std::distance(a.begin(), pluto::find_sequence(a, b)), t.first);
            IF17(same(kind, "rfind_sequence (default)", std::distance(a.begin(), pluto::rfind_sequence(a, b)), t.last));
            same(kind, "contains_sequence (default)", pluto::contains_sequence(a, b), t.contains);
        }
    }
    template<class E> struct block
    {
        std::size_t n; std::unique_ptr<E[]> p;
        explicit block(const ints& v) : n{ v.size() }, p{ new E[v.size()] } { for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<E>(v[i]); }
    };
    // pointer-and-length and string forms; elements are mapped so that embedded zeros occur
    template<class E> struct etraits : std::char_traits<E> {};
    template<class S> void pairs_text(const ints& l, const ints& r, relation p)
    {
        typedef typename S::value_type E;
        const truth t = define(l, r, p);
        auto q = [p](E a, E b) { return p.test(static_cast<int>(a), static_cast<int>(b)); };
        const block<E> a(l), b(r);
        const E* const x = a.p.get(); const E* const y = b.p.get();
        same("sequence", "text equals(ptr)", pluto::equals(x, a.n, y, b.n, q), t.equal);
        same("sequence", "text starts_with(ptr)", pluto::starts_with(x, a.n, y, b.n, q), t.starts);
        same("sequence", "text ends_with(ptr)", pluto::ends_with(x, a.n, y, b.n, q), t.ends);
        same("sequence", "text find(ptr)", pluto::find(x, a.n, y, b.n, q) - x, t.first);
        IF17(same("sequence", "text rfind(ptr)", pluto::rfind(x, a.n, y, b.n, q) - x, t.last));
        same("sequence", "text contains(ptr)", pluto::contains(x, a.n, y, b.n, q), t.contains);
        S s, u; for (int v : l) s.push_back(static_cast<E>(v)); for (int v : r) u.push_back(static_cast<E>(v));
        same("sequence", "text equals(string)", pluto::equals(s, u, q), t.equal);
        same("sequence", "text starts_with(string)", pluto::starts_with(s, u, q), t.starts);
        same("sequence", "text ends_with(string)", pluto::ends_with(s, u, q), t.ends);
        const S& cs = s;
        same("sequence", "text find(string)", pluto::find(cs, u, q) - cs.begin(), t.first);
        IF17(same("sequence", "text rfind(string)", pluto::rfind(cs, u, q) - cs.begin(), t.last));
        same("sequence", "text contains(string)", pluto::contains(cs, u, q), t.contains);
        if (p.kind == 0)
        {
            same("sequence", "text equals(ptr, default)", pluto::equals(x, a.n, y, b.n), t.equal);
            same("sequence", "text starts_with(ptr, default)", pluto::starts_with(x, a.n, y, b.n), t.starts);
            same("sequence", "text ends_with(ptr, default)", pluto::ends_with(x, a.n, y, b.n), t.ends);
            same("sequence", "text find(ptr, default)", pluto::find(x, a.n, y, b.n) - x, t.first);
            IF17(same("sequence", "text rfind(ptr, default)", pluto::rfind(x, a.n, y, b.n) - x, t.last));
            same("sequence", "text contains(ptr, default)", pluto::contains(x, a.n, y, b.n), t.contains);
            same("sequence", "text equals(string, default)", pluto::equals(s, u), t.equal);
            same("sequence", "text starts_with(string, default)", pluto::starts_with(s, u), t.starts);
            same("sequence", "text ends_with(string, default)", pluto::ends_with(s, u), t.ends);
            same("sequence", "text find(string, default)", pluto::find(cs, u) - cs.begin(), t.first);
            IF17(same("sequence", "text rfind(string, default)", pluto::rfind(cs, u) - cs.begin(), t.last));
            same("sequence", "text contains(string, default)", pluto::contains(cs, u), t.contains);
        }
    }

    // ---- one sequence and an element or a unary predicate -------------------------------------------
    template<class It, class Pos> void elements_iter(const ints& v, int e, It b, It end, Pos pos, bool bidi, const std::integral_constant<bool, true>&)
    {
        const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(v.size());
        auto naive = [&](auto f, bool back) { std::ptrdiff_t at = n; for (std::ptrdiff_t i = 0; i < n; ++i) if (f(v[static_cast<std::size_t>(i)])) { at = i; if (!back) break; } return at; };
        auto is = [e](int x) { return x == e; }; auto less = [e](int x) { return x < e; }; auto not_less = [e](int x) { return !(x < e); };
        same("element", "find(element)", pos(pluto::find(b, end, e)), naive(is, false));
        same("element", "find_if", pos(pluto::find_if(b, end, less)), naive(less, false));
        same("element", "find_if_not", pos(pluto::find_if_not(b, end, less)), naive(not_less, false));
        same("element", "contains(element)", pluto::contains(b, end, e), naive(is, false) != n);
        (void)bidi;
    }
    template<class It, class Pos> void elements_back(const ints& v, int e, It b, It end, Pos pos)
    {
        const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(v.size());
        auto naive = [&](auto f) { std::ptrdiff_t at = n; for (std::ptrdiff_t i = 0; i < n; ++i) if (f(v[static_cast<std::size_t>(i)])) at = i; return at; };
        auto is = [e](int x) { return x == e; }; auto less = [e](int x) { return x < e; }; auto not_less = [e](int x) { return !(x < e); };
        same("element", "rfind(element)", pos(pluto::rfind(b, end, e)), naive(is));
        same("element", "rfind_if", pos(pluto::rfind_if(b, end, less)), naive(less));
        same("element", "rfind_if_not", pos(pluto::rfind_if_not(b, end, less)), naive(not_less));
    }
    template<class C> void elements_cont(const ints& v, int e)
    {
        const C c(v.begin(), v.end()); const std::ptrdiff_t n = static_cast<std::ptrdiff_t>(v.size());
        auto naive = [&](auto f, bool back) { std::ptrdiff_t at = n; for (std::ptrdiff_t i = 0; i < n; ++i) if (f(v[static_cast<std::size_t>(i)])) { at = i; if (!back) break; } return at; };
        auto is = [e](int x) { return x == e; }; auto less = [e](int x) { return x < e; }; auto not_less = [e](int x) { return !(x < e); };
        auto pos = [&](auto it) { return std::distance(c.begin(), it); };
        same("element", "find_elem", pos(pluto::find_elem(c, e)), naive(is, false));
        same("element", "container find_if", pos(pluto::find_if(c, less)), naive(less, false));
        same("element", "container find_if_not", pos(pluto::find_if_not(c, less)), naive(not_less, false));
        same("element", "contains_elem", pluto::contains_elem(c, e), naive(is, false) != n);
        if constexpr (!std::is_same<C, std::forward_list<int>>::value)
        {
            same("element", "rfind_elem", pos(pluto::rfind_elem(c, e)), naive(is, true));
            same("element", "container rfind_if", pos(pluto::rfind_if(c, less)), naive(less, true));
            same("element", "container rfind_if_not", pos(pluto::rfind_if_not(c, less)), naive(not_less, true));
        }
    }

    // ---- elements for which equal is not the same as having the same bytes, and unlike element types ----
    struct partial { char key; int rest; };     // (equal when the keys are, and there is padding)
    bool operator==(const partial& a, const partial& b) { return a.key == b.key; }
    bool operator!=(const partial& a, const partial& b) { return !(a == b); }
    template<class A, class B> void mixed(hc::rng& r, const char* what, const std::vector<A>& pa, const std::vector<B>& pb)
    {
        std::vector<A> l; std::vector<B> q; std::vector<std::size_t> li, qi;
        const long kinds = r.in(2, 9);
        for (long i = r.in(0, 8); i > 0; --i) { li.push_back(static_cast<std::size_t>(r.in(0, kinds)) % pa.size()); l.push_back(pa[li.back()]); }
        if (l.empty() || r.chance(30)) for (long i = r.in(0, 3); i > 0; --i) qi.push_back(static_cast<std::size_t>(r.in(0, kinds)) % pb.size());
        else { std::size_t a = static_cast<std::size_t>(r()) % l.size(), n = static_cast<std::size_t>(r()) % (l.size() - a + 1); if (r.chance(30)) { a = 0; n = l.size(); } for (std::size_t i = a; i < a + n; ++i) qi.push_back((r.chance(15) ? li[i] + 1 : li[i]) % pb.size()); }
        for (auto i : qi) q.push_back(pb[i]);
        ctx = std::string(what) + " left "; for (auto i : li) ctx += str(static_cast<long>(i)) + " "; ctx += "right "; for (auto i : qi) ctx += str(static_cast<long>(i)) + " ";
        const std::size_t n = l.size(), m = q.size();
        truth t{}; t.first = t.last = static_cast<std::ptrdiff_t>(n);
        auto at = [&](std::size_t i) { for (std::size_t k = 0; k < m; ++k) if (!(l[i + k] == q[k])) return false; return true; };
        t.equal = n == m && at(0); t.starts = m <= n && at(0); t.ends = m <= n && at(n - m);
        for (std::size_t i = 0; i + m <= n; ++i) if (at(i)) { if (!t.contains) t.first = static_cast<std::ptrdiff_t>(i); t.contains = true; t.last = static_cast<std::ptrdiff_t>(i); }
        if (m == 0) { t.first = 0; t.last = static_cast<std::ptrdiff_t>(n); t.contains = true; }
        auto all = [&](const char* form, auto lb, auto le, auto rb, auto re)
        {
            (void)form;
            same("sequence", "mixed equals", pluto::equals(lb, le, rb, re), t.equal);
            if (n == m) same("sequence", "mixed equals_same_size", pluto::equals_same_size(lb, le, rb), t.equal);
            same("sequence", "mixed starts_with", pluto::starts_with(lb, le, rb, re), t.starts);
            same("sequence", "mixed ends_with", pluto::ends_with(lb, le, rb, re), t.ends);
            same("sequence", "mixed find", std::distance(lb, pluto::find(lb, le, rb, re)), t.first);
            IF17(same("sequence", "mixed rfind", std::distance(lb, pluto::rfind(lb, le, rb, re)), t.last));
            same("sequence", "mixed contains", pluto::contains(lb, le, rb, re), t.contains);
        };
        const A* const lp = l.data(); const B* const rp = q.data();
        const std::list<A> ll(l.begin(), l.end());
        all("pointers", lp, lp + n, rp, rp + m); all("vectors", l.cbegin(), l.cend(), q.cbegin(), q.cend()); all("list", ll.cbegin(), ll.cend(), rp, rp + m); all("mutable", l.begin(), l.end(), q.begin(), q.end());
        same("sequence", "mixed container equals", pluto::equals(l, q), t.equal); same("sequence", "mixed container ends_with", pluto::ends_with(ll, q), t.ends);
        same("sequence", "mixed container starts_with", pluto::starts_with(l, q), t.starts); same("sequence", "mixed find_sequence", pluto::find_sequence(l, q) - l.cbegin(), t.first); same("sequence", "mixed contains_sequence", pluto::contains_sequence(ll, q), t.contains);
        const B e = pb[static_cast<std::size_t>(r()) % pb.size()];
        std::ptrdiff_t fi = static_cast<std::ptrdiff_t>(n), la = fi; for (std::size_t i = 0; i < n; ++i) if (l[i] == e) { if (fi == static_cast<std::ptrdiff_t>(n)) fi = static_cast<std::ptrdiff_t>(i); la = static_cast<std::ptrdiff_t>(i); }
        same("element", "mixed find(element)", pluto::find(lp, lp + n, e) - lp, fi); same("element", "mixed rfind(element)", pluto::rfind(lp, lp + n, e) - lp, la); same("element", "mixed contains(element)", pluto::contains(lp, lp + n, e), la != static_cast<std::ptrdiff_t>(n));
        same("element", "mixed find_elem", pluto::find_elem(l, e) - l.cbegin(), fi); same("element", "mixed rfind_elem", pluto::rfind_elem(l, e) - l.cbegin(), la); same("element", "mixed contains_elem", pluto::contains_elem(ll, e), la != static_cast<std::ptrdiff_t>(n));
        hc::count("mixed_types");
    }
    void mixed_types(hc::rng& r)
    {
        const double nan = std::nan("");
        mixed<double, double>(r, "double", { 0.0, -0.0, nan, 1, 1.5, -1, 1e300 }, { 0.0, -0.0, nan, 1, 1.5, -1, 1e300 });
        mixed<float, double>(r, "float/double", { 0.0f, -0.0f, 0.1f, 1, 0.5f }, { 0.0, -0.0, 0.1, 1, 0.5 });
        mixed<char, int>(r, "char/int", { 'a', '\0', '\xFF', 'b' }, { 'a', 0x100, 0xFF, 0x162, -1, 0, 'b' });
        mixed<unsigned char, int>(r, "uchar/int", { 'a', 0, 0xFF, 'b' }, { 'a', 0x100, -1, 0x162, 0xFF, 0, 'b' });
        mixed<signed char, unsigned char>(r, "schar/uchar", { 1, -1, -128, 0 }, { 1, 255, 128, 0 });
        mixed<int, long long>(r, "int/long long", { 0, 1, -1, INT_MIN }, { 0, (1LL << 32) + 1, -1, INT_MIN, 1, 1LL << 32 });
        mixed<partial, partial>(r, "partial", { { 'a', 1 }, { 'a', 2 }, { 'b', 1 }, { 'b', 3 } }, { { 'a', 1 }, { 'a', 3 }, { 'b', 1 }, { 'b', 2 } });
        mixed<std::string, const char*>(r, "string/c_str", { "", "a", "ab" }, { "", "a", "ab" });
        mixed<std::string, std::string>(r, "string", { "", "a", std::string("a\0", 2), std::string(40, 'x') }, { "", "a", std::string("a\0", 2), std::string(40, 'x') });
    }

    // ---- container algorithms -----------------------------------------------------------------------
    template<class C> ints back(const C& c) { ints o; for (const auto& x : c) o.push_back(static_cast<int>(x)); return o; }
    void same_ints(const char* kind, const char* what, const ints& got, const ints& want)
    {
        hc::count("comparisons");
        if (got != want) bad(kind, std::string(what) + " gives " + show(got) + " instead of " + show(want));
    }
    template<class C> void algorithms(const ints& v, int e, bool can_sort)
    {
        const int k = e;
        auto small = [k](int x) { return x < k; };
        ints want;
        for (int x : v) if (small(x)) want.push_back(x);
        { C c(v.begin(), v.end()); C& r = pluto::filter(c, small); same_ints("algorithm", "filter", back(c), want); if (&r != &c) bad("algorithm", "filter does not return its argument"); }
        { C c(v.begin(), v.end()); const auto end = pluto::filter(c.begin(), c.end(), small); same_ints("algorithm", "filter (iterators)", ints(c.begin(), end), want); }
        want = v; std::reverse(want.begin(), want.end());
        { C c(v.begin(), v.end()); C& r = pluto::reverse(c); same_ints("algorithm", "reverse", back(c), want); if (&r != &c) bad("algorithm", "reverse does not return its argument"); }
        { C c(v.begin(), v.end()); pluto::reverse(c.begin(), c.end()); same_ints("algorithm", "reverse (iterators)", back(c), want); }
        if constexpr (!std::is_same<C, std::list<int>>::value) if (can_sort)
        {
            ints up = v, down = v;      // insertion sort as the definition
            for (std::size_t i = 1; i < up.size(); ++i) for (std::size_t j = i; j && up[j] < up[j - 1]; --j) std::swap(up[j], up[j - 1]);
            down = ints(up.rbegin(), up.rend());
            { C c(v.begin(), v.end()); C& r = pluto::sort(c); same_ints("algorithm", "sort", back(c), up); if (&r != &c) bad("algorithm", "sort does not return its argument"); }
            { C c(v.begin(), v.end()); pluto::sort(c, pluto::is_greater{}); same_ints("algorithm", "sort (greater)", back(c), down); }
            { C c(v.begin(), v.end()); pluto::sort(c.begin(), c.end()); same_ints("algorithm", "sort (iterators)", back(c), up); }
            { C c(v.begin(), v.end()); pluto::sort(c.begin(), c.end(), pluto::is_greater{}); same_ints("algorithm", "sort (iterators, greater)", back(c), down); }
        }
        const C c(v.begin(), v.end());
        { ints seen; C d(v.begin(), v.end()); C& r = pluto::for_each(d, [&seen](auto& x) { seen.push_back(x); x += 1; }); same_ints("algorithm", "for_each", seen, v); want = v; for (int& x : want) ++x; same_ints("algorithm", "for_each (changing)", back(d), want); if (&r != &d) bad("algorithm", "for_each does not return its argument"); }
        {
            struct counter { ints seen; void operator()(int x) { seen.push_back(x); } };
            same_ints("algorithm", "for_each (iterators)", pluto::for_each(c.begin(), c.end(), counter{}).seen, v);
        }
        // map: in place of each element its image, in order
        want.clear(); for (int x : v) want.push_back(3 * x - 1);
        { int calls = 0; std::vector<long> d{ 7 }; auto& r = pluto::map(c, d, [&calls](int x) { ++calls; return 3L * x - 1; }); ints w{ 7 }; w.insert(w.end(), want.begin(), want.end()); same_ints("algorithm", "map (destination)", back(d), w); same("algorithm", "map calls", calls, static_cast<int>(v.size())); if (&r != &d) bad("algorithm", "map does not return its destination"); }
        same_ints("algorithm", "map<list>", back(pluto::map<std::list<long>>(c, [](int x) { return 3L * x - 1; })), want);
        { std::set<int> w(want.begin(), want.end()); same_ints("algorithm", "map<set>", back(pluto::map<std::set<int>>(c, [](int x) { return 3 * x - 1; })), ints(w.begin(), w.end())); }
        { const auto m = pluto::map(c, [](int x) { return std::to_string(3 * x - 1); }); ints got; for (auto& s : m) got.push_back(std::stoi(s)); same_ints("algorithm", "map (deduced)", got, want); }
        { ints d(v.size() + 1, -5); const auto r = pluto::map(c.begin(), c.end(), d.begin(), [](int x) { return 3 * x - 1; }); same("algorithm", "map end", r - d.begin(), static_cast<std::ptrdiff_t>(v.size())); if (d.back() != -5) bad("algorithm", "map wrote past the last element"); d.pop_back(); same_ints("algorithm", "map (iterators)", d, want); }
        // quantifiers, counts, sums
        bool any = false, all = true, anyt = false, allt = true; std::size_t n = 0, ne = 0; long sum = 0;
        for (int x : v) { any |= small(x); all &= small(x); anyt |= x != 0; allt &= x != 0; n += small(x); ne += x == e; sum += x; }
        same("algorithm", "any", pluto::any(c, small), any); same("algorithm", "all", pluto::all(c, small), all);
        same("algorithm", "any (default)", pluto::any(c), anyt); same("algorithm", "all (default)", pluto::all(c), allt);
        same("algorithm", "count", pluto::count(c, e), ne); same("algorithm", "count (other type)", pluto::count(c, static_cast<long>(e)), ne); same("algorithm", "count_if", pluto::count_if(c, small), n);
        same("algorithm", "sum", pluto::sum(c), static_cast<int>(sum)); same("algorithm", "sum from", pluto::sum(c, 1000000000000L), 1000000000000L + sum);
        if (pluto::sum(c, 0.5) != 0.5 + static_cast<double>(sum)) bad("algorithm", "sum in double");
        same("algorithm", "len", pluto::len(c), v.size());
        if (!v.empty())
        {
            std::size_t lo = 0, hi = 0, lo2 = 0, hi2 = 0;
            auto by = [](int a, int b) { return a / 2 < b / 2; };
            for (std::size_t i = 0; i < v.size(); ++i) { if (v[i] < v[lo]) lo = i; if (v[hi] < v[i]) hi = i; if (by(v[i], v[lo2])) lo2 = i; if (by(v[hi2], v[i])) hi2 = i; }
            auto where = [&](const int& r) { std::size_t i = 0; for (const int& x : c) { if (&x == &r) return i; ++i; } return std::size_t{ 999999 }; };
            same("algorithm", "min", where(pluto::min(c)), lo); same("algorithm", "max", where(pluto::max(c)), hi);
            same("algorithm", "min (predicate)", where((pluto::min)(c, by)), lo2); same("algorithm", "max (predicate)", where((pluto::max)(c, by)), hi2);
            same("algorithm", "min (is_less)", where((pluto::min)(c, pluto::is_less{})), lo); same("algorithm", "max (is_less)", where((pluto::max)(c, pluto::is_less{})), hi);
        }
        if (back(c) != v) bad("algorithm", "a const container changed");
    }
    // containers of other element types, associative containers and arrays
    void more_algorithms(const ints& v, int e)
    {
        std::vector<bool> b; std::vector<std::string> s; std::map<int, int> m; std::set<int> t; std::vector<std::unique_ptr<int>> u;
        bool any = false, all = true; std::size_t n = 0; std::string cat = "<";
        for (int x : v) { b.push_back(x > e); any |= x > e; all &= x > e; n += x > e; s.push_back(str(x)); cat += str(x); m[x] += 1; t.insert(x); u.push_back(x > e ? std::make_unique<int>(x) : nullptr); }
        const auto& cb = b; const auto& cs = s; const auto& cm = m; const auto& ct = t; const auto& cu = u;
        same("algorithm", "any (bool)", pluto::any(cb), any); same("algorithm", "all (bool)", pluto::all(cb), all); same("algorithm", "count (bool)", pluto::count(cb, true), n);
        same("algorithm", "any (pointers)", pluto::any(cu), any); same("algorithm", "all (pointers)", pluto::all(cu, pluto::is_true{}), all); same("algorithm", "all (is_false)", pluto::all(cu, pluto::is_false{}), !any);
        if (pluto::sum(cs, std::string("<")) != cat) bad("algorithm", "sum of strings");
        same("algorithm", "count (strings)", pluto::count(cs, str(e)), static_cast<std::size_t>(std::count(s.begin(), s.end(), str(e))));
        same("algorithm", "len (set)", pluto::len(ct), t.size()); same("algorithm", "count_if (map)", pluto::count_if(cm, [](auto& p) { return p.second > 1; }), static_cast<std::size_t>(std::count_if(m.begin(), m.end(), [](auto& p) { return p.second > 1; })));
        if (!t.empty()) { same("algorithm", "min (set)", pluto::min(ct), *t.begin()); same("algorithm", "max (map)", pluto::max(cm).first, m.rbegin()->first); }
        int arr[4] = { e, 3, e + 1, -2 }; const int (&ca)[4] = arr;
        same("algorithm", "len (array)", pluto::len(ca), std::size_t{ 4 }); same("algorithm", "count (array)", pluto::count(ca, e), static_cast<std::size_t>(std::count(arr, arr + 4, e)));
        same("algorithm", "min (array)", pluto::min(ca), *std::min_element(arr, arr + 4)); same("algorithm", "contains_elem (array)", pluto::contains_elem(ca, 3), true);
        same("element", "rfind_elem (array)", pluto::rfind_elem(ca, e) - arr, std::distance(arr, std::find_end(arr, arr + 4, &e, &e + 1)));
        pluto::sort(arr); pluto::reverse(arr); if (!std::is_sorted(arr, arr + 4, std::greater<int>{})) bad("algorithm", "sort/reverse of an array");
    }

    // ---- slices -------------------------------------------------------------------------------------
    ints python_slice(const ints& v, long long start, long long stop)
    {
        const __int128 n = static_cast<__int128>(v.size());
        __int128 a = start, b = stop;
        if (a < 0) { a += n; if (a < 0) a = 0; } else if (a > n) a = n;
        if (b < 0) { b += n; if (b < 0) b = 0; } else if (b > n) b = n;
        ints o; for (__int128 i = a; i < b; ++i) o.push_back(v[static_cast<std::size_t>(i)]);
        return o;
    }
    struct anything { int v; anything(int x) : v{ x } {} template<class T> anything(const T&) : v{ -12345 } {} operator int() const { return v; } };
    template<class C> void slices(const ints& v, const std::vector<long long>& idx)
    {
        const C c(v.begin(), v.end());
        for (long long a : idx)
        {
            same_ints("slice", ("slice(" + std::to_string(a) + ")").c_str(), back(pluto::slice(c, a)), python_slice(v, 0, a));
            for (long long b : idx) same_ints("slice", ("slice(" + std::to_string(a) + "," + std::to_string(b) + ")").c_str(), back(pluto::slice(c, a, b)), python_slice(v, a, b));
        }
        if (back(c) != v) bad("slice", "the source changed");
        hc::count("slices", static_cast<long>(idx.size() * (idx.size() + 1)));
    }

    ints generate(hc::rng& r, long len, int letters) { ints v; for (long i = 0; i < len; ++i) v.push_back(static_cast<int>(r.in(0, letters - 1))); return v; }
    // a right sequence that is likely to occur
    ints related(hc::rng& r, const ints& l, int letters, relation p)
    {
        if (l.empty() || r.chance(15)) return generate(r, r.in(0, 5), letters);
        const std::size_t a = static_cast<std::size_t>(r.in(0, static_cast<long>(l.size()) - 1)), n = static_cast<std::size_t>(r.in(0, static_cast<long>(l.size() - a)));
        ints v(l.begin() + static_cast<long>(a), l.begin() + static_cast<long>(a + n));
        if (r.chance(20)) v = l;
        if (r.chance(20)) v = ints(l.end() - static_cast<long>(n), l.end());
        if (r.chance(20)) v = ints(l.begin(), l.begin() + static_cast<long>(n));
        if (p.kind == 3) for (int& x : v) --x;
        if ((p.kind == 1 || p.kind == 2) && r.chance(60)) for (int& x : v) x += static_cast<int>(r.in(0, 1));
        if (!v.empty() && r.chance(25)) v[r() % v.size()] = static_cast<int>(r.in(0, letters - 1));
        if (r.chance(10)) v.push_back(static_cast<int>(r.in(0, letters - 1)));
        for (int& x : v) if (x < 0) x = 0;
        return v;
    }
}

int main(int argc, char** argv)
{
    hc::init(argc, argv);
    const std::uint64_t seed = static_cast<std::uint64_t>(hc::num("seed", 1));
    const long first = hc::num("first", 0), n = hc::num("n", 100), stride = hc::num("stride", 1);
    const std::string mix = hc::text("mix", "s");
    typedef std::forward_iterator_tag F; typedef std::bidirectional_iterator_tag B; typedef std::random_access_iterator_tag R;
    for (long i = first; i < first + n * stride; i += stride)
    {
        hc::rng r(seed * 1000003ULL + static_cast<std::uint64_t>(i));
        hc::on_step(("seed=" + std::to_string(seed) + " n=1 mix=" + mix + " first=" + std::to_string(i)).c_str());
        hc::count("iterations");
        const char c = mix[static_cast<std::size_t>(i / stride) % mix.size()];
#if PART & 1
        if (c == 's')
        {
            const int letters = r.chance(70) ? static_cast<int>(r.in(1, 3)) : static_cast<int>(r.in(4, 100));
            const relation p{ static_cast<int>(r.chance(40) ? 0 : r.in(0, 7)) };
            const bool big = r() % 200 == 0;
            const ints l = generate(r, big ? (letters < 3 || p.kind ? r.in(200, 500) : r.in(500, r.chance(7) ? 70000 : 5000)) : r.chance(80) ? r.in(0, 9) : r.in(10, 60), letters), q = related(r, l, letters, p);
            if (big) hc::count("long_sequences");
            ctx = "left " + show(l) + " right " + show(q) + " relation " + str(p.kind);
            pairs_iter<F, F>(l, q, p); pairs_iter<F, B>(l, q, p); pairs_iter<F, R>(l, q, p);
            pairs_iter<B, F>(l, q, p); pairs_iter<B, B>(l, q, p); pairs_iter<B, R>(l, q, p);
            pairs_iter<R, F>(l, q, p); pairs_iter<R, B>(l, q, p); pairs_iter<R, R>(l, q, p);
            pairs_cont<ints, ints>(l, q, p); pairs_cont<std::list<int>, ints>(l, q, p); pairs_cont<std::deque<int>, std::list<int>>(l, q, p);
            pairs_cont<std::forward_list<int>, ints>(l, q, p); pairs_cont<ints, std::forward_list<int>>(l, q, p); pairs_cont<std::vector<long>, std::deque<short>>(l, q, p);
            pairs_text<std::string>(l, q, p); pairs_text<std::wstring>(l, q, p); pairs_text<std::u16string>(l, q, p); IF20(pairs_text<s8>(l, q, p);) pairs_text<std::u32string>(l, q, p);
            pairs_text<std::basic_string<char, etraits<char>>>(l, q, p);
            const int e = static_cast<int>(r.in(-1, letters));
            const std::ptrdiff_t len = static_cast<std::ptrdiff_t>(l.size());
            ctx = "sequence " + show(l) + " element " + str(e);
            static const int dummy = 0; const int* base = len ? l.data() : &dummy;
            auto pos = [](auto it) { return it.i; };
            elements_iter(l, e, chk<int, F>{ base, len, 0, "f" }, chk<int, F>{ base, len, len, "f" }, pos, false, std::true_type{});
            elements_iter(l, e, chk<int, R>{ base, len, 0, "r" }, chk<int, R>{ base, len, len, "r" }, pos, true, std::true_type{});
            elements_back(l, e, chk<int, B>{ base, len, 0, "b" }, chk<int, B>{ base, len, len, "b" }, pos);
            elements_back(l, e, chk<int, R>{ base, len, 0, "r" }, chk<int, R>{ base, len, len, "r" }, pos);
            { const block<int> k(l); const int* q0 = k.p.get(); auto off = [q0](const int* x) { return x - q0; }; elements_iter(l, e, q0, q0 + k.n, off, true, std::true_type{}); elements_back(l, e, q0, q0 + k.n, off); }
            elements_cont<ints>(l, e); elements_cont<std::deque<int>>(l, e); elements_cont<std::list<int>>(l, e); elements_cont<std::forward_list<int>>(l, e); elements_cont<std::vector<char>>(l, e);
            mixed_types(r);
            std::uint64_t h = static_cast<std::uint64_t>(p.kind); for (int x : l) h = hc::mix(h, static_cast<std::uint64_t>(x)); h = hc::mix(h, 777); for (int x : q) h = hc::mix(h, static_cast<std::uint64_t>(x));
            hc::distinct(h);
            if (l.size() > 4) hc::sample("left " + show(l) + " right " + show(q) + " relation " + str(p.kind));
        }
#endif
#if PART & 2
        if (c == 'a')
        {
            const int letters = r.chance(60) ? static_cast<int>(r.in(1, 4)) : static_cast<int>(r.in(5, 1000));
            const bool big = r() % 200 == 0;
            ints v = generate(r, big ? r.in(200, r() % 20 == 0 ? 70000 : 3000) : r.chance(70) ? r.in(0, 9) : r.in(10, 120), letters);
            if (big) hc::count("long_sequences");
            if (r.chance(40)) for (int& x : v) x -= letters / 2;
            const int e = v.empty() || r.chance(20) ? static_cast<int>(r.in(-2, 3)) : v[r() % v.size()];
            ctx = show(v) + " element " + str(e);
            algorithms<ints>(v, e, true); algorithms<std::deque<int>>(v, e, true); algorithms<std::list<int>>(v, e, false);
            more_algorithms(v, e);
            std::uint64_t h = static_cast<std::uint64_t>(e); for (int x : v) h = hc::mix(h, static_cast<std::uint64_t>(x));
            hc::distinct(h);
            if (v.size() > 4) hc::sample("container " + ctx);
        }
#endif
#if PART & 4
        if (c == 'k')
        {
            const bool big = r() % 50 == 0;
            const ints v = generate(r, big ? r.in(100, 3000) : r.chance(85) ? r.in(0, 7) : r.in(8, 40), 100);
            if (big) hc::count("long_sequences");
            std::vector<long long> idx{ 0, LLONG_MIN, LLONG_MAX };
            const long long s = static_cast<long long>(v.size());
            for (long long d : { -1LL, 0LL, 1LL }) { idx.push_back(s + d); idx.push_back(-s + d); idx.push_back(d); }
            for (int k = 0; k < 4; ++k) { idx.push_back(r.in(-45, 45)); if (big) idx.back() = r.in(-s - 9, s + 9); idx.push_back(static_cast<long long>(r())); }
            idx.push_back(LLONG_MIN + r.in(0, 50)); idx.push_back(LLONG_MAX - r.in(0, 50)); idx.push_back((1LL << 32) + r.in(-3, 9)); idx.push_back(-(1LL << 32) + r.in(-9, 3));
            ctx = show(v);
            slices<ints>(v, idx); slices<std::list<int>>(v, idx); slices<std::deque<int>>(v, idx); slices<std::string>(v, idx); slices<std::vector<anything>>(v, idx);
            if (s < 8) { ints u = v; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); ctx = "set " + show(u); slices<std::set<int>>(u, idx); }
            std::uint64_t h = 5; for (int x : v) h = hc::mix(h, static_cast<std::uint64_t>(x));
            hc::distinct(h);
            if (v.size() > 3) hc::sample("slices of " + show(v) + " at 23 index values in pairs");
        }
#endif
        if (hc::violations() > 20) break;
    }
    return hc::finish();
}
