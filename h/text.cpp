// Text harness: string.hpp and compare.hpp against naive definitions written on plain code sequences.
// PART 1: splitting, joining, replacing.  2: case-insensitive operations, case mapping and stripping.
// PART 4: binary/octal/hexadecimal texts and text/value conversion.  8: comparators.
#include "pluto/string.hpp"
#include "pluto/compare.hpp"
#include "hc.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <deque>
#include <forward_list>
#include <functional>
#include <iomanip>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <string_view>

#ifndef PART
#define PART 15
#endif

namespace
{
    typedef std::vector<long> codes;
    std::string num(long v) { return std::to_string(v); }
    std::string show(const codes& s)
    {
        std::string o = "\""; std::size_t n = 0; char b[16];
        for (long c : s)
        {
            if (++n > 60) { o += ".."; break; }
            if (c >= 0x21 && c < 0x7f && c != '"' && c != '\\') o += static_cast<char>(c);
            else { std::snprintf(b, sizeof b, "{%lx}", static_cast<unsigned long>(c) & 0xffffffffUL); o += b; }
        }
        return o + "\"";
    }
    std::string ctx;
    void bad(const char* kind, const std::string& what) { hc::violation(kind, what + " for " + ctx); }
    template<class S> codes back(const S& s) { codes o; for (auto c : s) o.push_back(static_cast<long>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same<decltype(c), bool>::value, char, decltype(c)>>>(c))); return o; }
    template<class S> S make(const codes& c) { S s; for (long x : c) s.push_back(static_cast<typename S::value_type>(x)); s.shrink_to_fit(); return s; }
    void same(const char* kind, const char* what, const codes& got, const codes& want)
    {
        hc::count("comparisons");
        if (got != want) bad(kind, std::string(what) + " gives " + show(got) + " instead of " + show(want));
    }
    template<class A, class B> void same_value(const char* kind, const char* what, const A& got, const B& want)
    {
        hc::count("comparisons");
        if (!(got == want)) bad(kind, std::string(what) + " gives " + num(static_cast<long>(got)) + " instead of " + num(static_cast<long>(want)));
    }
    void same_list(const char* what, const std::vector<codes>& got, const std::vector<codes>& want)
    {
        hc::count("comparisons");
        if (got == want) return;
        std::string g, w; for (auto& x : got) g += show(x) + " "; for (auto& x : want) w += show(x) + " ";
        bad("text", std::string(what) + " gives " + g.substr(0, 400) + "instead of " + w.substr(0, 400));
    }
    std::uint64_t key(const codes& c, std::uint64_t h = 7) { for (long x : c) h = hc::mix(h, static_cast<std::uint64_t>(x)); return h; }

    // an exact heap copy, so that reading one element too many is seen
    template<class E> struct block
    {
        std::size_t n; std::unique_ptr<E[]> p;
        explicit block(const codes& c) : n{ c.size() }, p{ new E[c.size()] } { for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<E>(c[i]); }
        const E* at() const { return p.get(); }
    };

    // ---- locales --------------------------------------------------------------------------------------
    // facets nobody else has: they make visible which locale a function really asked
    struct odd_char : std::ctype<char>
    {
        static const mask* table()
        {
            static mask t[table_size]; static bool done = false;
            if (!done)
            {
                std::copy(classic_table(), classic_table() + table_size, t);
                t[static_cast<unsigned char>('_')] = space; t[static_cast<unsigned char>(' ')] = static_cast<mask>(print | punct);
                for (int c = 0xE0; c < 0x100; ++c) t[c] = static_cast<mask>(lower | alpha | print);
                for (int c = 0xC0; c < 0xE0; ++c) t[c] = static_cast<mask>(upper | alpha | print);
                t[static_cast<unsigned char>('q')] = static_cast<mask>(punct | print);
                done = true;
            }
            return t;
        }
        explicit odd_char(std::size_t refs = 0) : std::ctype<char>{ table(), false, refs } {}
        char do_toupper(char c) const override { const auto u = static_cast<unsigned char>(c); if (c == 'q') return c; if (u >= 0xE0) return static_cast<char>(u - 0x20); if (c == '9') return '8'; return std::ctype<char>::do_toupper(c); }
        const char* do_toupper(char* b, const char* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; }
        char do_tolower(char c) const override { const auto u = static_cast<unsigned char>(c); if (c == 'Q') return c; if (u >= 0xC0 && u < 0xE0) return static_cast<char>(u + 0x20); return std::ctype<char>::do_tolower(c); }
        const char* do_tolower(char* b, const char* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; }
    };
    struct odd_wide : std::ctype<wchar_t>
    {
        explicit odd_wide(std::size_t refs = 0) : std::ctype<wchar_t>{ refs } {}
        bool do_is(mask m, wchar_t c) const override { if (c == L'_') return (m & space) != 0; if (c == L' ') return (m & punct) != 0; if (c == L'q') return (m & punct) != 0; if (c == 0x131) return (m & (lower | alpha)) != 0; if (c == 0x130) return (m & (upper | alpha)) != 0; return std::ctype<wchar_t>::do_is(m, c); }
        const wchar_t* do_is(const wchar_t* b, const wchar_t* e, mask* v) const override { for (; b < e; ++b, ++v) { *v = mask{}; for (mask m : { space, print, cntrl, upper, lower, alpha, digit, punct, xdigit, blank }) if (do_is(m, *b)) *v = static_cast<mask>(*v | m); } return e; }
        const wchar_t* do_scan_is(mask m, const wchar_t* b, const wchar_t* e) const override { while (b < e && !do_is(m, *b)) ++b; return b; }
        const wchar_t* do_scan_not(mask m, const wchar_t* b, const wchar_t* e) const override { while (b < e && do_is(m, *b)) ++b; return b; }
        wchar_t do_toupper(wchar_t c) const override { if (c == L'i') return static_cast<wchar_t>(0x130); if (c == 0x131) return L'I'; if (c == L'q') return c; if (c == L'9') return L'8'; return std::ctype<wchar_t>::do_toupper(c); }
        const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; }
        wchar_t do_tolower(wchar_t c) const override { if (c == L'I') return static_cast<wchar_t>(0x131); if (c == 0x130) return L'i'; if (c == L'Q') return c; return std::ctype<wchar_t>::do_tolower(c); }
        const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; }
    };
    template<class E> struct odd_of { typedef odd_char type; };
    template<> struct odd_of<wchar_t> { typedef odd_wide type; };
    template<class E> std::locale odd() { return std::locale{ std::locale::classic(), new typename odd_of<E>::type{} }; }
    struct named { const char* name; std::locale loc; };
    template<class E> const std::vector<named>& locales()
    {
        static const std::vector<named> v = []
        {
            std::vector<named> l{ { "C", std::locale::classic() }, { "odd", odd<E>() } };
            for (const char* n : { "en_US.UTF-8", "C.UTF-8" }) try { l.push_back({ n, std::locale{ n } }); } catch (const std::runtime_error&) {}
            return l;
        }();
        return v;
    }
    template<class E> const std::ctype<E>& facet(const std::locale& l) { return std::use_facet<std::ctype<E>>(l); }
    template<class E> long up(const std::locale& l, long c) { return back(std::basic_string<E>(1, facet<E>(l).toupper(static_cast<E>(c))))[0]; }
    template<class E> long down(const std::locale& l, long c) { return back(std::basic_string<E>(1, facet<E>(l).tolower(static_cast<E>(c))))[0]; }
    template<class E> bool is(const std::locale& l, std::ctype_base::mask m, long c) { return facet<E>(l).is(m, static_cast<E>(c)); }
    template<class E> codes mapped(const std::locale& l, const codes& s) { codes o; for (long c : s) o.push_back(up<E>(l, c)); return o; }

    // traits under which upper and lower case ASCII letters are the same character
    template<class E> struct ci : std::char_traits<E>
    {
        static long f(E c) { const long x = static_cast<long>(c); return x >= 'A' && x <= 'Z' ? x + 32 : x; }
        static bool eq(E a, E b) { return f(a) == f(b); }
        static bool lt(E a, E b) { return f(a) < f(b); }
        static int compare(const E* a, const E* b, std::size_t n) { for (; n; --n, ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; }
        static const E* find(const E* p, std::size_t n, const E& c) { for (; n; --n, ++p) if (eq(*p, c)) return p; return nullptr; }
    };
    typedef std::function<bool(long, long)> equality;

    codes generate(hc::rng& r, const std::vector<long>& alphabet, long maxlen) { codes c; for (long n = r.in(0, maxlen); n > 0; --n) c.push_back(alphabet[r() % alphabet.size()]); return c; }

#if PART & 1
    // ---- definitions ------------------------------------------------------------------------------------
    bool here(const codes& s, std::size_t i, const codes& f, const equality& eq) { if (i + f.size() > s.size()) return false; for (std::size_t k = 0; k < f.size(); ++k) if (!eq(s[i + k], f[k])) return false; return true; }
    std::vector<codes> d_split(const codes& s, const codes& sep, const equality& eq)
    {
        std::vector<codes> o;
        if (sep.empty()) { for (long c : s) o.push_back({ c }); return o; }
        o.push_back({});
        for (std::size_t i = 0; i < s.size();) if (here(s, i, sep, eq)) { o.push_back({}); i += sep.size(); } else o.back().push_back(s[i++]);
        return o;
    }
    template<class T> std::vector<codes> d_runs(const codes& s, T is_sep)
    {
        std::vector<codes> o; bool in = false;
        for (long c : s) if (is_sep(c)) in = false; else { if (!in) o.push_back({}); in = true; o.back().push_back(c); }
        return o;
    }
    codes d_join(const std::vector<codes>& v, const codes& sep) { codes o; bool any = false; for (auto& x : v) { if (any) o.insert(o.end(), sep.begin(), sep.end()); any = true; o.insert(o.end(), x.begin(), x.end()); } return o; }
    codes d_replace(const codes& s, const codes& f, const codes& w, const equality& eq)
    {
        codes o;
        if (f.empty()) { o = w; for (long c : s) { o.push_back(c); o.insert(o.end(), w.begin(), w.end()); } return o; }
        for (std::size_t i = 0; i < s.size();) if (here(s, i, f, eq)) { o.insert(o.end(), w.begin(), w.end()); i += f.size(); } else o.push_back(s[i++]);
        return o;
    }
    codes d_replace_any(const codes& s, const codes& f, const codes& w, const equality& eq)
    {
        codes o;
        for (long c : s) if (std::any_of(f.begin(), f.end(), [&](long x) { return eq(c, x); })) o.insert(o.end(), w.begin(), w.end()); else o.push_back(c);
        return o;
    }
    template<class S> std::vector<codes> lists(const std::vector<S>& v) { std::vector<codes> o; for (auto& x : v) o.push_back(back(x)); return o; }

    // a single-pass range over strings: all copies share one position
    template<class S> struct once
    {
        typedef std::input_iterator_tag iterator_category; typedef S value_type; typedef std::ptrdiff_t difference_type; typedef const S* pointer; typedef const S& reference;
        const std::vector<S>* v = nullptr; std::shared_ptr<std::size_t> i;
        bool done() const { return !v || *i == v->size(); }
        reference operator*() const { return (*v)[*i]; }
        once& operator++() { ++*i; return *this; }
        pointer operator->() const { return &**this; }
        struct held { S value; const S& operator*() const { return value; } };
        held operator++(int) { held h{ **this }; ++*i; return h; }
        friend bool operator==(const once& a, const once& b) { return a.done() == b.done(); }
        friend bool operator!=(const once& a, const once& b) { return !(a == b); }
    };

    template<class S> void pieces(const codes& text, const codes& sep, const codes& with, const equality& eq, bool exact)
    {
        typedef typename S::value_type E;
        const S s = make<S>(text), f = make<S>(sep), w = make<S>(with);
        const auto want = d_split(text, sep, eq);
        const std::vector<S> got = pluto::split(s, f);
        same_list("split", lists(got), want);
        same_list("split_any_of", lists(std::vector<S>(pluto::split_any_of(s, f))), d_runs(text, [&](long c) { return std::any_of(sep.begin(), sep.end(), [&](long x) { return eq(c, x); }); }));
        if (exact) same("text", "join of split", back(S(pluto::join(got, f))), text);
        { S m = s; pluto::replace(m, f, w); same("text", "replace", back(m), d_replace(text, sep, with, eq)); }
        { S m = s; pluto::replace_any_of(m, f, w); same("text", "replace_any_of", back(m), d_replace_any(text, sep, with, eq)); }
        if (back(s) != text || back(f) != sep || back(w) != with) bad("text", "an argument was changed");
        if constexpr (std::is_same<S, std::string>::value || std::is_same<S, std::wstring>::value)
            if (std::find(text.begin(), text.end(), 0) == text.end() && std::find(sep.begin(), sep.end(), 0) == sep.end() && std::find(with.begin(), with.end(), 0) == with.end())
            {   // zero-terminated arguments
                same_list("split of terminated text", lists(std::vector<S>(pluto::split(s.c_str(), f.c_str()))), want);
                same_list("split_any_of of terminated text", lists(std::vector<S>(pluto::split_any_of(s.c_str(), f.c_str()))), lists(std::vector<S>(pluto::split_any_of(s, f))));
                if (exact) same("text", "join with a terminated separator", back(S(pluto::join(got, f.c_str()))), text);
                { S m = s; pluto::replace(m, f.c_str(), w.c_str()); same("text", "replace of terminated text", back(m), d_replace(text, sep, with, eq)); }
                { S m = s; pluto::replace_any_of(m, f.c_str(), w.c_str()); same("text", "replace_any_of of terminated text", back(m), d_replace_any(text, sep, with, eq)); }
            }
        // joining: containers, iterators, pointers, views, mapped
        const codes joined = d_join(want, with);
        std::vector<S> v; for (auto& x : want) v.push_back(make<S>(x));
        const std::list<S> l(v.begin(), v.end()); const std::deque<S> d(v.begin(), v.end()); const std::forward_list<S> fl(v.begin(), v.end());
        same("text", "join of a vector", back(S(pluto::join(v, w))), joined);
        same("text", "join of a list", back(S(pluto::join(l, w))), joined);
        same("text", "join of a deque", back(S(pluto::join(d, w))), joined);
        same("text", "join of a forward_list", back(S(pluto::join(fl, w))), joined);
        same("text", "join of iterators", back(S(pluto::join(v.begin(), v.end(), w))), joined);
        same("text", "join of list iterators", back(S(pluto::join(l.begin(), l.end(), w))), joined);
        same("text", "join of pointers", back(S(pluto::join(v.data(), v.data() + v.size(), w))), joined);
        same("text", "join of a single-pass range", back(S(pluto::join(once<S>{ &v, std::make_shared<std::size_t>(0) }, once<S>{}, w))), joined);
        if (v.size() > 1)
        {
            std::vector<codes> part(want.begin() + 1, want.end());
            same("text", "join of a part", back(S(pluto::join(v.begin() + 1, v.end(), w))), d_join(part, with));
            std::vector<codes> rev(want.rbegin(), want.rend());
            same("text", "join backwards", back(S(pluto::join(v.rbegin(), v.rend(), w))), d_join(rev, with));
            const std::array<S, 2> a{ { v[0], v[1] } };
            same("text", "join of an array", back(S(pluto::join(a, w))), d_join({ want[0], want[1] }, with));
        }
        if (std::find(text.begin(), text.end(), 0) == text.end())
        {   // elements that are zero-terminated pointers
            std::vector<const E*> p; for (auto& x : v) p.push_back(x.c_str());
            same("text", "join of pointers to text", back(S(pluto::join(p, w))), joined);
        }
        std::vector<std::size_t> calls;
        std::vector<std::size_t> idx(v.size()); for (std::size_t i = 0; i < idx.size(); ++i) idx[i] = i;
        auto fn = [&](std::size_t i) { calls.push_back(i); return v[i] + w; };
        std::vector<codes> mapd; for (auto& x : want) { codes c = x; c.insert(c.end(), with.begin(), with.end()); mapd.push_back(c); }
        const codes mj = d_join(mapd, sep);
        same("text", "map_join", back(S(pluto::map_join(idx, f, fn))), mj);
        if (calls != idx) bad("text", "map_join does not call the function once for each element in order");
        calls.clear();
        same("text", "map_join of iterators", back(S(pluto::map_join(idx.begin(), idx.end(), f, fn))), mj);
        if (calls != idx) bad("text", "map_join of iterators does not call the function once for each element in order");
        same("text", "map_join of a single-pass range", back(S(pluto::map_join(once<S>{ &v, std::make_shared<std::size_t>(0) }, once<S>{}, f, [&](const S& x) { return x + w; }))), mj);
        // a function with a state of its own
        long k = 0; codes kj; for (std::size_t i = 0; i < v.size(); ++i) { if (i) kj.insert(kj.end(), sep.begin(), sep.end()); kj.push_back('a' + static_cast<long>(i % 26)); }
        same("text", "map_join with a stateful function", back(S(pluto::map_join(v, f, [k](const S&) mutable { return S(1, static_cast<E>('a' + (k++) % 26)); }))), kj);
    }
    template<class S> void spaces(const codes& text)
    {
        typedef typename S::value_type E;
        const S s = make<S>(text);
        std::locale here;
        for (auto& l : locales<E>())
        {
            here = l.loc;       // (one variable that holds one locale after another)
            const std::string old = ctx; ctx += std::string(" in locale ") + l.name;
            same_list("split at spaces", lists(std::vector<S>(pluto::split(s, here))), d_runs(text, [&](long c) { return is<E>(l.loc, std::ctype_base::space, c); }));
            ctx = old;
        }
        static const std::locale def{ "en_US.UTF-8" };
        same_list("split at spaces of the default locale", lists(std::vector<S>(pluto::split(s))), d_runs(text, [&](long c) { return is<E>(def, std::ctype_base::space, c); }));
    }
    std::vector<long> alphabet(hc::rng& r, long top)
    {
        static const std::vector<long> all{ 'a', 'b', 'A', 'B', ' ', ',', '\t', '\n', 0, 0x7f, 0x80, 0xff, '_', 0x20AC, 0x3000, 0x2003, 0xA0, 0x85, 0xFFFF, 0x1F600, 0x10FFFF };
        std::vector<long> o;
        for (long n = r.chance(60) ? r.in(1, 3) : r.in(4, 9); n > 0; --n) { long c = all[r() % all.size()]; if (c > top) c = 'a'; o.push_back(c); }
        return o;
    }
    void part1(hc::rng& r)
    {
        const int width = static_cast<int>(r.in(0, 2));
        const long top = width == 0 ? 0xff : width == 1 ? 0xFFFF : 0x10FFFF;
        const auto abc = alphabet(r, top);
        const codes text = generate(r, abc, r() % 250 == 0 ? (r.chance(10) ? 90000 : 9000) : r.chance(85) ? 12 : 200);
        if (text.size() > 200) hc::count("long_texts");
        codes sep = generate(r, abc, r.chance(70) ? 2 : 4);
        const codes with = generate(r, abc, r.chance(70) ? 3 : 9);
        if (!text.empty() && r.chance(30)) { const std::size_t a = r() % text.size(); sep.assign(text.begin() + static_cast<long>(a), text.begin() + static_cast<long>(std::min(text.size(), a + 1 + r() % 3))); }
        ctx = "text " + show(text) + " separator " + show(sep) + " replacement " + show(with);
        const equality plain = [](long a, long b) { return a == b; };
        const equality folded = [](long a, long b) { return ci<char32_t>::f(static_cast<char32_t>(a)) == ci<char32_t>::f(static_cast<char32_t>(b)); };
        if (width == 0) { pieces<std::string>(text, sep, with, plain, true); IF20(pieces<s8>(text, sep, with, plain, true);) pieces<std::basic_string<char, ci<char>>>(text, sep, with, folded, false); spaces<std::string>(text); spaces<std::basic_string<char, ci<char>>>(text); }
        if (width == 1) pieces<std::u16string>(text, sep, with, plain, true);
        if (width == 2) pieces<std::u32string>(text, sep, with, plain, true);
        if (width != 1) { pieces<std::wstring>(text, sep, with, plain, true); spaces<std::wstring>(text); }
        hc::distinct(key(text, key(sep, key(with))));
        if (text.size() > 6) hc::sample(ctx);
    }
#endif

#if PART & 2
    // ---- case-insensitive operations -----------------------------------------------------------------------
    struct truth { bool equal, starts, ends, contains; long first, last; };
    truth define(const codes& l, const codes& r)
    {
        truth t{}; const std::size_t n = l.size(), m = r.size();
        auto at = [&](std::size_t i) { for (std::size_t k = 0; k < m; ++k) if (l[i + k] != r[k]) return false; return true; };
        t.equal = l == r; t.starts = m <= n && at(0); t.ends = m <= n && at(n - m); t.first = t.last = static_cast<long>(n);
        for (std::size_t i = 0; i + m <= n; ++i) if (at(i)) { if (!t.contains) t.first = static_cast<long>(i); t.contains = true; t.last = static_cast<long>(i); }
        if (m == 0) { t.first = 0; t.last = static_cast<long>(n); t.contains = true; }
        return t;
    }
    template<class S> void insensitive_strings(const S& a, const S& b, const truth& t, const std::locale* l)
    {
        const char* k = "insensitive";
        if (l)
        {
            same_value(k, "iequals", pluto::iequals(a, b, *l), t.equal);
            same_value(k, "istarts_with", pluto::istarts_with(a, b, *l), t.starts);
            same_value(k, "iends_with", pluto::iends_with(a, b, *l), t.ends);
            same_value(k, "icontains", pluto::icontains(a, b, *l), t.contains);
            same_value(k, "ifind", static_cast<long>(pluto::ifind(a, b, *l) - a.begin()), t.first);
            IF17(same_value(k, "irfind", static_cast<long>(pluto::irfind(a, b, *l) - a.begin()), t.last));
        }
        else
        {
            same_value(k, "iequals (default locale)", pluto::iequals(a, b), t.equal);
            same_value(k, "istarts_with (default locale)", pluto::istarts_with(a, b), t.starts);
            same_value(k, "iends_with (default locale)", pluto::iends_with(a, b), t.ends);
            same_value(k, "icontains (default locale)", pluto::icontains(a, b), t.contains);
            same_value(k, "ifind (default locale)", static_cast<long>(pluto::ifind(a, b) - a.begin()), t.first);
            IF17(same_value(k, "irfind (default locale)", static_cast<long>(pluto::irfind(a, b) - a.begin()), t.last));
        }
    }
    template<class E> void insensitive_pointers(const codes& x, const codes& y, const truth& t, const std::locale* l)
    {
        const char* k = "insensitive";
        const block<E> a(x), b(y); const E* p = a.at(); const E* q = b.at(); const std::size_t n = a.n, m = b.n;
        if (l)
        {
            same_value(k, "iequals of pointers", pluto::iequals(p, n, q, m, *l), t.equal);
            same_value(k, "istarts_with of pointers", pluto::istarts_with(p, n, q, m, *l), t.starts);
            same_value(k, "iends_with of pointers", pluto::iends_with(p, n, q, m, *l), t.ends);
            same_value(k, "icontains of pointers", pluto::icontains(p, n, q, m, *l), t.contains);
            same_value(k, "ifind of pointers", static_cast<long>(pluto::ifind(p, n, q, m, *l) - p), t.first);
            IF17(same_value(k, "irfind of pointers", static_cast<long>(pluto::irfind(p, n, q, m, *l) - p), t.last));
        }
        else
        {
            same_value(k, "iequals of pointers (default locale)", pluto::iequals(p, n, q, m), t.equal);
            same_value(k, "istarts_with of pointers (default locale)", pluto::istarts_with(p, n, q, m), t.starts);
            same_value(k, "iends_with of pointers (default locale)", pluto::iends_with(p, n, q, m), t.ends);
            same_value(k, "icontains of pointers (default locale)", pluto::icontains(p, n, q, m), t.contains);
            same_value(k, "ifind of pointers (default locale)", static_cast<long>(pluto::ifind(p, n, q, m) - p), t.first);
            IF17(same_value(k, "irfind of pointers (default locale)", static_cast<long>(pluto::irfind(p, n, q, m) - p), t.last));
        }
    }
    template<class E> void insensitive(const codes& x, const codes& y)
    {
        typedef std::basic_string<E> S; typedef std::basic_string<E, ci<E>> C;
        static const std::locale def{ "en_US.UTF-8" };
        const S a = make<S>(x), b = make<S>(y); const C c = make<C>(x), d = make<C>(y);
        const std::string old = ctx;
        std::locale here;
        for (auto& l : locales<E>())
        {
            here = l.loc;
            ctx = old + " in locale " + l.name;
            const truth t = define(mapped<E>(l.loc, x), mapped<E>(l.loc, y));
            insensitive_strings(a, b, t, &here); insensitive_strings(c, d, t, &l.loc); insensitive_pointers<E>(x, y, t, &here);
        }
        ctx = old;
        const truth t = define(mapped<E>(def, x), mapped<E>(def, y));
        insensitive_strings(a, b, t, nullptr); insensitive_strings(c, d, t, nullptr); insensitive_pointers<E>(x, y, t, nullptr);
        if (std::find(x.begin(), x.end(), 0) == x.end()) same_value("insensitive", "iequals of terminated text", pluto::iequals(a.c_str(), b), t.equal);
    }

    // ---- case mapping, case tests, stripping ---------------------------------------------------------------
    template<class E, class S> void casing(const codes& x, const std::locale& l, bool use_default)
    {
        const char* k = "case";
        codes lo, hi; bool all_lo = true, all_hi = true;
        for (long c : x) { lo.push_back(down<E>(l, c)); hi.push_back(up<E>(l, c)); if (is<E>(l, std::ctype_base::upper, c)) all_lo = false; if (is<E>(l, std::ctype_base::lower, c)) all_hi = false; }
        const S s = make<S>(x);
        S m = s; if (use_default) pluto::lower(m); else pluto::lower(m, l); same(k, "lower", back(m), lo);
        m = s; if (use_default) pluto::upper(m); else pluto::upper(m, l); same(k, "upper", back(m), hi);
        same_value(k, "is_lower", use_default ? pluto::is_lower(s) : pluto::is_lower(s, l), all_lo);
        same_value(k, "is_upper", use_default ? pluto::is_upper(s) : pluto::is_upper(s, l), all_hi);
        const block<E> b(x);
        same_value(k, "is_lower of a pointer", use_default ? pluto::is_lower(b.at(), b.n) : pluto::is_lower(b.at(), b.n, l), all_lo);
        same_value(k, "is_upper of a pointer", use_default ? pluto::is_upper(b.at(), b.n) : pluto::is_upper(b.at(), b.n, l), all_hi);
        { block<E> w(x); if (use_default) pluto::lower(w.p.get(), w.n); else pluto::lower(w.p.get(), w.n, l); same(k, "lower of a pointer", back(std::basic_string<E>(w.at(), w.n)), lo); }
        { block<E> w(x); if (use_default) pluto::upper(w.p.get(), w.n); else pluto::upper(w.p.get(), w.n, l); same(k, "upper of a pointer", back(std::basic_string<E>(w.at(), w.n)), hi); }
        for (std::size_t i = 0; i < x.size() && i < 12; ++i)
        {
            const E c = static_cast<E>(x[i]);
            same(k, "lower of a character", back(std::basic_string<E>(1, use_default ? pluto::lower(c) : pluto::lower(c, l))), { lo[i] });
            same(k, "upper of a character", back(std::basic_string<E>(1, use_default ? pluto::upper(c) : pluto::upper(c, l))), { hi[i] });
            same_value(k, "is_lower of a character", use_default ? pluto::is_lower(c) : pluto::is_lower(c, l), !is<E>(l, std::ctype_base::upper, x[i]));
            same_value(k, "is_upper of a character", use_default ? pluto::is_upper(c) : pluto::is_upper(c, l), !is<E>(l, std::ctype_base::lower, x[i]));
        }
        // only a part of a longer buffer
        codes wide{ 'A', 'a' }; wide.insert(wide.end(), x.begin(), x.end()); wide.push_back('A'); wide.push_back('a');
        { block<E> w(wide); pluto::lower(w.p.get() + 2, x.size(), l); codes e{ 'A', 'a' }; e.insert(e.end(), lo.begin(), lo.end()); e.push_back('A'); e.push_back('a'); same(k, "lower inside a buffer", back(std::basic_string<E>(w.at(), w.n)), e); }
        { block<E> w(wide); pluto::upper(w.p.get() + 2, x.size(), l); codes e{ 'A', 'a' }; e.insert(e.end(), hi.begin(), hi.end()); e.push_back('A'); e.push_back('a'); same(k, "upper inside a buffer", back(std::basic_string<E>(w.at(), w.n)), e); }
        // stripping
        std::size_t i = 0, j = x.size();
        while (i < j && is<E>(l, std::ctype_base::space, x[i])) ++i;
        const codes ls(x.begin() + static_cast<long>(i), x.end());
        i = 0; while (j > 0 && is<E>(l, std::ctype_base::space, x[j - 1])) --j;
        const codes rs(x.begin(), x.begin() + static_cast<long>(j));
        codes both = rs; while (!both.empty() && is<E>(l, std::ctype_base::space, both.front())) both.erase(both.begin());
        m = s; if (use_default) pluto::lstrip(m); else pluto::lstrip(m, l); same(k, "lstrip", back(m), ls);
        m = s; if (use_default) pluto::rstrip(m); else pluto::rstrip(m, l); same(k, "rstrip", back(m), rs);
        m = s; if (use_default) pluto::strip(m); else pluto::strip(m, l); same(k, "strip", back(m), both);
    }
    template<class E> void casings(const codes& x)
    {
        const std::string old = ctx;
        std::locale here;
        for (auto& l : locales<E>()) { here = l.loc; ctx = old + " in locale " + l.name; casing<E, std::basic_string<E>>(x, here, false); if (l.name[0] == 'o') casing<E, std::basic_string<E, ci<E>>>(x, l.loc, false); }
        static const std::locale def{ "en_US.UTF-8" };
        ctx = old + " in the default locale"; casing<E, std::basic_string<E>>(x, def, true);
        ctx = old;
    }
    const std::vector<long>& letters(bool wide)
    {
        static const std::vector<long> n{ 'a', 'A', 'b', 'B', 'i', 'I', 'q', 'Q', 'z', 'Z', '@', '[', '`', '{', '8', '9', '_', ' ', 0, 0x7f, 0x80, 0xC0, 0xE0, 0xFF, 0xDF, 0xC5, 0xE5 };
        static const std::vector<long> w{ 'a', 'A', 'b', 'B', 'i', 'I', 'q', 'Q', 's', 'S', 'k', 'K', '8', '9', '_', ' ', 0, 0xE9, 0xC9, 0xFF, 0x178, 0xB5, 0x39C, 0x3BC, 0x17F, 0x131, 0x130, 0x212A, 0xDF, 0x1E9E, 0x3C2, 0x3C3, 0x3A3, 0x1C4, 0x1C5, 0x1C6, 0x430, 0x410, 0x10428, 0x10400, 0x2003, 0x3000, 0xA0 };
        return wide ? w : n;
    }
    void part2(hc::rng& r, char mix)
    {
        const bool wide = r.chance(50);
        std::vector<long> abc; const auto& all = letters(wide);
        for (long n = r.chance(50) ? r.in(1, 4) : r.in(5, 12); n > 0; --n) abc.push_back(all[r() % all.size()]);
        if (mix == 'i')
        {
            const codes x = generate(r, abc, r() % 250 == 0 ? 5000 : r.chance(85) ? 10 : 60);
            if (x.size() > 60) hc::count("long_texts");
            codes y;
            auto twin = [&](codes c) { for (long& q : c) if (r.chance(60)) { const auto& l = wide ? locales<wchar_t>()[r() % locales<wchar_t>().size()].loc : locales<char>()[r() % locales<char>().size()].loc; q = wide ? (r.chance(50) ? up<wchar_t>(l, q) : down<wchar_t>(l, q)) : (r.chance(50) ? up<char>(l, q) : down<char>(l, q)); } return c; };
            const long what = r.in(0, 3);
            if (what == 0) y = twin(x);
            else if (what == 1) { const std::size_t a = r() % (x.size() + 1), b = a + r() % (x.size() - a + 1); y = twin(codes(x.begin() + static_cast<long>(a), x.begin() + static_cast<long>(b))); }
            else if (what == 2) { y = twin(x); if (!y.empty()) { if (r.chance(50)) y[r() % y.size()] = abc[r() % abc.size()]; else if (r.chance(50)) y.pop_back(); else y.push_back(abc[0]); } }
            else y = generate(r, abc, 4);
            ctx = std::string(wide ? "wide " : "narrow ") + show(x) + " and " + show(y);
            if (wide) insensitive<wchar_t>(x, y); else insensitive<char>(x, y);
            hc::distinct(key(x, key(y, wide)));
            if (x.size() > 4) hc::sample(ctx);
        }
        else
        {
            codes x = generate(r, abc, r() % 250 == 0 ? 5000 : r.chance(85) ? 8 : 40);
            if (x.size() > 60) hc::count("long_texts");
            const std::vector<long> sp = wide ? std::vector<long>{ ' ', '\t', '\n', '_', 0x2003, 0x3000, '\r' } : std::vector<long>{ ' ', '\t', '\n', '\v', '\f', '\r', '_' };
            if (r.chance(70)) { codes l = generate(r, sp, 3); x.insert(x.begin(), l.begin(), l.end()); }
            if (r.chance(70)) { codes l = generate(r, sp, 3); x.insert(x.end(), l.begin(), l.end()); }
            ctx = std::string(wide ? "wide " : "narrow ") + show(x);
            if (wide) casings<wchar_t>(x); else casings<char>(x);
            hc::distinct(key(x, wide));
            if (x.size() > 4) hc::sample(ctx);
        }
    }
    // every character alone
    void every(char mix, long first, long stride)
    {
        for (long c = first; c < 0x110000 && hc::violations() < 20; c += stride)
        {
            if (c >= 256 && c >= 0x20000 && c % 64 >= stride) continue;
            hc::on_step(("mix=" + std::string(1, mix) + " n=1 first=" + num(c) + " stride=1114112").c_str());
            hc::count("iterations"); ctx = "character " + show({ c });
            const codes x{ c };
            if (c < 256) casings<char>(x);
            casings<wchar_t>(x);
            hc::distinct(static_cast<std::uint64_t>(c));
        }
    }
#endif

#if PART & 4
    // ---- binary, octal, hexadecimal ------------------------------------------------------------------------
    typedef unsigned __int128 u128;
    std::string digits(u128 v, unsigned base, const char* prefix) { std::string d; do { d.insert(d.begin(), "0123456789abcdef"[static_cast<unsigned>(v % base)]); v /= base; } while (v); return prefix + d; }
    template<class T> u128 pattern(T v) { u128 u = static_cast<u128>(v); const unsigned w = sizeof(T) * 8; if (w < 128) u &= (static_cast<u128>(1) << w) - 1; return u; }
    void same_text(const char* kind, const char* what, const std::string& got, const std::string& want) { hc::count("comparisons"); if (got != want) bad(kind, std::string(what) + " gives \"" + got.substr(0, 200) + "\" instead of \"" + want.substr(0, 200) + "\""); }
    template<class T> void radix(T v, const char* name)
    {
        const u128 u = pattern(v);
        ctx = std::string(name) + " value " + digits(u, 16, "0x");
        same_text("radix", "bin", pluto::bin(v), digits(u, 2, "0b"));
        same_text("radix", "oct", pluto::oct(v), digits(u, 8, "0o"));
        same_text("radix", "hex", pluto::hex(v), digits(u, 16, "0x"));
    }
    template<class T> void radix_all(hc::rng& r, const char* name)
    {
        const unsigned w = sizeof(T) * 8;
        for (unsigned k = 0; k < w; ++k)
        {
            const u128 b = static_cast<u128>(1) << k;
            if (!r.chance(w > 16 ? 20 : 5)) continue;
            radix(static_cast<T>(b), name); radix(static_cast<T>(b - 1), name); radix(static_cast<T>(b + 1), name); radix(static_cast<T>(~b), name); radix(static_cast<T>(-b), name);
        }
        for (int k = 0; k < 6; ++k)
        {
            u128 x = (static_cast<u128>(r()) << 64) | r(); x >>= r.in(0, 127); if (r.chance(30)) x = ~x; if (r.chance(30)) x &= ~static_cast<u128>(0) << r.in(0, 60);
            radix(static_cast<T>(x), name);
        }
        radix(std::numeric_limits<T>::min(), name); radix(std::numeric_limits<T>::max(), name); radix(static_cast<T>(0), name); radix(static_cast<T>(-1), name); radix(static_cast<T>(1), name);
    }
    void part_b(hc::rng& r, long i)
    {
        radix(false, "bool"); radix(true, "bool");
        const long base = (i * 64) & 0xffff;
        for (long v = base; v < base + 64; ++v) { radix(static_cast<short>(v), "short"); radix(static_cast<unsigned short>(v), "unsigned short"); radix(static_cast<char16_t>(v), "char16_t"); }
        for (long v = (i * 8) & 0xff, e = v + 8; v < e; ++v) { radix(static_cast<signed char>(v), "signed char"); radix(static_cast<unsigned char>(v), "unsigned char"); radix(static_cast<char>(v), "char"); radix(static_cast<c8>(v), "c8"); }
        radix_all<int>(r, "int"); radix_all<unsigned>(r, "unsigned"); radix_all<long>(r, "long"); radix_all<unsigned long>(r, "unsigned long");
        radix_all<long long>(r, "long long"); radix_all<unsigned long long>(r, "unsigned long long"); radix_all<wchar_t>(r, "wchar_t"); radix_all<char32_t>(r, "char32_t"); radix_all<short>(r, "short");
        hc::distinct(r());
        hc::sample("every integer type, values around powers of two, random values and 16-bit values from " + num(base));
    }

    // ---- text and values -----------------------------------------------------------------------------------
    struct point
    {
        int x; int y;       // trivially default constructible on purpose
        bool operator==(const point& o) const { return x == o.x && y == o.y; }
    };
    template<class C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const point& p) { return o << p.x << static_cast<C>(' ') << p.y; }
    template<class C> std::basic_istream<C>& operator>>(std::basic_istream<C>& i, point& p) { return i >> p.x >> p.y; }
    struct raw { codes c; };
    template<class C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const raw& r) { for (long c : r.c) o << static_cast<C>(c); return o; }
    struct picky { int v = 42; explicit picky() = default; bool operator==(const picky& o) const { return v == o.v; } };
    template<class C> std::basic_istream<C>& operator>>(std::basic_istream<C>& i, picky& p) { int q; if (i >> q && q >= 0) p.v = q; return i; }
    template<class T> bool equal(const T& a, const T& b) { return a == b; }
    template<class T> bool equal_f(T a, T b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
    bool equal(float a, float b) { return equal_f(a, b); }
    bool equal(double a, double b) { return equal_f(a, b); }
    bool equal(long double a, long double b) { return equal_f(a, b); }
    [[gnu::noinline]] void dirty_stack(unsigned char b) { volatile unsigned char a[4096]; for (auto& x : a) x = b; }
    template<class V> void parse(const codes& text, const char* name)
    {
        const std::string s = make<std::string>(text); std::wstring w; for (unsigned char c : s) w += static_cast<wchar_t>(c);
        V want{}; { std::istringstream in(s); in >> want; }
        const std::string old = ctx; ctx = std::string(name) + " from " + show(text);
        for (int k = 0; k < 2; ++k)
        {
            hc::count("comparisons", 2);
            dirty_stack(k ? 0xff : 0x5a);
            if (!equal(pluto::str_to<V>(s), want)) bad("value", "str_to is not what extraction into a value-initialised object gives");
            const block<char> b(text);
            dirty_stack(k ? 0xff : 0x5a);
            if (!equal(pluto::str_to<V>(b.at(), b.n), want)) bad("value", "str_to of a pointer is not what extraction into a value-initialised object gives");
        }
        if constexpr (!std::is_same<V, signed char>::value && !std::is_same<V, unsigned char>::value && !std::is_same<V, std::string>::value && !std::is_same<V, char>::value)
        {
            V wide{}; { std::wistringstream in(w); in >> wide; }
            for (int k = 0; k < 2; ++k)
            {
                hc::count("comparisons", 2);
                dirty_stack(k ? 0xff : 0x5a);
                if (!equal(pluto::wstr_to<V>(w), wide)) bad("value", "wstr_to is not what extraction into a value-initialised object gives");
                const block<wchar_t> b(text);
                dirty_stack(k ? 0xff : 0x5a);
                if (!equal(pluto::wstr_to<V>(b.at(), b.n), wide)) bad("value", "wstr_to of a pointer is not what extraction into a value-initialised object gives");
            }
        }
        ctx = old;
    }
    template<class T> void format(const T& v, const char* name)
    {
        std::ostringstream o; o << v; std::wostringstream wo; wo << v;
        ctx = std::string(name) + " " + o.str().substr(0, 80);
        same_text("value", "str", pluto::str(v), o.str());
        same("value", "wstr", back(pluto::wstr(v)), back(wo.str()));
    }
    template<class T> void trip(T v, const char* name)
    {
        format(v, name);
        hc::count("comparisons", 2);
        if (!equal(pluto::str_to<T>(pluto::str(v)), v)) bad("value", "the value does not survive str and str_to");
        if constexpr (!std::is_same<T, signed char>::value && !std::is_same<T, unsigned char>::value && !std::is_same<T, char>::value)
            if (!equal(pluto::wstr_to<T>(pluto::wstr(v)), v)) bad("value", "the value does not survive wstr and wstr_to");
    }
    template<class T> void trips(hc::rng& r, const char* name)
    {
        trip(std::numeric_limits<T>::min(), name); trip(std::numeric_limits<T>::max(), name); trip(static_cast<T>(0), name); trip(static_cast<T>(-1), name);
        for (int k = 0; k < 4; ++k) trip(static_cast<T>(r() >> r.in(0, 63)), name);
    }
    template<class T> void floats(hc::rng& r, const char* name)
    {
        for (int k = 0; k < 4; ++k)
        {   // six significant digits are what default precision keeps
            T v = static_cast<T>(r.in(-999999, 999999)); const long e = r.in(-20, 20); for (long i = 0; i < e; ++i) v *= 10; for (long i = e; i < 0; ++i) v /= 10;
            format(v, name); format(static_cast<T>(std::ldexp(static_cast<double>(r() >> 12), static_cast<int>(r.in(-100, 60)))), name);
            const std::string s = pluto::str(v); const T again = pluto::str_to<T>(s); ctx = std::string(name) + " " + s;
            same_text("value", "the text of the value read back", pluto::str(again), s);
            hc::count("comparisons");
            if (std::abs(again - v) > std::abs(v) * static_cast<T>(5.1e-6)) bad("value", "the value read back is further away than the text precision allows");
        }
        format(std::numeric_limits<T>::infinity(), name); format(std::numeric_limits<T>::quiet_NaN(), name); format(static_cast<T>(-0.0), name); format(std::numeric_limits<T>::max(), name); format(std::numeric_limits<T>::denorm_min(), name);
        trip(static_cast<T>(0.5), name); trip(static_cast<T>(-1024), name); trip(static_cast<T>(-0.0), name);
    }
    codes number_text(hc::rng& r)
    {
        static const std::vector<std::string> bits{ "", " ", "\t\n", "-", "+", "0", "1", "7", "42", "255", "256", "-129", "65536", "2147483647", "2147483648", "-2147483649", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775809",
            "18446744073709551616", "99999999999999999999999999", ".", ".5", "1.", "e", "1e5", "1e400", "-1e-400", "0x1F", "0x", "010", "1,234", "true", "abc", "x", "nan", "inf", "--1", "1 2", "3.25", "1e", "A", "z " };
        std::string s;
        for (long n = r.in(0, 3); n > 0; --n) s += bits[r() % bits.size()];
        if (r.chance(15)) s.insert(r() % (s.size() + 1), 1, '\0');
        if (r.chance(10)) s += static_cast<char>(r.in(1, 255));
        codes c; for (unsigned char x : s) c.push_back(x);
        return c;
    }
    struct grouping : std::numpunct<char> { char do_thousands_sep() const override { return '\''; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ';'; } std::string do_truename() const override { return "yes"; } };
    struct wgrouping : std::numpunct<wchar_t> { wchar_t do_thousands_sep() const override { return L'\''; } std::string do_grouping() const override { return "\3"; } wchar_t do_decimal_point() const override { return L';'; } };
    void part_t(hc::rng& r)
    {
        std::locale before;
        const bool other = r.chance(15);
        if (other) std::locale::global(std::locale{ std::locale{ std::locale::classic(), new grouping }, new wgrouping });
        const codes t = number_text(r);
        parse<bool>(t, "bool"); parse<char>(t, "char"); parse<signed char>(t, "signed char"); parse<unsigned char>(t, "unsigned char"); parse<short>(t, "short"); parse<unsigned short>(t, "unsigned short");
        parse<int>(t, "int"); parse<unsigned>(t, "unsigned"); parse<long>(t, "long"); parse<unsigned long>(t, "unsigned long"); parse<long long>(t, "long long"); parse<unsigned long long>(t, "unsigned long long");
        parse<float>(t, "float"); parse<double>(t, "double"); parse<long double>(t, "long double"); parse<point>(t, "a user-defined type"); parse<picky>(t, "a type with an explicit constructor"); parse<std::string>(t, "std::string"); parse<void*>(t, "void*");
        {
            std::wstring w, want; for (long c : t) w += static_cast<wchar_t>(c); std::wistringstream in(w); in >> want; ctx = "std::wstring from " + show(t);
            same("value", "wstr_to", back(pluto::wstr_to<std::wstring>(w)), back(want));
            wchar_t one{}; std::wistringstream in2(w); in2 >> one; same_value("value", "wstr_to<wchar_t>", static_cast<long>(pluto::wstr_to<wchar_t>(w)), static_cast<long>(one));
        }
        if (!other)
        {
            trips<short>(r, "short"); trips<unsigned short>(r, "unsigned short"); trips<int>(r, "int"); trips<unsigned>(r, "unsigned"); trips<long>(r, "long"); trips<unsigned long>(r, "unsigned long"); trips<long long>(r, "long long"); trips<unsigned long long>(r, "unsigned long long");
            floats<float>(r, "float"); floats<double>(r, "double"); floats<long double>(r, "long double");
            trip(true, "bool"); trip(false, "bool"); trip(point{ static_cast<int>(r()), static_cast<int>(r()) }, "a user-defined type");
            const int c = static_cast<int>(r.in(33, 126)); trip(static_cast<char>(c), "char"); trip(static_cast<signed char>(c), "signed char"); trip(static_cast<unsigned char>(c), "unsigned char");
            std::string word; for (long n = r.in(1, r.chance(5) ? 5000 : 40); n > 0; --n) word += static_cast<char>(r.in(33, 126));
            ctx = "word " + word; same_text("value", "a word through str_to", pluto::str_to<std::string>(pluto::str(word)), word);
            same("value", "a word through wstr_to", back(pluto::wstr_to<std::wstring>(pluto::wstr(std::wstring(word.begin(), word.end())))), back(word));
        }
        else { for (int k = 0; k < 6; ++k) { format(static_cast<long>(r() >> r.in(0, 63)), "long (grouping locale)"); format(static_cast<double>(r.in(0, 99999999)) / 64, "double (grouping locale)"); } }
        // text stays what it is
        const std::string s = make<std::string>(t); const std::wstring w(s.begin(), s.end());
        ctx = "text " + show(t);
        { const block<char> b(t); same_text("value", "str of a pointer and size", pluto::str(b.at(), b.n), s); }
        { const block<wchar_t> b(t); std::wstring e; for (long x : t) e += static_cast<wchar_t>(x); same("value", "wstr of a pointer and size", back(pluto::wstr(b.at(), b.n)), back(e)); }
        same_text("value", "str of a std::string", pluto::str(s), s); same("value", "wstr of a std::wstring", back(pluto::wstr(w)), back(w));
        { const auto u = make<std::u16string>(t); const block<char16_t> b(t); same("value", "u16str", back(pluto::u16str(u)), t); same("value", "u16str of a pointer", back(pluto::u16str(b.at(), b.n)), t); }
        { const auto u = make<std::u32string>(t); const block<char32_t> b(t); same("value", "u32str", back(pluto::u32str(u)), t); same("value", "u32str of a pointer", back(pluto::u32str(b.at(), b.n)), t); }
        IF20({ const auto u = make<s8>(t); const block<c8> b(t); same("value", "u8str", back(pluto::u8str(u)), t); same("value", "u8str of a pointer", back(pluto::u8str(b.at(), b.n)), t); })
        if (s.find('\0') == s.npos) { same_text("value", "str of terminated text", pluto::str(s.c_str()), s); }
        format(static_cast<const void*>(&ctx), "a pointer"); format('x', "char"); format('\0', "char"); format(static_cast<char>(r.in(-128, 127)), "char"); format(static_cast<signed char>(r.in(-128, 127)), "signed char"); format(static_cast<unsigned char>(r.in(0, 255)), "unsigned char");
        {   // values whose text may hold anything, also NUL
            std::wstring w2; for (long x : t) w2 += static_cast<wchar_t>(x); ctx = "text " + show(t);
            IF17(const std::string_view sv(s); const std::wstring_view wv(w2); same_text("value", "str of a string view", pluto::str(sv), s); same("value", "wstr of a wide string view", back(pluto::wstr(wv)), back(w2));)
            format(raw{ t }, "a user-defined type that writes any character");
            const wchar_t one = static_cast<wchar_t>(r.chance(30) ? 0 : r.in(0, 0x10ffff)); same("value", "wstr of a wide character", back(pluto::wstr(one)), codes{ static_cast<long>(one) });
        }
        if (other) std::locale::global(before);
        hc::distinct(key(t));
        if (t.size() > 3) hc::sample("parse " + show(t) + " as 19 types");
    }
#endif

#if PART & 8
    // ---- comparators -----------------------------------------------------------------------------------------
    template<class E> struct family
    {
        pluto::is_iequal<E> eq; pluto::is_not_iequal<E> ne; pluto::is_iless<E> lt; pluto::is_igreater<E> gt; pluto::is_iless_equal<E> le; pluto::is_igreater_equal<E> ge;
        explicit family(const std::locale& l) : eq{ l }, ne{ l }, lt{ l }, gt{ l }, le{ l }, ge{ l } {}
        family() {}
    };
    template<class E> void laws(const family<E>& f, const std::locale& l, long a, long b, const char* where)
    {
        const E x = static_cast<E>(a), y = static_cast<E>(b), u = facet<E>(l).toupper(x), v = facet<E>(l).toupper(y);
        hc::count("comparisons", 6);
        const bool got[] = { f.eq(x, y), f.ne(x, y), f.lt(x, y), f.gt(x, y), f.le(x, y), f.ge(x, y) };
        const bool want[] = { u == v, u != v, u < v, u > v, u <= v, u >= v };
        static const char* const name[] = { "is_iequal", "is_not_iequal", "is_iless", "is_igreater", "is_iless_equal", "is_igreater_equal" };
        for (int k = 0; k < 6; ++k) if (got[k] != want[k]) { ctx = "characters " + show({ a }) + " and " + show({ b }) + " in " + where; bad("comparator", std::string(name[k]) + (got[k] ? " holds" : " does not hold")); }
    }
    // comparators made from one variable that holds one locale after another
    template<class E, template<class> class P, class F> void remade(hc::rng& r, const char* what, F&& want)
    {
        std::locale here;
        for (auto& l : locales<E>())
        {
            here = l.loc;
            const P<E> p{ here };
            for (int k = 0; k < 6; ++k)
            {
                const long a = r.chance(50) ? r.in(0, 255) : r.in(0, sizeof(E) > 1 ? 0x600 : 255), b = r.chance(60) ? (r.chance(50) ? up<E>(l.loc, a) : down<E>(l.loc, a)) : r.in(0, 255);
                const E x = static_cast<E>(a), y = static_cast<E>(b);
                hc::count("comparisons");
                if (p(x, y) != want(facet<E>(l.loc).toupper(x), facet<E>(l.loc).toupper(y))) { ctx = "characters " + show({ a }) + " and " + show({ b }) + " in " + l.name; bad("comparator", std::string(what) + " is wrong with a locale in a variable that held another"); }
            }
        }
    }
    template<class E> void remade_all(hc::rng& r)
    {
        remade<E, pluto::is_iequal>(r, "is_iequal", [](E a, E b) { return a == b; }); remade<E, pluto::is_not_iequal>(r, "is_not_iequal", [](E a, E b) { return a != b; });
        remade<E, pluto::is_iless>(r, "is_iless", [](E a, E b) { return a < b; }); remade<E, pluto::is_igreater>(r, "is_igreater", [](E a, E b) { return a > b; });
        remade<E, pluto::is_iless_equal>(r, "is_iless_equal", [](E a, E b) { return a <= b; }); remade<E, pluto::is_igreater_equal>(r, "is_igreater_equal", [](E a, E b) { return a >= b; });
    }
    struct yes_no { bool v; explicit operator bool() const { return v; } };
    template<class T> void truths(const T& v, bool want, const char* what)
    {
        hc::count("comparisons", 2); ctx = what;
        if (pluto::is_true{}(v) != want) bad("comparator", "is_true is wrong");
        if (pluto::is_false{}(v) == want) bad("comparator", "is_false is wrong");
    }
    template<class A, class B> void relations(const A& a, const B& b, const char* what)
    {
        hc::count("comparisons", 6); ctx = what;
        if (pluto::is_equal{}(a, b) != (a == b) || pluto::is_not_equal{}(a, b) != (a != b) || pluto::is_less{}(a, b) != (a < b) || pluto::is_greater{}(a, b) != (a > b) || pluto::is_less_equal{}(a, b) != (a <= b) || pluto::is_greater_equal{}(a, b) != (a >= b)) bad("comparator", "a relational comparator differs from its operator");
    }
    void part8(hc::rng& r, long i)
    {
        static const std::locale def{ "en_US.UTF-8" };
        {
            const auto& ls = locales<char>(); const auto& l = ls[static_cast<std::size_t>(i) % ls.size()]; const family<char> f(l.loc), d;
            const long a = (i / static_cast<long>(ls.size())) & 255;
            for (long b = 0; b < 256; ++b) { laws(f, l.loc, a, b, l.name); laws(d, def, a, b, "the default locale"); }
        }
        static const std::vector<long> cased = [] { std::vector<long> v; for (long c = 0; c < 0x20000; ++c) if (up<wchar_t>(def, c) != c || down<wchar_t>(def, c) != c) v.push_back(c); return v; }();
        {
            const auto& ls = locales<wchar_t>(); const auto& l = ls[r() % ls.size()]; const family<wchar_t> f(l.loc), d;
            for (int k = 0; k < 200; ++k)
            {
                const long a = r.chance(80) ? cased[r() % cased.size()] : r.in(0, 0x10FFFF);
                const long b = r.chance(40) ? up<wchar_t>(r.chance(50) ? def : l.loc, a) : r.chance(50) ? down<wchar_t>(def, a) : r.chance(50) ? cased[r() % cased.size()] : r.chance(50) ? a + r.in(-2, 2) : r.in(-5, 0x110000);
                laws(f, l.loc, a, b, l.name); laws(f, l.loc, b, a, l.name); laws(d, def, a, b, "the default locale");
                hc::distinct(hc::mix(static_cast<std::uint64_t>(a), static_cast<std::uint64_t>(b)));
            }
        }
        remade_all<char>(r); remade_all<wchar_t>(r);
        // a comparator outlives the locale it was made from, and so do its copies
        {
            auto made = std::make_unique<family<char>>(odd<char>()); auto wide = std::make_unique<family<wchar_t>>(odd<wchar_t>());
            const family<char> copy{ *made }; const family<wchar_t> wcopy{ *wide };
            const family<char> named{ std::locale{ std::locale::classic(), new odd_char } };
            const std::locale o = odd<char>(), wo = odd<wchar_t>();
            for (int k = 0; k < 10; ++k) { laws(*made, o, r.in(0, 255), r.in(0, 255), "a locale that is gone"); laws(*wide, wo, r.in(0, 400), r.in(0, 400), "a wide locale that is gone"); }
            made.reset(); wide.reset();
            for (int k = 0; k < 10; ++k) { laws(copy, o, r.in(0, 255), r.in(0, 255), "the locale of a copied comparator"); laws(wcopy, wo, r.in(0, 400), r.in(0, 400), "the locale of a copied wide comparator"); laws(named, o, r.in(0, 255), r.in(0, 255), "a temporary locale"); }
            hc::count("lifetimes", 3);
        }
        // as the ordering of a container
        {
            std::set<char, pluto::is_iless<char>> s{ pluto::is_iless<char>{ odd<char>() } }; const std::locale o = odd<char>(); std::set<long> want; ctx = "a set ordered by is_iless";
            for (int k = 0; k < 30; ++k) { const long c = r.in(0, 255); const bool fresh = want.insert(static_cast<long>(static_cast<char>(up<char>(o, c)))).second; if (s.insert(static_cast<char>(c)).second != fresh) bad("comparator", "is_iless does not order a set by upper case"); }
            std::vector<wchar_t> v; for (int k = 0; k < 20; ++k) v.push_back(static_cast<wchar_t>(cased[r() % cased.size()])); const auto before = v;
            std::sort(v.begin(), v.end(), pluto::is_iless<wchar_t>{}); ctx = "a sorted vector";
            for (std::size_t k = 1; k < v.size(); ++k) if (up<wchar_t>(def, static_cast<long>(v[k])) < up<wchar_t>(def, static_cast<long>(v[k - 1]))) bad("comparator", "sorting by is_iless does not sort by upper case");
        }
        const long n = r.in(-2, 2); const double q = static_cast<double>(r.in(-2, 2)) / 2; int cell = 0;
        truths(n, n != 0, "a long"); truths(static_cast<unsigned char>(n * 128), static_cast<unsigned char>(n * 128) != 0, "an unsigned char"); truths(n * (1L << 40), n != 0, "a long with empty low bits"); truths(q, q != 0, "a double"); truths(-0.0, false, "negative zero"); truths(std::nan(""), true, "not a number"); truths(1e-300, true, "a tiny double");
        truths(true, true, "true"); truths(false, false, "false"); truths(&cell, true, "a pointer"); truths(static_cast<int*>(nullptr), false, "a null pointer"); truths(yes_no{ n > 0 }, n > 0, "a type with explicit operator bool");
        IF17(truths(std::optional<int>{}, false, "an empty optional"); truths(std::optional<int>{ 0 }, true, "a full optional");) truths(std::make_shared<int>(0), true, "a shared_ptr"); truths(std::shared_ptr<int>{}, false, "an empty shared_ptr"); truths(std::function<void()>{}, false, "an empty function");
        relations(n, q, "a long and a double"); relations(n, r.in(-2, 2), "two longs"); relations(static_cast<short>(n), static_cast<long long>(q), "a short and a long long"); relations(std::string("a"), "b", "a string and a literal"); relations(q, std::nan(""), "a double and not a number"); relations(std::string(r.chance(50) ? "x" : "y"), std::string("x"), "two strings");
        hc::sample("all pairs with one narrow character, 600 wide pairs, comparators outliving their locale");
    }
#endif
}

int main(int argc, char** argv)
{
    hc::init(argc, argv);
    const std::uint64_t seed = static_cast<std::uint64_t>(hc::num("seed", 1));
    const long first = hc::num("first", 0), n = hc::num("n", 100), stride = hc::num("stride", 1);
    const std::string mix = hc::text("mix", "p");
#if PART & 2
    if (mix == "e") { every('e', first, stride); return hc::finish(); }
#endif
    for (long i = first; i < first + n * stride; i += stride)
    {
        hc::rng r(seed * 1000003ULL + static_cast<std::uint64_t>(i));
        hc::on_step(("seed=" + std::to_string(seed) + " n=1 mix=" + mix + " first=" + std::to_string(i)).c_str());
        hc::count("iterations");
        const char c = mix[static_cast<std::size_t>(i / stride) % mix.size()];
#if PART & 1
        if (c == 'p') part1(r);
#endif
#if PART & 2
        if (c == 'i' || c == 'c') part2(r, c);
#endif
#if PART & 4
        if (c == 'b') part_b(r, i);
        if (c == 't') part_t(r);
#endif
#if PART & 8
        if (c == 'm') part8(r, i);
#endif
        (void)c;
        if (hc::violations() > 20) break;
    }
    return hc::finish();
}
