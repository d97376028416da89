// M08: operations that give the same fingerprint whether they are evaluated by the compiler (whose evaluator of constant
// expressions is an interpreter that rejects undefined behaviour) or by the running program.
// A generated file (lib/constant.py) adds the cases.
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <iterator>
#include <list>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <pluto.hpp>

typedef std::uint64_t u64;

struct fp       // fingerprint
{
    u64 h = 1469598103934665603ull;
    constexpr fp& add(u64 v) { for (int i = 0; i < 4; ++i) { h = (h ^ (v & 0xFFFF)) * 1099511628211ull; v >>= 16; } return *this; }
    template<class C> constexpr fp& str(const std::basic_string<C>& s)
    {
        add(s.size());
        for (C c : s) add(static_cast<u64>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<C, wchar_t>, int, std::conditional_t<(sizeof(C) == 1), char, std::conditional_t<(sizeof(C) == 2), short, int>>>>>(c)));
        return *this;
    }
    template<class V> constexpr fp& strs(const V& v) { add(v.size()); for (const auto& s : v) str(s); return *this; }
};

template<class C> struct arg
{
    C a[16]; int na;
    C b[8];  int nb;
    C c[8];  int nc;
    long long x, y;
};

// storage of exactly the size asked for, so that one step too far is visible to the evaluator
template<class C> struct exact
{
    C* p; std::size_t n;
    constexpr exact(const C* s, int k) : p{ new C[static_cast<std::size_t>(k)]{} }, n{ static_cast<std::size_t>(k) } { for (std::size_t i = 0; i < n; ++i) p[i] = s[i]; }
    constexpr ~exact() { delete[] p; }
    exact(const exact&) = delete;
    exact& operator=(const exact&) = delete;
    constexpr const C* begin() const { return p; }
    constexpr const C* end() const { return p + n; }
    constexpr C* begin() { return p; }
    constexpr C* end() { return p + n; }
};

// a weaker iterator over an exact range
template<class C, class Tag> struct weak
{
    typedef Tag iterator_category;
    typedef std::remove_const_t<C> value_type;
    typedef std::ptrdiff_t difference_type;
    typedef C* pointer;
    typedef C& reference;
    C* p = nullptr;
    constexpr C& operator*() const { return *p; }
    constexpr weak& operator++() { ++p; return *this; }
    constexpr weak operator++(int) { auto r = *this; ++p; return r; }
    constexpr weak& operator--() requires std::is_base_of_v<std::bidirectional_iterator_tag, Tag> { --p; return *this; }
    constexpr weak operator--(int) requires std::is_base_of_v<std::bidirectional_iterator_tag, Tag> { auto r = *this; --p; return r; }
    constexpr bool operator==(const weak& o) const { return p == o.p; }
};

template<class C> struct par    // a predicate with state: the same parity as the pivot
{
    long long m;
    constexpr bool operator()(const C& c) const { return static_cast<long long>(c) % 3 == m % 3; }
};
template<class C> struct near_to     // a non-commutative relation
{
    constexpr bool operator()(const C& l, const C& r) const { return l == r || static_cast<long long>(l) + 1 == static_cast<long long>(r); }
};
struct not_empty { template<class S> constexpr bool operator()(const S& s) const { return !s.empty(); } };

// ---- iterator.hpp ----------------------------------------------------------------------------------
template<class C, class I, class J> constexpr void seq2(fp& f, I b, I e, J b2, J e2)
{
    f.add(pluto::equals(b, e, b2, e2)).add(pluto::equals(b, e, b2, e2, near_to<C>{}));
    f.add(pluto::starts_with(b, e, b2, e2)).add(pluto::starts_with(b, e, b2, e2, near_to<C>{}));
    auto p = pluto::find(b, e, b2, e2);
    f.add(static_cast<u64>(std::distance(b, p)));
    auto q = pluto::rfind(b, e, b2, e2, near_to<C>{});
    f.add(static_cast<u64>(std::distance(b, q)));
    f.add(pluto::contains(b, e, b2, e2)).add(pluto::contains(b, e, b2, e2, near_to<C>{}));
}
template<class C, class I, class J> constexpr void seq2e(fp& f, I b, I e, J b2, J e2)
{
    f.add(pluto::ends_with(b, e, b2, e2)).add(pluto::ends_with(b, e, b2, e2, near_to<C>{}));
}
template<class C, class I> constexpr void elem1(fp& f, I b, I e, C x, long long m)
{
    f.add(static_cast<u64>(std::distance(b, pluto::find(b, e, x)))).add(pluto::contains(b, e, x));
    f.add(static_cast<u64>(std::distance(b, pluto::find_if(b, e, par<C>{ m })))).add(static_cast<u64>(std::distance(b, pluto::find_if_not(b, e, par<C>{ m }))));
}
template<class C, class I> constexpr void elem1r(fp& f, I b, I e, C x, long long m)
{
    f.add(static_cast<u64>(std::distance(b, pluto::rfind(b, e, x))));
    f.add(static_cast<u64>(std::distance(b, pluto::rfind_if(b, e, par<C>{ m })))).add(static_cast<u64>(std::distance(b, pluto::rfind_if_not(b, e, par<C>{ m }))));
}

template<class C> constexpr u64 op_search(const arg<C>& s)
{
    fp f; const exact<C> a(s.a, s.na), b(s.b, s.nb);
    typedef weak<const C, std::forward_iterator_tag> F;
    typedef weak<const C, std::bidirectional_iterator_tag> B;
    if (s.na) { seq2<C>(f, a.begin(), a.end(), b.begin(), b.end()); seq2<C>(f, F{ a.p }, F{ a.p + a.n }, B{ b.p }, B{ b.p + b.n }); }
    seq2e<C>(f, a.begin(), a.end(), b.begin(), b.end());
    seq2e<C>(f, B{ a.p }, B{ a.p + a.n }, b.begin(), b.end());
    seq2e<C>(f, B{ a.p }, B{ a.p + a.n }, B{ b.p }, B{ b.p + b.n });
    if (s.nb <= s.na) f.add(pluto::equals_same_size(b.begin(), b.end(), a.begin())).add(pluto::equals_same_size(b.begin(), b.end(), a.begin(), near_to<C>{}));
    const C x = s.nc ? s.c[0] : C{};
    elem1<C>(f, a.begin(), a.end(), x, s.x); elem1<C>(f, F{ a.p }, F{ a.p + a.n }, x, s.x);
    elem1r<C>(f, a.begin(), a.end(), x, s.x); elem1r<C>(f, B{ a.p }, B{ a.p + a.n }, x, s.x);
    return f.h;
}

template<class C> constexpr u64 op_change(const arg<C>& s)
{
    fp f; exact<C> a(s.a, s.na);
    pluto::reverse(a.begin(), a.end()); f.str(std::basic_string<C>(a.begin(), a.end()));
    { exact<C> d(s.a, s.na); auto e = pluto::filter(d.begin(), d.end(), par<C>{ s.x }); f.str(std::basic_string<C>(d.begin(), e)); }
    { exact<C> d(s.a, s.na); pluto::map(a.begin(), a.end(), d.begin(), [](C c) { return static_cast<C>(c ^ 1); }); f.str(std::basic_string<C>(d.begin(), d.end())); }
    pluto::sort(a.begin(), a.end()); f.str(std::basic_string<C>(a.begin(), a.end()));
    u64 t = 0; pluto::for_each(a.begin(), a.end(), [&t](C& c) { t = t * 31 + static_cast<u64>(c); c = static_cast<C>(c ^ 2); }); f.add(t);
    pluto::sort(a.begin(), a.end(), pluto::is_greater{}); f.str(std::basic_string<C>(a.begin(), a.end()));
    return f.h;
}

// ---- container.hpp ---------------------------------------------------------------------------------
template<class C, class V> constexpr void container(fp& f, const V& a, const V& b, const arg<C>& s)
{
    const C x = s.nc ? s.c[0] : C{};
    auto at = [&](auto it) { f.add(static_cast<u64>(std::distance(std::begin(a), it))); };
    f.add(pluto::equals(a, b)).add(pluto::starts_with(a, b)).add(pluto::ends_with(a, b)).add(pluto::ends_with(a, b, near_to<C>{}));
    at(pluto::find_elem(a, x)); at(pluto::rfind_elem(a, x)); at(pluto::find_sequence(a, b)); at(pluto::rfind_sequence(a, b, near_to<C>{}));
    at(pluto::find_if(a, par<C>{ s.x })); at(pluto::rfind_if(a, par<C>{ s.x })); at(pluto::find_if_not(a, par<C>{ s.x })); at(pluto::rfind_if_not(a, par<C>{ s.x }));
    f.add(pluto::contains_elem(a, x)).add(pluto::contains_sequence(a, b));
    f.add(pluto::len(a)).add(pluto::any(a)).add(pluto::all(a)).add(pluto::any(a, par<C>{ s.y })).add(pluto::all(a, par<C>{ s.y })).add(pluto::all(a, pluto::is_false{}));
    f.add(pluto::count(a, x)).add(pluto::count_if(a, par<C>{ s.x }));
    f.add(static_cast<u64>(pluto::sum(a, 7ll)));
    if (s.na)
        f.add(static_cast<u64>(&(pluto::min)(a) - &*std::begin(a))).add(static_cast<u64>(&(pluto::max)(a) - &*std::begin(a)))
         .add(static_cast<u64>(&(pluto::min)(a, pluto::is_greater{}) - &*std::begin(a))).add(static_cast<u64>(&(pluto::max)(a, pluto::is_greater{}) - &*std::begin(a)));
}
template<class C> constexpr u64 op_container(const arg<C>& s)
{
    fp f;
    { const std::vector<C> a(s.a, s.a + s.na), b(s.b, s.b + s.nb); container<C>(f, a, b, s); }
    { const std::basic_string_view<C> a(s.a, static_cast<std::size_t>(s.na)), b(s.b, static_cast<std::size_t>(s.nb)); container<C>(f, a, b, s); }
    return f.h;
}
template<class C> constexpr u64 op_container_change(const arg<C>& s)
{
    fp f; typedef std::basic_string<C> S;
    std::vector<C> v(s.a, s.a + s.na), w(v), d(s.b, s.b + s.nb);
    auto out = [&](const auto& r) { f.str(S(r.begin(), r.end())); };
    out(pluto::slice(v, s.x, s.y)); out(pluto::slice(v, s.y)); out(pluto::slice(S(s.a, s.a + s.na), s.x, s.y));
    out(pluto::reverse(w)); out(pluto::filter(w, par<C>{ s.x })); w = v; out(pluto::sort(w)); out(pluto::sort(w, pluto::is_greater{}));
    u64 t = 0; pluto::for_each(w, [&t](C& c) { t = t * 31 + static_cast<u64>(c); c = static_cast<C>(c ^ 1); }); f.add(t); out(w);
    out(pluto::map(v, d, [](C c) { return static_cast<C>(c ^ 2); })); out(d);
    auto m = pluto::map(v, [](C c) { return static_cast<long long>(c) * 3; }); f.add(m.size()); for (auto e : m) f.add(static_cast<u64>(e));
    auto n = pluto::map<S>(v, [](C c) { return static_cast<C>(c ^ 4); }); out(n);
    const C literal[]{ C{ 'a' }, C{ 'b' }, C{} }; f.add(pluto::len(literal));
    return f.h;
}

// ---- string.hpp ------------------------------------------------------------------------------------
template<class C> constexpr u64 op_string_search(const arg<C>& s)
{
    fp f; typedef std::basic_string<C> S; const S a(s.a, s.a + s.na), b(s.b, s.b + s.nb); const exact<C> p(s.a, s.na), q(s.b, s.nb);
    auto at = [&](auto it) { f.add(static_cast<u64>(it - a.begin())); };
    auto pt = [&](const C* it) { f.add(static_cast<u64>(it - p.p)); };
    f.add(pluto::equals(a, b)).add(pluto::equals(a, b, near_to<C>{})).add(pluto::equals(p.p, p.n, q.p, q.n)).add(pluto::equals(p.p, p.n, q.p, q.n, near_to<C>{}));
    f.add(pluto::starts_with(a, b)).add(pluto::starts_with(a, b, near_to<C>{})).add(pluto::starts_with(p.p, p.n, q.p, q.n)).add(pluto::starts_with(p.p, p.n, q.p, q.n, near_to<C>{}));
    f.add(pluto::ends_with(a, b)).add(pluto::ends_with(a, b, near_to<C>{})).add(pluto::ends_with(p.p, p.n, q.p, q.n)).add(pluto::ends_with(p.p, p.n, q.p, q.n, near_to<C>{}));
    at(pluto::find(a, b)); at(pluto::find(a, b, near_to<C>{})); pt(pluto::find(p.p, p.n, q.p, q.n)); pt(pluto::find(p.p, p.n, q.p, q.n, near_to<C>{}));
    at(pluto::rfind(a, b)); at(pluto::rfind(a, b, near_to<C>{})); pt(pluto::rfind(p.p, p.n, q.p, q.n)); pt(pluto::rfind(p.p, p.n, q.p, q.n, near_to<C>{}));
    f.add(pluto::contains(a, b)).add(pluto::contains(a, b, near_to<C>{})).add(pluto::contains(p.p, p.n, q.p, q.n)).add(pluto::contains(p.p, p.n, q.p, q.n, near_to<C>{}));
    return f.h;
}
template<class C> constexpr u64 op_pieces(const arg<C>& s)
{
    fp f; typedef std::basic_string<C> S; const S a(s.a, s.a + s.na), b(s.b, s.b + s.nb), c(s.c, s.c + s.nc);
    const auto v = pluto::split(a, b), w = pluto::split_any_of(a, b);
    f.strs(v).strs(w);
    f.str(pluto::join(v, b)).str(pluto::join(v, c)).str(pluto::join(w.begin(), w.end(), c));
    f.str(pluto::map_join(v, b, [](const S& x) { return x + x; })).str(pluto::map_join(w.begin(), w.end(), c, [](const S& x) { return x.substr(0, 1); }));
    return f.h;
}
template<class C> constexpr u64 op_replace(const arg<C>& s)
{
    fp f; typedef std::basic_string<C> S; const S a(s.a, s.a + s.na), b(s.b, s.b + s.nb), c(s.c, s.c + s.nc);
    S r = a; pluto::replace(r, b, c); f.str(r); pluto::replace(r, c, b); f.str(r);
    r = a; pluto::replace_any_of(r, b, c); f.str(r); pluto::replace_any_of(r, c, b); f.str(r);
    return f.h;
}

template<class I> constexpr void radix(fp& f, long long x)
{
    const I v = static_cast<I>(x);
    f.str(pluto::bin(v)).str(pluto::oct(v)).str(pluto::hex(v));
}
template<class C> constexpr u64 op_radix(const arg<C>& s)
{
    fp f;
    for (long long x : { s.x, s.y })
    {
        radix<signed char>(f, x); radix<unsigned char>(f, x); radix<char>(f, x); radix<short>(f, x); radix<unsigned short>(f, x); radix<int>(f, x); radix<unsigned>(f, x);
        radix<long>(f, x); radix<unsigned long>(f, x); radix<long long>(f, x); radix<unsigned long long>(f, x); radix<char8_t>(f, x); radix<char16_t>(f, x); radix<char32_t>(f, x); radix<wchar_t>(f, x);
    }
    return f.h;
}

// ---- unicode.hpp and str() and its relatives --------------------------------------------------------
template<class C> constexpr u64 op_unicode(const arg<C>& s)
{
    fp f; typedef std::basic_string<C> S; const S a(s.a, s.a + s.na); const exact<C> p(s.a, s.na);
    std::string o8("x"); std::u8string o8u(u8"y"); std::u16string o16(u"z"); std::u32string o32(U"w"); std::wstring ow(L"v");
    if constexpr (sizeof(C) == 1)
    {
        pluto::utf8_to_utf16(a, o16); pluto::utf8_to_utf16(p.p, p.n, o16); pluto::utf8_to_utf32(a, o32); pluto::utf8_to_utf32(p.p, p.n, o32); pluto::utf8_to_utf32(a, ow);
    }
    else if constexpr (sizeof(C) == 2)
    {
        pluto::utf16_to_utf8(a, o8); pluto::utf16_to_utf8(p.p, p.n, o8u); pluto::utf16_to_utf32(a, o32); pluto::utf16_to_utf32(p.p, p.n, ow);
    }
    else
    {
        pluto::utf32_to_utf8(a, o8); pluto::utf32_to_utf8(p.p, p.n, o8u); pluto::utf32_to_utf16(a, o16); pluto::utf32_to_utf16(p.p, p.n, o16);
    }
    f.str(o8).str(o8u).str(o16).str(o32).str(ow);
    f.str(pluto::str(a)).str(pluto::str(p.p, p.n)).str(pluto::wstr(a)).str(pluto::wstr(p.p, p.n)).str(pluto::u8str(a)).str(pluto::u8str(p.p, p.n))
     .str(pluto::u16str(a)).str(pluto::u16str(p.p, p.n)).str(pluto::u32str(a)).str(pluto::u32str(p.p, p.n));
    return f.h;
}

// ---- the helpers -----------------------------------------------------------------------------------
template<class T> constexpr void helper(fp& f, long long x, long long y, long long z, long long w)
{
    const T a = static_cast<T>(x), b = static_cast<T>(y), c = static_cast<T>(z), d = static_cast<T>(w);
    const pluto::range<T> r(a < b ? a : b, a < b ? b : a), t(c < d ? c : d, c < d ? d : c);
    f.add(r.is_equal(t)).add(r.is_overlapping(t)).add(r.is_less(t)).add(r.is_less_no_overlap(t)).add(r == t).add(r != t).add(r < t).add(r > t).add(r <= t).add(r >= t);
    f.add(pluto::copy(a) == a).add(&(pluto::min)(a, b) == &a).add(&(pluto::max)(a, b) == &a).add(&(pluto::min)(a, b, pluto::is_greater{}) == &a).add(&(pluto::max)(c, d, pluto::is_greater{}) == &c);
    f.add(pluto::is_true{}(a)).add(pluto::is_false{}(a)).add(pluto::is_true{}(x < y)).add(pluto::is_equal{}(a, b)).add(pluto::is_less_equal{}(c, d));
}
template<class C> constexpr u64 op_helpers(const arg<C>& s)
{
    fp f; const long long z = s.na ? static_cast<long long>(s.a[0]) : 0, w = s.nb ? static_cast<long long>(s.b[0]) : s.x;
    helper<int>(f, s.x, s.y, z, w); helper<unsigned char>(f, s.x, s.y, z, w); helper<long long>(f, s.x, s.y, z, w); helper<unsigned long long>(f, z, w, s.x, s.y); helper<double>(f, s.x, s.y, z, w);
    const int i = static_cast<int>(s.x % 1000000); const short h = static_cast<short>(s.y % 1000);
    f.add(static_cast<u64>(pluto::abs(i))).add(static_cast<u64>(pluto::abs(h))).add(static_cast<u64>(pluto::abs(s.y % 1000000000))).add(pluto::abs(static_cast<double>(i)) == (i < 0 ? -i : i));
    f.add(static_cast<u64>(pluto::range<int>(i, i + 5).size()));
    const auto l = static_cast<pluto::log_level>(static_cast<int>(static_cast<unsigned long long>(s.x) % 14) - 2);
    f.str(std::string(pluto::log_level_to_c_str(l))).str(std::string(pluto::log_level_to_title(l))).str(std::string(pluto::log_level_to_shortened(l))).add(static_cast<u64>(pluto::log_level_to_char(l)));
    if constexpr (std::is_same_v<C, char>)
    {
        std::string path(s.a, s.a + s.na); path += '\0'; const exact<char> e(path.data(), static_cast<int>(path.size()));
        f.add(static_cast<u64>(pluto::file_name(e.p) - e.p));
        const pluto::source_info src("f.cpp", i, "fn"); f.add(static_cast<u64>(src.line)).str(std::string(src.file)).str(std::string(src.function));
    }
    return f.h;
}

// ---- running ---------------------------------------------------------------------------------------
struct entry { const char* op; const char* unit; int id; u64 constant; u64 (*run)(); };
template<class C> arg<C> launder(const arg<C>& s)   // the optimiser cannot know what the run-time arguments are
{
    arg<C> r{}; const volatile unsigned char* from = reinterpret_cast<const volatile unsigned char*>(&s); unsigned char* to = reinterpret_cast<unsigned char*>(&r);
    for (std::size_t i = 0; i < sizeof(s); ++i) to[i] = from[i];
    return r;
}
#define CASE(ID, OP, C, ...) static constexpr arg<C> a_##ID __VA_ARGS__; static constexpr u64 c_##ID = op_##OP<C>(a_##ID); static u64 r_##ID() { const auto s = launder(a_##ID); return op_##OP<C>(s); }
#define ENTRY(ID, OP, C) { #OP, #C, ID, c_##ID, &r_##ID },

#define MAIN(...) static const entry entries[] = { __VA_ARGS__ }; \
    int main() { for (const auto& e : entries) { const u64 r = e.run(); std::printf("K %d %s %s %016llx %016llx\n", e.id, e.op, e.unit, static_cast<unsigned long long>(e.constant), static_cast<unsigned long long>(r)); } std::printf("E done\n"); }
