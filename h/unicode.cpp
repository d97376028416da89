// Unicode harness: every conversion and front-end of the real library against an independent reference
// decoder/encoder, on exactly sized heap buffers so that the sanitizers see any read outside the input.
#include "pluto/unicode.hpp"
#include "pluto/string.hpp"
#include "hc.hpp"
#include <algorithm>
#include <memory>

namespace
{
    typedef std::vector<std::uint32_t> units;       // code units of any encoding
    std::string str(long v) { return std::to_string(v); }
    bool scalar(std::uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }

    // ---- reference ----------------------------------------------------------------------------------
    void put(units& o, std::uint32_t c, int enc)
    {
        if (enc == 32) { o.push_back(c); return; }
        if (enc == 16) { if (c < 0x10000) o.push_back(c); else { o.push_back(0xD7C0 + c / 0x400); o.push_back(0xDC00 + c % 0x400); } return; }
        if (c < 0x80) o.push_back(c);
        else if (c < 0x800) { o.push_back(192 + c / 64); o.push_back(128 + c % 64); }
        else if (c < 0x10000) { o.push_back(224 + c / 4096); o.push_back(128 + c / 64 % 64); o.push_back(128 + c % 64); }
        else { o.push_back(240 + c / 262144); o.push_back(128 + c / 4096 % 64); o.push_back(128 + c / 64 % 64); o.push_back(128 + c % 64); }
    }
    // Unicode table 3-7 (UTF-8), surrogate pairing (UTF-16): length of the well-formed sequence at i, or 0
    int take(const units& s, std::size_t i, int enc, std::uint32_t& c)
    {
        const std::uint32_t a = s[i];
        if (enc == 32) { c = a; return scalar(a); }
        if (enc == 16)
        {
            if (a < 0xD800 || a > 0xDFFF) { c = a; return 1; }
            if (a < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] <= 0xDFFF) { c = 0x10000 + (a - 0xD800) * 0x400 + (s[i + 1] - 0xDC00); return 2; }
            return 0;
        }
        if (a < 0x80) { c = a; return 1; }
        struct row { std::uint32_t lo, hi, lo2, hi2; int n; };
        static const row rows[] = { { 0xC2, 0xDF, 0x80, 0xBF, 2 }, { 0xE0, 0xE0, 0xA0, 0xBF, 3 }, { 0xE1, 0xEC, 0x80, 0xBF, 3 }, { 0xED, 0xED, 0x80, 0x9F, 3 },
            { 0xEE, 0xEF, 0x80, 0xBF, 3 }, { 0xF0, 0xF0, 0x90, 0xBF, 4 }, { 0xF1, 0xF3, 0x80, 0xBF, 4 }, { 0xF4, 0xF4, 0x80, 0x8F, 4 } };
        for (const auto& r : rows)
        {
            if (a < r.lo || a > r.hi) continue;
            if (i + static_cast<std::size_t>(r.n) > s.size()) return 0;
            if (s[i + 1] < r.lo2 || s[i + 1] > r.hi2) return 0;
            for (int k = 2; k < r.n; ++k) if (s[i + static_cast<std::size_t>(k)] < 0x80 || s[i + static_cast<std::size_t>(k)] > 0xBF) return 0;
            c = r.n == 2 ? a - 192 : r.n == 3 ? a - 224 : a - 240;
            for (int k = 1; k < r.n; ++k) c = c * 64 + (s[i + static_cast<std::size_t>(k)] - 128);
            return r.n;
        }
        return 0;
    }
    // the specified conversion; bad counts the replaced code units
    units convert(const units& s, int from, int to, long& bad)
    {
        units o; bad = 0;
        for (std::size_t i = 0; i < s.size();)
        {
            std::uint32_t c; const int n = take(s, i, from, c);
            if (n) { put(o, c, to); i += static_cast<std::size_t>(n); }
            else { put(o, 0xFFFD, to); ++i; ++bad; }
        }
        return o;
    }
    units encode(const units& scalars, int enc) { units o; for (auto c : scalars) put(o, c, enc); return o; }
    bool well_formed(const units& s, int enc) { long bad; convert(s, enc, 32, bad); return bad == 0; }
    std::string show(const units& s)
    {
        std::string o; char b[16]; std::size_t n = 0;
        for (auto c : s) { if (++n > 40) { o += "..(" + str(static_cast<long>(s.size())) + ")"; break; } std::snprintf(b, sizeof b, "%X ", c); o += b; }
        return o;
    }

    // ---- the real code ------------------------------------------------------------------------------
    template<class E> std::uint32_t unit(E e)
    {
        if (sizeof(E) == 1) return static_cast<std::uint32_t>(e) & 0xFF;
        if (sizeof(E) == 2) return static_cast<std::uint32_t>(e) & 0xFFFF;
        return static_cast<std::uint32_t>(e);
    }
    template<class S> units from(const S& s) { units u; u.reserve(s.size()); for (auto e : s) u.push_back(unit(e)); return u; }
    template<class S> S make(const units& u) { S s; s.reserve(u.size()); for (auto c : u) s.push_back(static_cast<typename S::value_type>(c)); return s; }
    // exactly sized, unterminated copy on the heap
    template<class E> struct exact
    {
        std::size_t n; E* p;
        explicit exact(const units& u) : n{ u.size() }, p{ n ? new E[n] : nullptr } { for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<E>(u[i]); }
        ~exact() { delete[] p; }
        exact(const exact&) = delete; exact& operator=(const exact&) = delete;
        bool intact(const units& u) const { for (std::size_t i = 0; i < n; ++i) if (p[i] != static_cast<E>(u[i])) return false; return true; }
    };
    template<class E> struct traits : std::char_traits<E> {};
    template<class E> struct alloc : std::allocator<E> { template<class U> struct rebind { typedef alloc<U> other; }; alloc() = default; template<class U> alloc(const alloc<U>&) {} };

    template<class D, class F> units low(const units& pre, F f) { D d = make<D>(pre); f(d); return from(d); }

    void expect(const units& got, const units& want, const char* kind, const char* what, const units& in)
    {
        hc::count("comparisons");
        if (got != want) hc::violation(kind, std::string(what) + " of " + show(in) + "gives " + show(got) + "expected " + show(want));
    }

    template<class S> std::basic_string<typename S::value_type, typename S::traits_type, typename S::allocator_type> id(const S& s) { return s; }

#define LOW(FN, FROM, TO, SRC, SRC2, DST, DST2, E1) \
    { \
        long bad; units want = convert(in, FROM, TO, bad); \
        hc::count("replacements", bad); \
        const char* kind = bad ? "malformed" : "convert"; \
        exact<E1> x(in); \
        units got = low<DST>({}, [&](DST& d) { pluto::FN(static_cast<const E1*>(x.p), x.n, d); }); \
        expect(got, want, kind, #FN, in); \
        if (!well_formed(got, TO)) hc::violation("ill-formed-output", #FN " of " + show(in) + "gives ill-formed " + show(got)); \
        if (!x.intact(in)) hc::violation("append", #FN " changed its input"); \
        if (full) \
        { \
            units pw = pre; pw.insert(pw.end(), want.begin(), want.end()); \
            expect(low<DST>(pre, [&](DST& d) { pluto::FN(static_cast<const E1*>(x.p), x.n, d); }), pw, "append", #FN " (appending)", in); \
            expect(low<DST2>(pre, [&](DST2& d) { pluto::FN(make<SRC>(in), d); }), pw, "forms-disagree", #FN " (string form)", in); \
            expect(low<DST>(pre, [&](DST& d) { const SRC2 s = make<SRC2>(in); pluto::FN(s, d); pluto::FN(s, d); }), [&] { units t = pw; t.insert(t.end(), want.begin(), want.end()); return t; }(), "append", #FN " (twice)", in); \
        } \
    }

    void low_level(const units& in, int enc, const units& pre, bool full)
    {
        typedef std::basic_string<char, traits<char>, alloc<char>> cstr;
        typedef std::basic_string<char16_t, traits<char16_t>, alloc<char16_t>> cstr16;
        typedef std::basic_string<char32_t, traits<char32_t>, alloc<char32_t>> cstr32;
        // (elements of other types of the right width, signed ones too)
        typedef std::basic_string<signed char, traits<signed char>> sstr8; typedef std::basic_string<short, traits<short>> sstr16; typedef std::basic_string<int, traits<int>> sstr32;
        if (enc == 8)
        {
            LOW(utf8_to_utf16, 8, 16, std::string, cstr, std::u16string, cstr16, char)
            LOW(utf8_to_utf32, 8, 32, s8, cstr, std::u32string, std::wstring, unsigned char)
            if (full) { LOW(utf8_to_utf32, 8, 32, s8, std::string, std::wstring, cstr32, c8) LOW(utf8_to_utf16, 8, 16, s8, std::string, std::u16string, std::u16string, signed char) LOW(utf8_to_utf16, 8, 16, sstr8, std::string, std::u16string, cstr16, unsigned char) LOW(utf8_to_utf32, 8, 32, std::string, sstr8, std::u32string, std::wstring, signed char) }
        }
        else if (enc == 16)
        {
            LOW(utf16_to_utf8, 16, 8, std::u16string, cstr16, std::string, cstr, char16_t)
            LOW(utf16_to_utf32, 16, 32, std::u16string, cstr16, std::u32string, cstr32, short)
            if (full) { LOW(utf16_to_utf8, 16, 8, std::u16string, std::u16string, s8, std::string, unsigned short) LOW(utf16_to_utf32, 16, 32, std::u16string, std::u16string, std::wstring, std::u32string, char16_t) LOW(utf16_to_utf8, 16, 8, sstr16, std::u16string, std::string, cstr, short) LOW(utf16_to_utf32, 16, 32, sstr16, sstr16, std::wstring, std::u32string, unsigned short) }
        }
        else
        {
            LOW(utf32_to_utf8, 32, 8, std::u32string, cstr32, std::string, cstr, char32_t)
            LOW(utf32_to_utf16, 32, 16, std::wstring, std::u32string, std::u16string, cstr16, wchar_t)
            if (full) { LOW(utf32_to_utf8, 32, 8, std::wstring, std::wstring, s8, std::string, wchar_t) LOW(utf32_to_utf16, 32, 16, std::u32string, std::wstring, std::u16string, std::u16string, unsigned) LOW(utf32_to_utf8, 32, 8, sstr32, sstr32, std::string, cstr, int) LOW(utf32_to_utf16, 32, 16, std::u32string, sstr32, cstr16, std::u16string, int) }
        }
    }

    // the str/wstr/u8str/u16str/u32str families; conversions between unlike encodings follow the converters,
    // forms that keep the encoding copy the code units
    template<class S> void front_ends(const units& in, int enc)
    {
        typedef typename S::value_type E;
        const S s = make<S>(in); exact<E> x(in); const E* const p = x.n ? x.p : s.c_str();
        long bad;
        auto want = [&](int to) { return to == enc ? in : convert(in, enc, to, bad); };
        // (for an empty text the pointer form gets a valid pointer)
        expect(from(pluto::str(s)), want(8), "forms-disagree", "str(string)", in);
        expect(from(pluto::str(p, x.n)), want(8), "forms-disagree", "str(pointer)", in);
        expect(from(pluto::wstr(s)), want(32), "forms-disagree", "wstr(string)", in);
        expect(from(pluto::wstr(p, x.n)), want(32), "forms-disagree", "wstr(pointer)", in);
        IF20(expect(from(pluto::u8str(s)), want(8), "forms-disagree", "u8str(string)", in);)
        IF20(expect(from(pluto::u8str(p, x.n)), want(8), "forms-disagree", "u8str(pointer)", in);)
        expect(from(pluto::u16str(s)), want(16), "forms-disagree", "u16str(string)", in);
        expect(from(pluto::u16str(p, x.n)), want(16), "forms-disagree", "u16str(pointer)", in);
        expect(from(pluto::u32str(s)), want(32), "forms-disagree", "u32str(string)", in);
        expect(from(pluto::u32str(p, x.n)), want(32), "forms-disagree", "u32str(pointer)", in);
        if (!x.intact(in) || from(s) != in) hc::violation("append", "a front-end changed its input " + show(in));
        hc::count("front_end_sets");
    }
    void all_front_ends(const units& in, int enc)
    {
        if (enc == 8) { front_ends<std::string>(in, 8); front_ends<s8>(in, 8); }
        else if (enc == 16) front_ends<std::u16string>(in, 16);
        else { front_ends<std::u32string>(in, 32); front_ends<std::wstring>(in, 32); }
    }
    // the same text through chains of conversions comes back
    void round_trips(const units& scalars)
    {
        const units e8 = encode(scalars, 8), e16 = encode(scalars, 16), e32 = encode(scalars, 32);
        const std::string s8 = make<std::string>(e8); const std::u16string s16 = make<std::u16string>(e16); const std::u32string s32 = make<std::u32string>(e32);
        expect(from(pluto::str(pluto::u16str(s8))), e8, "roundtrip", "8->16->8", scalars);
        expect(from(pluto::str(pluto::u32str(s8))), e8, "roundtrip", "8->32->8", scalars);
        expect(from(pluto::str(pluto::wstr(s8))), e8, "roundtrip", "8->wide->8", scalars);
        IF20(expect(from(pluto::u16str(pluto::u8str(s16))), e16, "roundtrip", "16->8->16", scalars);)
        expect(from(pluto::u16str(pluto::str(s16))), e16, "roundtrip", "16->narrow->16", scalars);
        expect(from(pluto::u32str(pluto::wstr(pluto::u16str(pluto::str(s32))))), e32, "roundtrip", "32->narrow->16->wide->32", scalars);
        expect(from(pluto::u16str(pluto::u32str(s16))), e16, "roundtrip", "16->32->16", scalars);
        expect(from(pluto::u32str(pluto::str(s32))), e32, "roundtrip", "32->8->32", scalars);
        expect(from(pluto::u32str(pluto::u16str(s32))), e32, "roundtrip", "32->16->32", scalars);
        IF20(expect(from(pluto::u32str(pluto::wstr(pluto::u16str(pluto::u8str(s32))))), e32, "roundtrip", "32->8->16->wide->32", scalars);)
        hc::count("round_trips");
    }

    // ---- generators ---------------------------------------------------------------------------------
    const std::uint32_t edges[] = { 0, 1, 0x20, 0x41, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x2028, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFDD0, 0xFEFF,
        0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x1F600, 0x1FFFE, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF };
    std::uint32_t any_scalar(hc::rng& r)
    {
        std::uint32_t c;
        switch (r.in(0, 5))
        {
            case 0: return edges[r() % (sizeof edges / sizeof *edges)];
            case 1: return static_cast<std::uint32_t>(r.in(0, 0x7F));
            case 2: return static_cast<std::uint32_t>(r.in(0x80, 0x7FF));
            case 3: do c = static_cast<std::uint32_t>(r.in(0x800, 0xFFFF)); while (!scalar(c)); return c;
            default: return static_cast<std::uint32_t>(r.in(0x10000, 0x10FFFF));
        }
    }
    std::uint32_t any_unit(hc::rng& r, int enc)
    {
        static const std::uint32_t b8[] = { 0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF };
        static const std::uint32_t b16[] = { 0, 0x41, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFE, 0xDBFF, 0xDC00, 0xDC01, 0xDFFE, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF };
        static const std::uint32_t b32[] = { 0, 0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0x80000041, 0xFFFF0041, 0xFFFFFFFF };
        if (enc == 8) return r.chance(60) ? b8[r() % (sizeof b8 / 4)] : static_cast<std::uint32_t>(r.in(0, 255));
        if (enc == 16) return r.chance(70) ? b16[r() % (sizeof b16 / 4)] : static_cast<std::uint32_t>(r.in(0, 0xFFFF));
        return r.chance(70) ? b32[r() % (sizeof b32 / 4)] : static_cast<std::uint32_t>(r());
    }
    units prefix(hc::rng& r, int) { units p; for (long n = r.chance(50) ? r.in(1, 20) : 0; n > 0; --n) p.push_back(static_cast<std::uint32_t>(r.in(1, 0x7F))); return p; }

    void random_case(hc::rng& r, bool valid)
    {
        const int enc = r.chance(50) ? 8 : r.chance(60) ? 16 : 32;
        const long len = r() % 500 == 0 ? r.in(60000, 140000) : r.chance(70) ? r.in(0, 12) : r.chance(80) ? r.in(10, 200) : r.in(200, 4000);
        units scalars, in;
        if (valid)
        {
            for (long i = 0; i < len; ++i) scalars.push_back(any_scalar(r));
            round_trips(scalars);
            for (int e : { 8, 16, 32 }) { in = encode(scalars, e); low_level(in, e, prefix(r, e), true); all_front_ends(in, e); }
            hc::count("valid_texts");
        }
        else
        {
            // pieces: well-formed runs, raw units, damaged encodings
            while (static_cast<long>(in.size()) < len)
            {
                units one; put(one, any_scalar(r), enc);
                switch (r.in(0, 6))
                {
                    case 0: one = { any_unit(r, enc) }; break;
                    case 1: one[r() % one.size()] = any_unit(r, enc); break;
                    case 2: one.resize(r() % one.size()); break;                            // truncated
                    case 3: one.erase(one.begin()); break;                                  // lead missing
                    case 4: one[0] ^= 1u << r.in(0, enc == 32 ? 31 : enc - 1); break;
                    default: break;
                }
                in.insert(in.end(), one.begin(), one.end());
            }
            low_level(in, enc, prefix(r, enc), true);
            all_front_ends(in, enc);
            // every truncation of a short text
            if (in.size() <= 12) while (!in.empty()) { in.pop_back(); low_level(in, enc, {}, false); }
            hc::count("damaged_texts");
        }
        hc::distinct(hc::mix(static_cast<std::uint64_t>(enc), r.s));
        if (len > 50000) hc::count("long_texts");
        if (len > 3 && len < 30) hc::sample((valid ? "valid UTF-" : "damaged UTF-") + str(enc) + ": " + show(in));
    }
}

int main(int argc, char** argv)
{
    hc::init(argc, argv);
    const std::uint64_t seed = static_cast<std::uint64_t>(hc::num("seed", 1));
    const long first = hc::num("first", 0), n = hc::num("n", 100), stride = hc::num("stride", 1);
    const std::string mix = hc::text("mix", "v");
    const std::string tag = "seed=" + std::to_string(seed) + " n=1 mix=" + mix + " first=";
    if (mix == "e")
    {   // every scalar value (and, as damage, every surrogate) alone and between neighbours; n is ignored
        for (std::uint32_t c = static_cast<std::uint32_t>(first); c < 0x110000; c += static_cast<std::uint32_t>(stride))
        {
            if (c % 64 == static_cast<std::uint32_t>(first) % 64) hc::on_step((tag + std::to_string(first) + " stride=" + std::to_string(stride)).c_str());
            hc::count("iterations");
            const units alone{ c }, between{ 0x41, c, c, 0x1F600, c };
            if (scalar(c))
            {
                for (int e : { 8, 16, 32 }) { low_level(encode(alone, e), e, {}, false); low_level(encode(between, e), e, {}, false); }
                round_trips(alone);
            }
            else for (int e : { 16, 32 }) { low_level(alone, e, {}, false); low_level({ 0x41, c, 0x42 }, e, {}, false); low_level({ c, 0xDC00, c }, e, {}, false); low_level({ 0xD800, c }, e, {}, false); }
            hc::distinct(c);
            if (hc::violations() > 20) break;
        }
        return hc::finish();
    }
    if (mix == "b")
    {   // every sequence of up to two bytes, every third byte after every lead pair, and four-byte sequences of boundary bytes
        static const std::uint32_t b[] = { 0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF8, 0xFF };
        const std::size_t nb = sizeof b / sizeof *b;
        const long total = 65536;
        for (long q = first; q < total; q += stride)
        {
            hc::on_step((tag + std::to_string(q) + " stride=65536").c_str());
            hc::count("iterations");
            const std::uint32_t x = static_cast<std::uint32_t>(q) >> 8, y = static_cast<std::uint32_t>(q) & 255;
            if (y == 0) low_level({ x }, 8, {}, false);
            low_level({ x, y }, 8, {}, false);
            if (x >= 0xC0 && x < 0xF8)
            {
                const bool thin = n < 256;      // quick: boundary bytes only
                for (std::uint32_t z = 0; z < 256; ++z) { if (thin && std::find(b, b + nb, z) == b + nb) continue; low_level({ x, y, z }, 8, {}, false); }
                if (y >= 0x70 && y < 0xC8 && x >= 0xDF) for (auto z : b) for (auto w : b) low_level({ x, y, z, w }, 8, {}, false);
            }
            hc::distinct(static_cast<std::uint64_t>(q));
            if (hc::violations() > 20) break;
        }
        return hc::finish();
    }
    for (long i = first; i < first + n * stride; i += stride)
    {
        hc::rng r(seed * 1000003ULL + static_cast<std::uint64_t>(i));
        hc::on_step((tag + std::to_string(i)).c_str());
        hc::count("iterations");
        random_case(r, mix == "v");
        if (hc::violations() > 20) break;
    }
    return hc::finish();
}
