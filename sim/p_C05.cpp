// C05: a damaged document is rejected or read as exactly what it says.
#include "docs.hpp"

const char* const sim::property = "C05";

using namespace real;

namespace
{
U ascii(const char* s) { U o; for (; *s; ++s) o.push_back((unsigned char)*s); return o; }

// text at the border of the grammar
U border_number()
{
    U o;
    if (draw(2)) o.push_back(draw(2) ? '-' : '+');
    if (chance(1, 8)) o.push_back('-');
    const uint32_t k = draw(7);
    char b[64];
    switch (k)
    {
    case 0: { static const char* const n[] = { "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775810", "18446744073709551615", "18446744073709551616",
                                               "18446744073709551617", "92233720368547758070", "9223372036854775799", "10000000000000000000", "99999999999999999999", "922337203685477580" };
              o += ascii(n[draw(12)]); break; }
    case 1: snprintf(b, sizeof b, "%u", draw(1000)); o += ascii(b); break;
    case 2: for (uint32_t n = draw(30); n; --n) o.push_back('0' + draw(10)); break;
    case 3: o += ascii(draw(2) ? "0" : "00"); break;
    case 4: o += ascii("0."); o.append(draw(4), '0'); break;
    case 5: snprintf(b, sizeof b, "%u.%u", draw(100), draw(1000)); o += ascii(b); break;
    default: snprintf(b, sizeof b, "%u", draw(10)); o += ascii(b); break;
    }
    if (draw(2))
    {
        if (chance(1, 3)) o.push_back('.');
        if (chance(1, 3)) o.push_back('0' + draw(10));
        if (draw(2)) o.push_back(draw(2) ? 'e' : 'E');
        if (draw(2)) o.push_back(draw(2) ? '-' : '+');
        for (uint32_t n = chance(1, 8) ? 4 + draw(12) : draw(4); n; --n) o.push_back('0' + draw(10));
        if (chance(1, 6)) o.push_back("eE.+-x"[draw(6)]);
    }
    return o;
}
U border_escape()
{
    U o = ascii("\\");
    if (chance(1, 4)) { o.push_back("bfnrt/\"\\uxaUN0 '"[draw(16)]); return o; }
    o.push_back('u');
    static const char* const h[] = { "D800", "DBFF", "DC00", "DFFF", "d83d", "DE00", "0000", "0041", "FFFF", "E000", "D7FF", "00e4" };
    for (uint32_t n = 1 + draw(3); n; --n)
    {
        U x = ascii(h[draw(12)]);
        if (chance(1, 6)) x[draw(4)] = "ghGH/:@`\" \\"[draw(11)];
        if (chance(1, 8)) x.resize(draw(4));
        o += x;
        if (n > 1) o += ascii(draw(4) ? "\\u" : draw(2) ? "u" : "\\");
    }
    return o;
}
U border_literal()
{
    static const char* const l[] = { "true", "false", "null" };
    U o = ascii(l[draw(3)]);
    switch (draw(5))
    {
    case 0: o.resize(draw((uint32_t)o.size())); break;
    case 1: o.push_back(o[draw((uint32_t)o.size())]); break;
    case 2: o[draw((uint32_t)o.size())] ^= 0x20; break;
    case 3: o[draw((uint32_t)o.size())] += 0x100; break;  // the same low byte
    default: break;
    }
    return o;
}
U border_structure()
{
    static const char* const s[] = { "[", "]", "{", "}", ":", ",", "\"a\"", "1", "null", "/**/", "//x\n", "/", "*/", "[]", "{}", "\"a\":1", ",,", "/*", "//" };
    U o;
    for (uint32_t n = 1 + draw(7); n; --n) o += ascii(s[draw(19)]);
    return o;
}
U border_chars()
{
    static const uint32_t c[] = { 0x00, 0x01, 0x1f, 0x20, 0x22, 0x5c, 0x7f, 0x80, 0xa0, 0x85, 0xff, 0x100, 0x122, 0x12c, 0x131, 0x15c, 0x17b, 0x2028, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x0b, 0x0c };
    U o;
    for (uint32_t n = 1 + draw(3); n; --n) o.push_back(c[draw(sizeof c / 4)]);
    return o;
}

template <class C> std::basic_string<C> raw_units();
template <> std::string raw_units<char>()
{
    static const char* const r[] = { "\xc0\x80", "\xc1\xbf", "\xc0\xa2", "\xe0\x80\xa2", "\xe0\x9f\xbf", "\xf0\x80\x80\xa2", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80",
                                     "\xfc\x84\x80\x80\x80\x80", "\xfe", "\xff", "\x80", "\xbf", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xc3\x28", "\xe4\x28\xad", "\xe4\xb8\x22", "\xf0\x9f\x22\x80", "\xc3\xc3\xa4", "\xed\x9f\xbf",
                                     "\xee\x80\x80", "\xf4\x8f\xbf\xbf", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xf0\x90\x80\x80" };
    std::string s = r[draw(30)];
    if (chance(1, 6)) s += r[draw(30)];
    return s;
}
template <> std::wstring raw_units<wchar_t>()
{
    static const uint32_t r[] = { 0x110000, 0x7fffffff, 0x80000022, 0x1000022, 0x110022, 0xffffff00 };
    return std::wstring(1, (wchar_t)r[draw(6)]);
}

template <class J, class C> struct Prog
{
    typedef typename J::value V;
    typedef std::basic_string<C> S;

    static std::vector<uint32_t> reference_units(const Doc<C>& d)
    {
        if (d.enc != E_BLOCK && d.enc != E_MIXED) return model::decode_units(d.text);
        std::vector<uint32_t> o;
        for (size_t i = 0; i < d.text.size(); i += 6)
        {
            uint32_t cp = 0;
            bool ok = i + 6 <= d.text.size();
            for (size_t k = 0; ok && k < 6; ++k)
            {
                C c = d.text[i + k];
                ok = c >= C('A') && c <= C('P');
                cp = cp << 4 | (uint32_t)(c - C('A'));
            }
            if (!ok) { o.push_back(model::BAD); break; }
            o.push_back(cp);
        }
        return o;
    }

    static void check(const Doc<C>& d, bool must_accept)
    {
        model::Ref ref = model::parse(reference_units(d));
        Src<C> s;
        ParseReq<J, C> q;
        s.text = d.text;
        q.enc  = d.enc;
        gen_source<J, C>(s, q);
        V out;
        prefill(out);
        sim::alloc_arm(~0ull, 0);
        ParseRes r = Parser<J, C>::parse(s, q, out);
        const uint64_t allocs = sim::alloc_disarm();
        ev("%s -> %s %s; reference %s", show_req(q, s).c_str(), kind_name(r.kind), r.what.c_str(), ref.ok ? "accepts" : ref.why.c_str());
        MV got = val<V>::lift(out);
        if (ref.fuzzy) { sim::probe("not-judged"); return; }
        if (r.kind != OK && r.kind != DES)
            sim::violate("wrong-error", "%s fails with %s '%s' for %s", show_req(q, s).c_str(), kind_name(r.kind), r.what.c_str(), show_units(d.text).c_str());
        if (r.ok())
        {
            if (!ref.ok) sim::violate("garbage-accepted", "%s read %s from %s, which is no document (%s)", show_req(q, s).c_str(), model::show(got, 200).c_str(), show_units(d.text).c_str(), ref.why.c_str());
            if (!model::same(got, ref.v)) sim::violate("misread", "%s read %s from %s, which says %s", show_req(q, s).c_str(), model::show(got, 200).c_str(), show_units(d.text).c_str(), model::show(ref.v, 200).c_str());
            sim::probe(d.damaged ? "damaged-but-a-document" : "undamaged");
        }
        else
        {
            if (!d.damaged || (must_accept && ref.ok)) sim::violate("good-document-rejected", "%s: %s '%s' for %s", show_req(q, s).c_str(), kind_name(r.kind), r.what.c_str(), show_units(d.text).c_str());
            sim::probe(ref.ok ? "rejected-though-lenient" : "damaged-rejected");
        }
        { LibScope l; out = nullptr; }
        if (allocs && draw(2)) short_of_memory(d, ref, s, q, allocs);
    }

    // the same parse when memory runs out inside: a failure or the same value
    static void short_of_memory(const Doc<C>& d, const model::Ref& ref, Src<C>& s, const ParseReq<J, C>& q, uint64_t allocs)
    {
        s = again(s);
        V out;
        prefill(out);
        const uint64_t at = draw((uint32_t)allocs), burst = chance(1, 3) ? 1 + draw(4) : 1;
        sim::alloc_arm(at, burst);
        ParseRes r = Parser<J, C>::parse(s, q, out);
        const bool fired = sim::alloc_fired() != 0;
        sim::alloc_disarm();
        if (fired) sim::fault("alloc-fail");
        ev("again with allocation %llu+%llu of %llu failing -> %s %s", (unsigned long long)at, (unsigned long long)burst, (unsigned long long)allocs, kind_name(r.kind), r.what.c_str());
        MV got = val<V>::lift(out);
        if (r.ok() && (!ref.ok || !model::same(got, ref.v)))
            sim::violate("misread-without-memory", "%s with allocation %llu of %llu failing read %s from %s, which %s%s", show_req(q, s).c_str(), (unsigned long long)at, (unsigned long long)allocs,
                         model::show(got, 200).c_str(), show_units(d.text).c_str(), ref.ok ? "says " : "is no document", ref.ok ? model::show(ref.v, 200).c_str() : "");
        if (r.kind != OK && r.kind != DES && r.kind != NOMEM)
            sim::violate("wrong-error", "%s with allocation %llu of %llu failing fails with %s '%s' for %s", show_req(q, s).c_str(), (unsigned long long)at, (unsigned long long)allocs, kind_name(r.kind), r.what.c_str(), show_units(d.text).c_str());
        LibScope l;
        out = nullptr;
    }
    static Src<C> again(const Src<C>& s)
    {
        Src<C> n;
        n.text = s.text; n.chunk = s.chunk; n.nul_end = s.nul_end; n.bulk = s.bulk; n.steady = s.steady;
        return n;
    }

    static void run()
    {
        const uint32_t n = 3 + draw(6);
        for (uint32_t i = 0; i < n; ++i)
        {
            model::Gen g;
            g.budget = sim::thorough() ? 50 : 14;
            g.large  = 300;
            g.deep   = true;
            Doc<C> d;
            // units whose meaning the reference knows
            static const Enc narrow[] = { E_DEFAULT, E_DEFAULT, E_AUTO, E_UTF8, E_BLOCK, E_MIXED }, wide[] = { E_DEFAULT, E_DEFAULT, E_AUTO, E_UTF32, E_BLOCK, E_MIXED };
            const uint32_t mode = draw(4);
            d.damaged = false;
            bool must = false;
            d.enc = sizeof(C) == 1 ? narrow[draw(6)] : wide[draw(6)];
            if (mode == 3)
            {
                // the border of the grammar, placed somewhere
                static const char* const pre[] = { "", "[", "[1,", "{\"a\":", "{\"", "\"", "\"x", "[[{\"k\":[", " ", "/*", "//" };
                static const char* const post[] = { "", "]", ",2]", "}", "\":1}", "\"", "y\"", "]}]]", " ", "*/1", "\n1" };
                const uint32_t k = draw(11);
                U f;
                switch (draw(5))
                {
                case 0: f = border_number(); must = true; break;
                case 1: f = border_escape(); break;
                case 2: f = border_literal(); must = true; break;
                case 3: f = border_structure(); must = true; break;
                default: f = border_chars(); break;
                }
                d.cps = ascii(pre[k]) + f + ascii(post[k]);
                d.text = units(d.cps, d.enc, C());
                if (chance(1, 5) && d.enc != E_BLOCK && d.enc != E_MIXED) { d.text.insert(draw((uint32_t)d.text.size() + 1), raw_units<C>()); must = false; }
                d.damaged = true;
                sim::fault("border-of-grammar");
            }
            else
            {
                d.m    = model::gen_value(g);
                d.cps  = model::gen_doc(d.m, model::gen_style());
                d.text = units(d.cps, d.enc, C());
                if (mode)
                {
                    damage(d, mode == 1 ? 1 : 1 + draw(3));
                    if (chance(1, 6)) { d.text.insert(draw((uint32_t)d.text.size() + 1), raw_units<C>()); sim::fault("storage-malformed-character"); }
                }
            }
            if (sizeof(C) == 4 && has_end_marker(d.text)) continue;
            ev_units("doc", d.text);
            if (d.damaged) sim::nontrivial();
            check(d, must);
        }
    }
};
}  // namespace

void sim::run()
{
    switch (draw(6))
    {
    case 0: case 1: case 2: Prog<configor::json, char>::run(); break;
    case 3: case 4: Prog<configor::wjson, wchar_t>::run(); break;
    case 5: Prog<configor::wjson, char>::run(); break;
    }
}
