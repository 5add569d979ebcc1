// Documents as unit sequences: generation, encoding, storage damage, and the
// choice of a source to read them from.
#pragma once
#include "real.hpp"

namespace real
{

template <class C> Enc gen_enc()
{
    if (sizeof(C) == 1)
    {
        static const Enc e[] = { E_DEFAULT, E_DEFAULT, E_DEFAULT, E_DEFAULT, E_AUTO, E_UTF8, E_BLOCK, E_MIXED };
        return e[draw(8)];
    }
    static const Enc e[] = { E_DEFAULT, E_DEFAULT, E_DEFAULT, E_AUTO, E_UTF8, E_UTF16, E_UTF32, E_BLOCK, E_MIXED };
    return e[draw(9)];
}

// a target that already holds something else
template <class V> void prefill(V& out)
{
    const uint32_t k = draw(8);   // 0..3: a fresh one
    typename V::string_type text(3, typename V::char_type('z'));
    LibScope l;
    switch (k)
    {
    case 4: out = true; break;
    case 5: out = text; break;
    case 6: out = V(typename V::array_type{ V(1), V(text), V(nullptr) }); break;
    case 7: out[text] = 2.5; out[typename V::string_type(1, typename V::char_type('a'))] = V(typename V::array_type{ V(7) }); break;
    default: return;
    }
    UserScope u;
    sim::probe("target-already-filled");
}

template <class C> struct Doc
{
    MV   m;
    U    cps;      // the document in code points
    Enc  enc;
    bool damaged;
    std::basic_string<C> text;
};

// with the `ignore` encoding, code points are carried as they are: for plain text
inline bool plain(const U& s) { for (char32_t c : s) if (c > 0x7f) return false; return true; }
inline bool plain(const MV& m)
{
    if (!plain(m.s)) return false;
    for (const MV& x : m.a) if (!plain(x)) return false;
    for (auto& x : m.o) if (!plain(x.first) || !plain(x.second)) return false;
    return true;
}
inline void gen_ignore(Enc& e, const MV& m, const U& cps)
{
    if (e == E_DEFAULT && chance(1, 5) && plain(m) && plain(cps)) { e = E_IGNORE; sim::probe("encoding-ignore"); }
}

template <class C> Doc<C> gen_document(model::Gen& g, bool container_only = false)
{
    Doc<C> d;
    d.m       = container_only ? model::gen_container(g) : model::gen_value(g);
    d.cps     = model::gen_doc(d.m, model::gen_style());
    d.enc     = gen_enc<C>();
    gen_ignore(d.enc, d.m, d.cps);
    d.damaged = false;
    d.text    = units(d.cps, d.enc, C());
    return d;
}

inline std::string  convert_one(uint32_t cp, char) { return model::to_utf8(U(1, cp)); }
inline std::wstring convert_one(uint32_t cp, wchar_t) { return std::wstring(1, (wchar_t)cp); }

// one act of damage to stored units
template <class C> const char* damage_once(std::basic_string<C>& t)
{
    const uint32_t n = (uint32_t)t.size();
    static const char structural[] = "{}[]:,\"\\/*-+.eE0123456789tfnu \n";
    if (n == 0) { t += C(structural[draw(sizeof structural - 1)]); return "insert"; }
    const uint32_t i = draw(n);
    switch (draw(12))
    {
    case 0: t[i] = C((typename std::make_unsigned<C>::type)t[i] ^ (1u << draw(8))); return "bit-flip";
    case 1: t.erase(i, 1); return "lost";
    case 2: t.insert(i, 1, t[i]); return "duplicated";
    case 3: if (i + 1 < n) std::swap(t[i], t[i + 1]); return "swapped";
    case 4: t[i] = C(0); return "zeroed";
    case 5: t.resize(i); return "truncated";
    case 6: t.insert(i, 1, C(structural[draw(sizeof structural - 1)])); return "insert";
    case 7: t[i] = C(structural[draw(sizeof structural - 1)]); return "overwritten";
    case 8:
    {
        // units no sound text contains, or that look like another one once narrowed
        static const unsigned char odd[] = { 0xff, 0xfe, 0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xf0, 0xf8, 0x7f, 0x1f, 0x0b };
        t.insert(i, 1, C(odd[draw(12)]));
        return "stray-unit";
    }
    case 9:
    {
        // a code point sharing its low byte with a character of the grammar
        const uint32_t cp = (uint32_t)(unsigned char)structural[draw(sizeof structural - 1)] | ((1u + draw(4)) << 8);
        if (sizeof(C) == 1) t.insert(i, convert_one(cp, C()));
        else t[i] = C(cp);
        return "look-alike";
    }
    case 11:
    {
        const std::basic_string<C> m = convert_one(0xFEFF, C());
        t.insert(draw(4) ? 0 : i, m);
        return "byte-order-mark";
    }
    default:
    {
        // a block lost, repeated or zeroed, as by a misdirected sector
        uint32_t len = 1 + draw(12);
        if (i + len > n) len = n - i;
        switch (draw(3))
        {
        case 0: t.erase(i, len); return "block-lost";
        case 1: t.insert(i, t.substr(i, len)); return "block-duplicated";
        default: for (uint32_t k = 0; k < len; ++k) t[i + k] = C(0); return "block-zeroed";
        }
    }
    }
}

template <class C> void damage(Doc<C>& d, uint32_t times)
{
    for (uint32_t k = 0; k < times; ++k)
    {
        const char* what = damage_once(d.text);
        char b[60];
        snprintf(b, sizeof b, "storage-%s", what);
        sim::fault(b);
    }
    d.damaged = true;
}

inline bool wide_file_ok(const std::wstring& t)
{
    size_t bytes = 0;
    for (wchar_t c : t)
    {
        if ((uint32_t)c > 0x10FFFF || ((uint32_t)c >= 0xD800 && (uint32_t)c <= 0xDFFF)) return false;
        bytes += 4;
    }
    return bytes < 60000;
}
inline bool wide_file_ok(const std::string& t) { return t.size() < 60000; }

template <class C> bool has_end_marker(const std::basic_string<C>& t)
{
    const C m = std::char_traits<C>::to_char_type(std::char_traits<C>::eof());
    return t.find(m) != std::basic_string<C>::npos;
}

// can this kind of source carry the text?
template <class C> bool carries(int kind, const std::basic_string<C>& t)
{
    switch (kind)
    {
    case S_CSTR: return t.find(C(0)) == std::basic_string<C>::npos;
    case S_ADAPTER: return !has_end_marker(t);
    case S_FILE: return wide_file_ok(t);
    case S_UNBUF: case S_CHUNK: case S_STREAM: case S_SSTREAM: return sizeof(C) == 1 || !has_end_marker(t);
    default: return sizeof(C) == 1 || !has_end_marker(t);
    }
}

// fills in kind, api and chunking; the text is already in s
template <class J, class C> void gen_source(Src<C>& s, ParseReq<J, C>& q, uint32_t mask = ~0u)
{
    q.kind = (int)draw(S_KINDS);
    while (!((mask >> q.kind) & 1)) q.kind = (q.kind + 1 + (int)draw(S_KINDS - 1)) % S_KINDS;
    if (!carries(q.kind, s.text)) q.kind = (mask & (1u << S_CHUNK)) && carries(S_CHUNK, s.text) ? (int)S_CHUNK : (int)S_STRING;
    s.chunk = draw(2) ? 1 + draw(3) : 1 + draw(40);
    if (q.kind == S_FILE) q.api = sizeof(C) == 1 ? (int)draw(4) : (int)draw(2);
    else if (q.kind == S_STRING || q.kind == S_CSTR) q.api = (int)draw(2);
    else
    {
        q.api = (int)draw(3);
        if (q.api == 2 && (q.enc != E_DEFAULT || q.eh)) q.api = (int)draw(2);  // operator>> takes no options
        q.noskipws = draw(2) != 0;
        // operator>> skips more kinds of white space than JSON has
        if (q.api == 2 && !q.noskipws)
        {
            size_t i = 0;
            while (i < s.text.size() && (s.text[i] == C(' ') || s.text[i] == C('\t') || s.text[i] == C('\n') || s.text[i] == C('\r'))) ++i;
            if (i < s.text.size() && (s.text[i] == C('\v') || s.text[i] == C('\f') || (sizeof(C) > 1 && (uint32_t)s.text[i] > 0x7f))) q.noskipws = true;
        }
    }
    if (q.kind == S_ADAPTER)
    {
        s.bulk    = draw(2) != 0;
        s.nul_end = draw(2) != 0 && q.enc != E_BLOCK && q.enc != E_MIXED;
    }
}

template <class J, class C> std::string show_req(const ParseReq<J, C>& q, const Src<C>& s)
{
    char b[200];
    snprintf(b, sizeof b, "%s api=%d enc=%d chunk<=%zu%s%s fault=%s", src_name(q.kind), q.api, (int)q.enc, s.chunk, q.eh ? " handler" : "",
             q.api == 2 && !q.noskipws ? " skipws" : "", s.fault.str().c_str());
    return b;
}

}  // namespace real
