// C19: text crosses every encoding unchanged, or is refused.
#include "docs.hpp"

const char* const sim::property = "C19";

using namespace real;

namespace
{
const uint32_t BAD = model::BAD;
bool surrogate(uint32_t c) { return c >= 0xD800 && c <= 0xDFFF; }

// ---- the reference: what units mean, and how characters are written ------------------

enum Verdict { FINE, REFUSED, UNJUDGED };

Enc meant(Enc e, bool wide)
{
    if (e == E_DEFAULT || e == E_AUTO || e == E_REFUSE) return wide ? E_UTF32 : E_UTF8;
    return e == E_MIXED ? E_BLOCK : e;
}

// code points, up to and including the first BAD
std::vector<uint32_t> decode(const U& u, Enc enc, bool wide, bool& unjudged)
{
    std::vector<uint32_t> o;
    const Enc e = meant(enc, wide);
    size_t i = 0;
    while (i < u.size())
    {
        uint32_t c = u[i++];
        if (wide && c == 0xFFFFFFFF) { o.push_back(BAD); return o; }  // what a stream takes for its end
        if (e == E_UTF8)
        {
            const int more = c < 0x80 ? 0 : c < 0xC0 ? -1 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : c < 0xF8 ? 3 : -1;
            if (c > 0xFF || more < 0) { o.push_back(BAD); return o; }
            if (more) c &= 0x3F >> more;
            for (int k = 0; k < more; ++k)
            {
                if (i == u.size() || u[i] < 0x80 || u[i] > 0xBF) { o.push_back(BAD); return o; }
                c = c << 6 | (u[i++] & 0x3F);
            }
            static const uint32_t least[] = { 0, 0x80, 0x800, 0x10000 };
            if (c < least[more] || c > 0x10FFFF) { o.push_back(BAD); return o; }
        }
        else if (e == E_UTF16)
        {
            if (c > 0xFFFF) { o.push_back(BAD); return o; }
            if (c >= 0xD800 && c <= 0xDBFF)
            {
                if (i == u.size() || u[i] < 0xDC00 || u[i] > 0xDFFF) { o.push_back(BAD); return o; }
                c = 0x10000 + ((c - 0xD800) << 10) + (u[i++] - 0xDC00);
            }
        }
        else if (e == E_UTF32)
        {
            if (c > 0x10FFFF) { o.push_back(BAD); return o; }
        }
        else if (e == E_BLOCK)
        {
            uint32_t v = 0;
            --i;
            for (int k = 0; k < 6; ++k, ++i)
            {
                if (i == u.size() || u[i] < 'A' || u[i] > 'P') { o.push_back(BAD); return o; }
                v = v << 4 | (u[i] - 'A');
            }
            c = v;
        }
        else if (!wide && c >= 0x80)
        {
            // `ignore` does not say what a unit beyond ASCII means
            c |= 0xFFFFFF00;
            unjudged = true;
        }
        if (surrogate(c)) unjudged = true;  // lone surrogates may or may not be let through
        if (enc == E_REFUSE && c == 'q') { o.push_back(BAD); return o; }
        o.push_back(c);
    }
    return o;
}

Verdict encode(uint32_t c, Enc enc, bool wide, U& o)
{
    const Enc e = meant(enc, wide);
    if (enc == E_REFUSE && c == 'q') return REFUSED;
    if (e == E_IGNORE)
    {
        if (!wide && c >= 0x100) return UNJUDGED;
        o.push_back(c);
        return FINE;
    }
    if (c > 0x10FFFF && e != E_BLOCK) return REFUSED;
    if (surrogate(c)) return UNJUDGED;
    switch (e)
    {
    case E_UTF8:
        if (c < 0x80) o.push_back(c);
        else if (c < 0x800) { o.push_back(0xC0 + c / 64); o.push_back(0x80 + c % 64); }
        else if (c < 0x10000) { o.push_back(0xE0 + c / 4096); o.push_back(0x80 + c / 64 % 64); o.push_back(0x80 + c % 64); }
        else { o.push_back(0xF0 + c / 262144); o.push_back(0x80 + c / 4096 % 64); o.push_back(0x80 + c / 64 % 64); o.push_back(0x80 + c % 64); }
        break;
    case E_UTF16:
        if (c < 0x10000) o.push_back(c);
        else { o.push_back(0xD800 + (c - 0x10000) / 1024); o.push_back(0xDC00 + (c - 0x10000) % 1024); }
        break;
    case E_BLOCK:
        if (c > 0xFFFFFF) return REFUSED;
        for (int k = 20; k >= 0; k -= 4) o.push_back('A' + (c >> k & 15));
        break;
    default: o.push_back(c); break;
    }
    return FINE;
}

Verdict encode(const U& cps, Enc e, bool wide, U& o)
{
    for (char32_t c : cps) { const Verdict v = encode(c, e, wide, o); if (v != FINE) return v; }
    return FINE;
}
Verdict encode_value(const MV& m, Enc e, bool wide, MV& o)
{
    o = MV();
    o.t = m.t; o.b = m.b; o.i = m.i; o.d = m.d; o.fuzzy = m.fuzzy;
    Verdict v = encode(m.s, e, wide, o.s);
    for (const MV& x : m.a) { o.a.emplace_back(); v = std::max(v, encode_value(x, e, wide, o.a.back())); }
    for (auto& x : m.o)
    {
        U k;
        v = std::max(v, encode(x.first, e, wide, k));
        v = std::max(v, encode_value(x.second, e, wide, o.o[k]));
    }
    return v;
}

// the compact text of a value whose strings are units of `from`
struct Writer
{
    U       out;
    Verdict v;
    Enc     from, to;
    bool    from_wide, to_wide, escape;
    void plain(const char* s) { for (; *s; ++s) out.push_back((unsigned char)*s); }
    void str(const U& raw)
    {
        plain("\"");
        bool unjudged = false;
        for (uint32_t c : decode(raw, from, from_wide, unjudged))
        {
            char b[20];
            if (v != FINE) return;
            if (c == BAD) { v = REFUSED; break; }
            const char* const at = c < 0x80 && c ? strchr("\t\r\n\b\f\"\\", (int)c) : nullptr;
            if (at) { snprintf(b, sizeof b, "\\%c", "trnbf\"\\"[short_of(c)]); plain(b); }
            else if (c < 0x20 || (escape && c >= 0x7F))
            {
                if (c > 0x10FFFF) { v = UNJUDGED; return; }
                if (c < 0x10000) snprintf(b, sizeof b, "\\u%04X", c);
                else snprintf(b, sizeof b, "\\u%04X\\u%04X", 0xD800 + (c - 0x10000) / 1024, 0xDC00 + (c - 0x10000) % 1024);
                plain(b);
            }
            else v = encode(c, to, to_wide, out);
        }
        if (unjudged) v = UNJUDGED;
        plain("\"");
    }
    static int short_of(uint32_t c) { return c == '\t' ? 0 : c == '\r' ? 1 : c == '\n' ? 2 : c == '\b' ? 3 : c == '\f' ? 4 : c == '"' ? 5 : 6; }
    void value(const MV& m)
    {
        bool first = true;
        switch (m.t)
        {
        case MV::Null: plain("null"); break;
        case MV::Bool: plain(m.b ? "true" : "false"); break;
        case MV::Int: plain(std::to_string((long long)m.i).c_str()); break;
        case MV::Str: str(m.s); break;
        case MV::Arr:
            plain("[");
            for (const MV& x : m.a) { if (!first) plain(","); first = false; value(x); if (v != FINE) return; }
            plain("]");
            break;
        case MV::Obj:
            plain("{");
            for (auto& x : m.o) { if (!first) plain(","); first = false; str(x.first); plain(":"); if (v == FINE) value(x.second); if (v != FINE) return; }
            plain("}");
            break;
        default: v = UNJUDGED; return;
        }
    }
};

bool has_float(const MV& m)
{
    if (m.t == MV::Float) return true;
    for (const MV& x : m.a) if (has_float(x)) return true;
    for (auto& x : m.o) if (has_float(x.second)) return true;
    return false;
}

// ---- real values as raw units --------------------------------------------------------

template <class S> U raw(const S& s)
{
    U o;
    for (auto c : s) o.push_back((char32_t)(typename std::make_unsigned<typename S::value_type>::type)c);
    return o;
}
template <class C> std::basic_string<C> cooked(const U& u)
{
    std::basic_string<C> o;
    for (char32_t c : u) o.push_back((C)c);
    return o;
}
template <class V> V raw_build(const MV& m)
{
    typedef typename V::char_type C;
    switch (m.t)
    {
    case MV::Bool: return V(m.b);
    case MV::Int: return V((int64_t)m.i);
    case MV::Float: return V(m.d);
    case MV::Str: return V(cooked<C>(m.s));
    case MV::Arr: { V v(configor::value_constant::array); for (auto& x : m.a) v.push_back(raw_build<V>(x)); return v; }
    case MV::Obj: { V v(configor::value_constant::object); for (auto& x : m.o) v[cooked<C>(x.first)] = raw_build<V>(x.second); return v; }
    default: return V();
    }
}
template <class V> MV raw_lift(const V& v)
{
    if (v.is_string()) return MV::string(raw(*v.data().string));
    if (v.is_array()) { MV m = MV::array(); for (auto& x : *v.data().vector) m.a.push_back(raw_lift(x)); return m; }
    if (v.is_object()) { MV m = MV::object(); for (auto& x : *v.data().object) m.o[raw(x.first)] = raw_lift(x.second); return m; }
    return val<V>::lift(v);
}

// ---- choices ---------------------------------------------------------------------

Enc any_enc(bool wide)
{
    static const Enc n[] = { E_DEFAULT, E_DEFAULT, E_AUTO, E_UTF8, E_UTF8, E_BLOCK, E_MIXED, E_IGNORE, E_REFUSE };
    static const Enc w[] = { E_DEFAULT, E_DEFAULT, E_AUTO, E_UTF8, E_UTF8, E_UTF16, E_UTF16, E_UTF32, E_BLOCK, E_MIXED, E_IGNORE, E_REFUSE };
    return wide ? w[draw(12)] : n[draw(9)];
}
const char* enc_name(Enc e)
{
    static const char* const n[] = { "default", "auto", "utf8", "utf16", "utf32", "ignore", "block", "mixed", "throwing", "refusing" };
    return n[e];
}

// P: a parser or serializer; C: of which characters
template <class P, class C> struct Opt
{
    typedef typename P::option O;
#define SIM_OPT(fn)                                                                                   \
    static O fn(Enc e, std::true_type)                                                                \
    {                                                                                                 \
        switch (e)                                                                                    \
        {                                                                                             \
        case E_UTF16: return P::template with_##fn<configor::encoding::utf16>();                      \
        case E_UTF32: return P::template with_##fn<configor::encoding::utf32>();                      \
        default: return fn(e, std::false_type());                                                     \
        }                                                                                             \
    }                                                                                                 \
    static O fn(Enc e, std::false_type)                                                               \
    {                                                                                                 \
        switch (e)                                                                                    \
        {                                                                                             \
        case E_DEFAULT:                                                                               \
        case E_AUTO: return P::template with_##fn<configor::encoding::auto_utf>();                    \
        case E_UTF8: return P::template with_##fn<configor::encoding::utf8>();                        \
        case E_IGNORE: return P::template with_##fn<configor::encoding::ignore>();                    \
        case E_BLOCK: return P::template with_##fn<block_encoding>();                                 \
        case E_MIXED: return P::template with_##fn<mixed_encoding>();                                 \
        default: return P::template with_##fn<refusing_encoding>();                                   \
        }                                                                                             \
    }
    SIM_OPT(source_encoding)
    SIM_OPT(target_encoding)
#undef SIM_OPT
    static O both(Enc e)
    {
        switch (e)
        {
        case E_UTF8: return P::template with_encoding<configor::encoding::utf8>();
        case E_IGNORE: return P::template with_encoding<configor::encoding::ignore>();
        case E_BLOCK: return P::template with_encoding<block_encoding>();
        case E_MIXED: return P::template with_encoding<mixed_encoding>();
        case E_REFUSE: return P::template with_encoding<refusing_encoding>();
        default: return P::template with_encoding<configor::encoding::auto_utf>();
        }
    }
    static O none() { return [](P&) {}; }
    // source and target, in one of the ways to say so
    template <class From, class To> static void choose(Enc from, Enc to, O* o)
    {
        std::integral_constant<bool, sizeof(From) == 4> fw;
        std::integral_constant<bool, sizeof(To) == 4> tw;
        o[0] = o[1] = o[2] = none();
        if (chance(1, 4)) o[0] = both((Enc)(draw(2) ? E_BLOCK : E_IGNORE));  // overridden below
        if (from == to && from != E_UTF16 && from != E_UTF32 && chance(1, 3)) { o[1] = both(from); return; }
        const bool silent = !chance(1, 4) && from == E_DEFAULT && to == E_DEFAULT;
        if (silent) { o[0] = none(); return; }
        o[1] = source_encoding(from, fw);
        o[2] = target_encoding(to, tw);
        if (draw(2)) std::swap(o[1], o[2]);
    }
};

// ---- the relay -----------------------------------------------------------------------

struct Relay
{
    // the current holder of the data
    configor::json::value  n;
    configor::wjson::value w;
    bool have, wide;
    MV   m;      // strings as raw units
    Enc  venc;   // of the strings

    Relay() : have(false), wide(false), venc(E_DEFAULT) {}
    configor::json::value&  value(configor::json*) { return n; }
    configor::wjson::value& value(configor::wjson*) { return w; }

    static MV plain_value()
    {
        model::Gen g;
        g.budget = sim::thorough() ? 40 : 12;
        g.floats = false;
        g.large  = 250;
        return draw(5) ? model::gen_container(g) : MV::string(model::gen_string(g));
    }

    // strings of a value, for damage
    static void collect(MV& m, std::vector<U*>& v)
    {
        if (m.t == MV::Str) v.push_back(&m.s);
        for (MV& x : m.a) collect(x, v);
        for (auto& x : m.o) collect(x.second, v);
    }
    template <class C> void damage_memory()
    {
        if (m.t == MV::Obj && !m.o.empty() && chance(1, 4))
        {
            // a key
            auto it = m.o.begin();
            for (uint32_t k = draw((uint32_t)m.o.size()); k; --k) ++it;
            std::basic_string<C> s = cooked<C>(it->first);
            const char* what = harm(s);
            MV x = it->second;
            m.o.erase(it);
            m.o[raw(s)] = x;
            ev("key damaged: %s", what);
            return;
        }
        std::vector<U*> v;
        collect(m, v);
        if (v.empty()) return;
        U& u = *v[draw((uint32_t)v.size())];
        std::basic_string<C> s = cooked<C>(u);
        const char* what = harm(s);
        u = raw(s);
        ev("string damaged: %s", what);
    }
    template <class C> static const char* harm(std::basic_string<C>& s)
    {
        sim::fault("memory-damage");
        if (sizeof(C) == 4 && chance(1, 2))
        {
            // units that are too large for some encoding or for any
            static const uint32_t u[] = { 0x110000, 0x10FFFF, 0x10000, 0x10022, 0x122, 0x15C, 0x1FF, 0x100, 0x7FFFFFFF, 0x1000041, 0x110041, 0xFFFF, 0x1F600, 0x130, 0xFFFFFFFF };
            s.insert(draw((uint32_t)s.size() + 1), 1, (C)u[draw(15)]);
            return "unit out of range";
        }
        if (chance(1, 4)) { s.insert(draw((uint32_t)s.size() + 1), 1, (C)'q'); return "character to be refused"; }
        return damage_once(s);
    }

    template <class J> void fresh()
    {
        typedef typename J::value V;
        typedef typename V::char_type C;
        const bool is_wide = sizeof(C) == 4;
        const MV cps = plain_value();
        venc = any_enc(is_wide);
        if (encode_value(cps, venc, is_wide, m) != FINE) { venc = E_DEFAULT; encode_value(cps, venc, is_wide, m); }
        if (chance(1, 3)) damage_memory<C>();
        wide = is_wide;
        have = true;
        V& v = value((J*)nullptr);
        LibScope l;
        v = raw_build<V>(m);
    }

    template <class C> static void gen_sink(Snk<C>& s, DumpReq<C>& q, size_t expected)
    {
        q.kind = (int)draw(K_KINDS);
        if (sizeof(C) > 1 && q.kind == K_FILE) q.kind = K_OSTREAM;
        q.bulk = draw(2) != 0;
        if (draw(2)) s.buf = 1 + draw(40);
        if (chance(1, 5) && q.kind >= K_OSTREAM && q.kind != K_SSTREAM)
        {
            s.fault.on = true;
            s.fault.at = draw((uint32_t)expected + 1);
            s.fault.kind = (int)draw(4);
            s.fault.transient = draw(2) != 0;
        }
    }

    // writes the value; true: the text is what it should be
    template <class J, class C> bool dump(std::basic_string<C>& text, Enc& enc)
    {
        typedef typename J::value V;
        typedef typename V::char_type VC;
        typedef typename J::template serializer_type<C> W;
        const bool to_wide = sizeof(C) == 4;
        const Enc from = chance(1, 8) ? any_enc(wide) : venc;
        enc = any_enc(to_wide);
        const bool escape = chance(1, 3);
        Writer x;
        x.v = FINE; x.from = from; x.to = enc; x.from_wide = wide; x.to_wide = to_wide; x.escape = escape;
        x.value(m);
        Snk<C> s;
        DumpReq<C> q;
        CountingHandler h;
        const bool handled = chance(1, 4);
        gen_sink(s, q, x.out.size());
        typename W::option o[4];
        Opt<W, C>::template choose<VC, C>(from, enc, o);
        const typename W::option esc = W::with_unicode_escaping(escape), eh = W::with_error_handler(handled ? &h : nullptr);
        o[3] = [=](W& w) { esc(w); eh(w); };
        q.four = o;
        const bool alloc = chance(1, 6);
        if (alloc) sim::alloc_arm(draw(60), 1 + draw(2));
        DumpRes r = Dumper<J, C>::dump(s, value((J*)nullptr), q);
        bool hit = s.fault.fired != 0;
        if (alloc) { if (sim::alloc_fired()) { hit = true; sim::fault("alloc-fail"); } sim::alloc_disarm(); }
        const bool reported = r.reported(h.n);
        char what[300];
        snprintf(what, sizeof what, "dump %s strings in %s as %s text in %s%s to %s (sink fault %s)", KT<VC>::name(), enc_name(from), KT<C>::name(), enc_name(enc), escape ? " escaped" : "",
                 snk_name(q.kind), alloc ? "alloc" : s.fault.str().c_str());
        ev("%s -> %s %s", what, reported ? "reported" : "done", r.what.c_str());
        if (x.v == UNJUDGED) { sim::probe("not-judged"); return false; }
        sim::nontrivial();
        const U got = raw(s.got);
        if (!reported)
        {
            if (x.v == REFUSED) sim::violate("unsound-text-written", "%s: %s holds text that is not sound or is refused, yet the dump succeeded with %s", what, model::show(m, 200).c_str(), show_units(s.got).c_str());
            if (got != x.out) sim::violate("text-altered-in-dump", "%s: %s instead of %s", what, show_units(s.got).c_str(), show_units(cooked<C>(x.out)).c_str());
            text = s.got;
            sim::probe(venc == E_UTF16 || enc == E_UTF16 ? "dumped-through-utf16" : "dumped");
            return !raw_differs<J>();
        }
        if (x.v == FINE && !hit) sim::violate("sound-text-refused", "%s: %s: %s '%s'", what, model::show(m, 200).c_str(), kind_name(h.n ? h.kind : r.kind), (h.n ? h.what : r.what).c_str());
        if (x.v == REFUSED)
        {
            sim::probe("dump-refused");
            const Kind k = h.n ? h.kind : r.kind;
            if (!hit && k != SER) sim::violate("wrong-error", "%s fails with %s '%s' for %s", what, kind_name(k), (h.n ? h.what : r.what).c_str(), model::show(m, 200).c_str());
            if (!hit && got.compare(0, got.size(), x.out, 0, got.size()) != 0)
                sim::violate("text-altered-in-dump", "%s: delivered %s before the failure, sound text up to there is %s", what, show_units(s.got).c_str(), show_units(cooked<C>(x.out)).c_str());
        }
        return false;
    }
    template <class J> bool raw_differs()
    {
        typedef typename J::value V;
        if (!model::same(raw_lift<V>(value((J*)nullptr)), m, 0)) sim::violate("value-changed-by-dump", "%s", model::show(m, 200).c_str());
        return false;
    }

    template <class J, class C> void parse(const std::basic_string<C>& text, Enc enc)
    {
        typedef typename J::value V;
        typedef typename V::char_type VC;
        typedef typename J::template parser_type<C> P;
        const bool from_wide = sizeof(C) == 4, to_wide = sizeof(VC) == 4;
        if (from_wide && has_end_marker(text)) { have = false; return; }
        Enc to = any_enc(to_wide);
        while (meant(to, to_wide) == E_BLOCK) to = any_enc(to_wide);  // escapes are stored as plain characters
        bool unjudged = false;
        const std::vector<uint32_t> cps = decode(raw(text), enc, from_wide, unjudged);
        model::Ref ref = model::parse(cps);
        MV want;
        Verdict v = ref.ok ? encode_value(ref.v, to, to_wide, want) : REFUSED;
        if (unjudged || ref.fuzzy) v = UNJUDGED;
        Src<C> s;
        ParseReq<J, C> q;
        CountingHandler h;
        s.text = text;
        q.enc = enc == E_DEFAULT ? E_AUTO : enc;  // no operator>>
        const bool handled = chance(1, 4);
        gen_source<J, C>(s, q);
        if (q.kind >= S_UNBUF && !(q.kind == S_FILE && (from_wide || q.api == 3)) && chance(1, 6))
        {
            s.fault.on = true;
            s.fault.at = draw((uint32_t)s.text.size() + 1);
            s.fault.transient = draw(2) != 0;
        }
        typename P::option o[4];
        Opt<P, C>::template choose<C, VC>(enc, to, o);
        o[3] = P::with_error_handler(handled ? &h : nullptr);
        q.four = o;
        V out;
        prefill(out);
        const bool alloc = chance(1, 6);
        if (alloc) sim::alloc_arm(draw(60), 1 + draw(2));
        ParseRes r = Parser<J, C>::parse(s, q, out);
        bool hit = s.fault.fired != 0;
        if (alloc) { if (sim::alloc_fired()) { hit = true; sim::fault("alloc-fail"); } sim::alloc_disarm(); }
        const bool ok = r.ok() && !h.n;
        char what[400];
        snprintf(what, sizeof what, "parse %s text in %s into %s strings in %s: %s", KT<C>::name(), enc_name(enc), KT<VC>::name(), enc_name(to), show_req(q, s).c_str());
        ev("%s -> %s %s", what, ok ? "done" : "reported", r.what.c_str());
        have = false;
        if (v == UNJUDGED) sim::probe("not-judged");
        else
        {
            sim::nontrivial();
            if (ok)
            {
                const MV got = raw_lift<V>(out);
                if (v == REFUSED) sim::violate("unsound-text-read", "%s read %s from %s, which is not sound or is refused (%s)", what, model::show(got, 200).c_str(), show_units(text).c_str(), ref.why.c_str());
                if (!model::same(got, want)) sim::violate("text-altered-in-parse", "%s read %s instead of %s from %s", what, model::show(got, 200).c_str(), model::show(want, 200).c_str(), show_units(text).c_str());
                sim::probe(to == E_UTF16 || enc == E_UTF16 ? "parsed-through-utf16" : "parsed");
                if (!has_float(want))
                {
                    m = want;
                    venc = to;
                    wide = to_wide;
                    have = true;
                    LibScope l;
                    value((J*)nullptr) = std::move(out);
                }
            }
            else
            {
                // a duplicate key's value counts for nothing, but is still converted
                const bool lost = to == E_REFUSE && std::find(cps.begin(), cps.end(), 'q') != cps.end();
                static const U code = U"0071";
                const bool hex = to == E_REFUSE && std::search(cps.begin(), cps.end(), code.begin(), code.end()) != cps.end();
                if (v == FINE && !hit && !lost && !hex)
                    sim::violate("sound-text-refused", "%s: %s '%s' for %s", what, kind_name(h.n ? h.kind : r.kind), (h.n ? h.what : r.what).c_str(), show_units(text).c_str());
                const Kind k = h.n ? h.kind : r.kind;
                if (!hit && k != DES) sim::violate("wrong-error", "%s fails with %s '%s' for %s", what, kind_name(k), (h.n ? h.what : r.what).c_str(), show_units(text).c_str());
                sim::probe("parse-refused");
            }
        }
        LibScope l;
        out = nullptr;
    }

    template <class C> void hop()
    {
        std::basic_string<C> text;
        Enc enc = E_DEFAULT;
        bool stored = false;
        if (draw(3))
        {
            if (!have) { if (draw(2)) fresh<configor::json>(); else fresh<configor::wjson>(); }
            stored = wide ? dump<configor::wjson, C>(text, enc) : dump<configor::json, C>(text, enc);
            if (stored && meant(enc, sizeof(C) == 4) == E_BLOCK) return;  // the structure is written as plain characters
            if (!stored) { if (draw(2)) have = false; return; }
        }
        else
        {
            enc = any_enc(sizeof(C) == 4);
            U units;
            const U doc = model::gen_doc(plain_value(), model::gen_style());
            if (encode(doc, enc, sizeof(C) == 4, units) != FINE) { enc = E_DEFAULT; units.clear(); encode(doc, enc, sizeof(C) == 4, units); }
            text = cooked<C>(units);
        }
        ev_units("stored", text);
        if (chance(1, 3))
        {
            const char* what = harm(text);
            sim::fault("storage-damage");
            ev("stored text damaged: %s", what);
            ev_units("stored", text);
        }
        const Enc as = chance(1, 10) ? any_enc(sizeof(C) == 4) : enc;
        if (draw(2)) parse<configor::json, C>(text, as);
        else parse<configor::wjson, C>(text, as);
    }
};
}  // namespace

void sim::run()
{
    Relay r;
    for (uint32_t n = 3 + draw(sim::thorough() ? 20 : 6); n; --n)
    {
        if (draw(2)) r.hop<char>();
        else r.hop<wchar_t>();
    }
    LibScope l;
    r.n = nullptr;
    r.w = nullptr;
}
