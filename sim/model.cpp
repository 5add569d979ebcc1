#include "model.hpp"
#include "simcore.hpp"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>

namespace model
{
using sim::draw;
using sim::chance;

bool same(const MV& a, const MV& b, double rel)
{
    if (a.t != b.t) return false;
    switch (a.t)
    {
    case MV::Null: return true;
    case MV::Bool: return a.b == b.b;
    case MV::Int: return a.i == b.i;
    case MV::Float:
        if (a.fuzzy || b.fuzzy) return true;
        if (a.d == b.d) return true;
        return std::fabs(a.d - b.d) <= rel * std::fmax(std::fabs(a.d), std::fabs(b.d));
    case MV::Str: return a.s == b.s;
    case MV::Arr:
        if (a.a.size() != b.a.size()) return false;
        for (size_t i = 0; i < a.a.size(); ++i)
            if (!same(a.a[i], b.a[i], rel)) return false;
        return true;
    case MV::Obj:
    {
        if (a.o.size() != b.o.size()) return false;
        auto i = a.o.begin(), j = b.o.begin();
        for (; i != a.o.end(); ++i, ++j)
            if (i->first != j->first || !same(i->second, j->second, rel)) return false;
        return true;
    }
    }
    return false;
}

static void show_str(const U& s, std::string& o)
{
    char b[16];
    o += '"';
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] >= 0x20 && s[i] < 0x7f && s[i] != '"' && s[i] != '\\') o += (char)s[i];
        else { snprintf(b, sizeof b, "<%X>", (unsigned)s[i]); o += b; }
    }
    o += '"';
}

static void show_to(const MV& m, std::string& o, size_t max)
{
    char b[64];
    if (o.size() > max) return;
    switch (m.t)
    {
    case MV::Null: o += "null"; break;
    case MV::Bool: o += m.b ? "true" : "false"; break;
    case MV::Int: snprintf(b, sizeof b, "%lld", (long long)m.i); o += b; break;
    case MV::Float: snprintf(b, sizeof b, "%.17gf", m.d); o += b; break;
    case MV::Str: show_str(m.s, o); break;
    case MV::Arr:
        o += '[';
        for (size_t i = 0; i < m.a.size(); ++i) { if (i) o += ','; show_to(m.a[i], o, max); }
        o += ']';
        break;
    case MV::Obj:
        o += '{';
        for (auto i = m.o.begin(); i != m.o.end(); ++i) { if (i != m.o.begin()) o += ','; show_str(i->first, o); o += ':'; show_to(i->second, o, max); }
        o += '}';
        break;
    }
}
std::string show(const MV& m, size_t max)
{
    std::string o;
    show_to(m, o, max);
    if (o.size() > max) { o.resize(max); o += "..."; }
    return o;
}

static void dig(uint64_t& h, uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
static void digest_to(const MV& m, uint64_t& h)
{
    dig(h, (uint64_t)m.t + 17);
    switch (m.t)
    {
    case MV::Null: break;
    case MV::Bool: dig(h, m.b); break;
    case MV::Int: dig(h, (uint64_t)m.i); break;
    case MV::Float: { union { double d; uint64_t u; } x; x.d = m.d; dig(h, x.u); break; }
    case MV::Str: for (size_t i = 0; i < m.s.size(); ++i) dig(h, m.s[i]); dig(h, m.s.size()); break;
    case MV::Arr: for (size_t i = 0; i < m.a.size(); ++i) digest_to(m.a[i], h); dig(h, m.a.size()); break;
    case MV::Obj:
        for (auto i = m.o.begin(); i != m.o.end(); ++i) { for (size_t k = 0; k < i->first.size(); ++k) dig(h, i->first[k]); digest_to(i->second, h); }
        dig(h, m.o.size());
        break;
    }
}
uint64_t digest(const MV& m) { uint64_t h = 14695981039346656037ull; digest_to(m, h); return h; }
size_t weight(const MV& m)
{
    size_t n = 1;
    for (auto& x : m.a) n += weight(x);
    for (auto& x : m.o) n += weight(x.second);
    return n;
}

uint32_t gen_char(const Gen& g)
{
    static const uint32_t special[] = { '"', '\\', '/', '{', '}', '[', ']', ',', ':', '*', ' ', '\'', 'u', 'n', '0', '9', 'e', '-' };
    static const uint32_t ctl[] = { '\b', '\f', '\n', '\r', '\t', 1, 0x1f, 0x0b, 0x0e, 0x7f };
    // code points whose low bits, bytes or units look like something else
    static const uint32_t uni[] = { 0x80, 0xA0, 0xE4, 0xFF, 0x100, 0x122, 0x131, 0x15C, 0x172, 0x7FF, 0x800, 0x4E2D, 0x6587, 0x2028, 0xD7FF,
                                    0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x20022, 0x1005C, 0x3042, 0x10222 };
    switch (draw(8))
    {
    case 4: return special[draw(18)];
    case 5: if (g.controls) return g.nul_in_str && chance(1, 12) ? 0 : ctl[draw(10)]; break;
    case 6:
    case 7: if (g.unicode) return uni[draw(26)]; break;
    default: break;
    }
    return 'a' + draw(26);
}

U gen_string(const Gen& g)
{
    U s;
    uint32_t n = draw(4) == 0 ? 0 : draw(g.max_str + 1);
    if (g.max_str > 4 && chance(1, 24)) n = g.max_str * 4 + draw(40);
    for (uint32_t i = 0; i < n; ++i) s.push_back(gen_char(g));
    return s;
}

int64_t gen_int()
{
    switch (draw(8))
    {
    case 0: return draw(10);
    case 1: return (int64_t)draw(1000);
    case 2: return -(int64_t)draw(100000);
    case 3: return INT64_MAX - (int64_t)draw(3);
    case 4: return INT64_MIN + (int64_t)draw(3);
    case 5: return (int64_t)sim::draw64();
    case 6: { int64_t v = 1; for (uint32_t n = draw(19); n; --n) v *= 10; return v - (int64_t)draw(2); }
    default: return ((int64_t)1 << draw(63)) - (int64_t)draw(2);
    }
}

// at most six significant digits, so that the default precision keeps it
double gen_float()
{
    switch (draw(6))
    {
    case 0: return (double)draw(100);
    case 1: return -(double)draw(1000) / 4;
    case 2: { double v = (double)draw(100000); for (uint32_t n = draw(6); n; --n) v /= 10; return v; }
    case 3: { char b[40]; snprintf(b, sizeof b, "%u.%ue%d", 1 + draw(9), draw(100), (int)draw(40) - 5); return strtod(b, nullptr); }
    case 4: return draw(2) ? 9223372036854775808.0 : -1e20;
    default: return 0.5 + (double)draw(512);
    }
}

MV gen_large(Gen& g, bool container)
{
    const uint32_t kind = draw(5);
    static const uint32_t sizes[] = { 250, 500, 1000, 2040, 4090, 8180, 16370, 32750, 65520 };
    MV x;
    if (kind <= 1)
    {
        // a few drawn characters over and over, with a counter so that none can be mistaken for another
        const uint32_t n = sizes[draw(9)] + draw(40);
        U part = gen_string(g), s;
        for (uint32_t i = 0; s.size() < n; ++i)
        {
            s += part;
            for (uint32_t k = i; k; k /= 10) s.push_back('0' + k % 10);
            s.push_back(' ');
        }
        s.resize(n);
        if (kind == 0) x = MV::string(s);
        else { x = MV::object(); x.o[s] = MV::integer(1); }
    }
    else if (kind == 4)
    {
        x = MV::integer(7);
        const bool obj = draw(2) != 0;
        for (uint32_t n = g.deep && chance(1, 4) ? 400 + draw(1600) : 20 + draw(380); n; --n)
        {
            MV o = obj && n % 2 ? MV::object() : MV::array();
            if (o.t == MV::Obj) o.o[U"k"] = std::move(x);
            else o.a.push_back(std::move(x));
            x = std::move(o);
        }
    }
    else
    {
        const uint32_t n = sizes[chance(1, 5) ? 4 + draw(3) : draw(4)] + draw(40);
        x = kind == 2 ? MV::array() : MV::object();
        MV e = draw(2) ? MV() : MV::string(gen_string(g));
        for (uint32_t i = 0; i < n; ++i)
        {
            MV v = i % 3 ? MV::integer((int64_t)i * i) : e;
            if (kind == 2) x.a.push_back(v);
            else { U k = U"k"; for (uint32_t j = i; j; j /= 10) k.push_back('0' + j % 10); x.o[k] = v; }
        }
    }
    sim::probe("large-value");
    if (kind && draw(2)) return x;
    if (!container && draw(2)) return x;
    MV o = MV::array();
    if (draw(2)) o.a.push_back(MV::integer(gen_int()));
    o.a.push_back(x);
    if (draw(2)) o.a.push_back(MV::string(gen_string(g)));
    return o;
}

MV gen_value(Gen& g, uint32_t depth)
{
    if (depth == 0 && g.large && chance(1, g.large)) return gen_large(g, false);
    if (g.budget) --g.budget;
    uint32_t k = draw(depth < g.max_depth && g.budget ? 12 : 7);
    switch (k)
    {
    case 0: return MV();
    case 1: return MV::boolean(draw(2) != 0);
    case 2:
    case 3: return MV::integer(gen_int());
    case 4: if (g.floats) return MV::floating(gen_float());  // fallthrough
    case 5:
    case 6: return MV::string(gen_string(g));
    case 7:
    case 8:
    case 9:
    {
        MV m = MV::array();
        uint32_t n = draw(g.max_items + 1);
        for (uint32_t i = 0; i < n && g.budget; ++i) m.a.push_back(gen_value(g, depth + 1));
        return m;
    }
    default:
    {
        MV m = MV::object();
        uint32_t n = draw(g.max_items + 1);
        for (uint32_t i = 0; i < n && g.budget; ++i)
        {
            U key = chance(1, 3) ? gen_string(g) : U(1, U'a' + draw(6));
            MV v = gen_value(g, depth + 1);
            m.o.insert(std::make_pair(key, v));
        }
        return m;
    }
    }
}

MV gen_container(Gen& g)
{
    if (g.large && chance(1, g.large)) return gen_large(g, true);
    MV m = draw(2) ? MV::object() : MV::array();
    uint32_t n = 1 + draw(g.max_items);
    for (uint32_t i = 0; i < n; ++i)
    {
        MV v = gen_value(g, 1);
        if (m.t == MV::Arr) m.a.push_back(v);
        else m.o.insert(std::make_pair(chance(1, 3) ? gen_string(g) : U(1, U'a' + draw(6)), v));
    }
    return m;
}

// ---- documents ----------------------------------------------------------------

DocStyle gen_style()
{
    DocStyle s;
    s.spaces = draw(2) != 0; s.comments = chance(1, 3); s.trailing = chance(1, 3);
    s.plus = chance(1, 4); s.uescapes = draw(2) != 0; s.dups = chance(1, 4);
    return s;
}

static void gap(U& o, const DocStyle& st)
{
    if (st.spaces)
    {
        static const char32_t ws[] = { ' ', '\n', '\t', '\r' };
        for (uint32_t n = draw(3); n; --n) o.push_back(ws[draw(4)]);
    }
    if (st.comments && chance(1, 5))
    {
        static const char* const body[] = { "", "x", " \"q\" ", "[1,", "/", "* *", "*", "a/b", "**", "//", "{\\\"" };
        const char* b = body[draw(11)];
        uint32_t extra = draw(3);
        if (draw(2))
        {
            o += U"/*";
            for (; *b; ++b) o.push_back((char32_t)*b);
            if (extra == 1) o.push_back(0x4E2D);
            o += U"*/";
        }
        else
        {
            o += U"//";
            for (; *b; ++b) o.push_back((char32_t)*b);
            if (extra == 1) o.push_back(0xE4);
            o.push_back(draw(2) ? '\n' : '\r');
        }
        if (chance(1, 4)) gap(o, st);
    }
}

static void put(U& o, const char* s) { for (; *s; ++s) o.push_back((char32_t)*s); }

static void u4(U& o, uint32_t u)
{
    static const char* lo = "0123456789abcdef";
    static const char* up = "0123456789ABCDEF";
    const char* d = draw(2) ? lo : up;
    put(o, "\\u");
    for (int sh = 12; sh >= 0; sh -= 4) o.push_back((char32_t)d[(u >> sh) & 15]);
}

static void doc_string(U& o, const U& s, const DocStyle& st)
{
    o.push_back('"');
    for (size_t i = 0; i < s.size(); ++i)
    {
        uint32_t c = s[i];
        const bool esc = st.uescapes && chance(1, 4);
        if (c < 0x20 || c == '"' || c == '\\' || (c == '/' && esc))
        {
            const char* e = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == '\b' ? "\\b" : c == '\f' ? "\\f"
                          : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : nullptr;
            if (e && !(esc && draw(2))) put(o, e);
            else u4(o, c);
        }
        else if (esc)
        {
            if (c < 0x10000) u4(o, c);
            else { u4(o, 0xD800 + ((c - 0x10000) >> 10)); u4(o, 0xDC00 + ((c - 0x10000) & 0x3ff)); }
        }
        else o.push_back((char32_t)c);
    }
    o.push_back('"');
}

static void doc_value(U& o, const MV& m, const DocStyle& st)
{
    char b[400];
    switch (m.t)
    {
    case MV::Null: put(o, "null"); break;
    case MV::Bool: put(o, m.b ? "true" : "false"); break;
    case MV::Int:
        if (m.i >= 0 && st.plus && chance(1, 3)) o.push_back('+');
        snprintf(b, sizeof b, "%lld", (long long)m.i);
        put(o, b);
        break;
    case MV::Float:
    {
        if (!std::signbit(m.d) && st.plus && chance(1, 3)) o.push_back('+');
        // %.17g keeps the value; a form without '.' or 'e' would be an integer
        uint32_t f = draw(3);
        snprintf(b, sizeof b, f == 0 ? "%.17g" : f == 1 ? "%.12e" : "%.10f", m.d);
        std::string s = b;
        if (f == 2 && (strtod(b, nullptr) != m.d)) { snprintf(b, sizeof b, "%.17g", m.d); s = b; }
        if (s.find_first_of(".e") == std::string::npos) s += ".0";
        if (f == 1 && strtod(b, nullptr) != m.d) { snprintf(b, sizeof b, "%.17e", m.d); s = b; }
        // "0e+00" and "-0e+00" are not in the grammar
        size_t e = s.find('e');
        if (e != std::string::npos && s.find('.') == std::string::npos) s.insert(e, ".0");
        if (chance(1, 16))
        {
            // more digits than any value needs
            size_t dot = s.find('.'), at = s.find_first_of("eE");
            if (at == std::string::npos) at = s.size();
            if (dot != std::string::npos) s.insert(at, draw(4) ? draw(60) : draw(900), '0');
        }
        if (e != std::string::npos && draw(2)) s[s.find('e')] = 'E';
        put(o, s.c_str());
        break;
    }
    case MV::Str: doc_string(o, m.s, st); break;
    case MV::Arr:
        o.push_back('[');
        gap(o, st);
        for (size_t i = 0; i < m.a.size(); ++i)
        {
            if (i) { o.push_back(','); gap(o, st); }
            doc_value(o, m.a[i], st);
            gap(o, st);
        }
        if (!m.a.empty() && st.trailing && chance(1, 3)) { o.push_back(','); gap(o, st); }
        o.push_back(']');
        break;
    case MV::Obj:
    {
        o.push_back('{');
        gap(o, st);
        // any order; sometimes a repeated key with another value after the first
        std::vector<const std::pair<const U, MV>*> ps;
        for (auto& p : m.o) ps.push_back(&p);
        for (size_t i = ps.size(); i > 1; --i) std::swap(ps[i - 1], ps[draw((uint32_t)i)]);
        for (size_t i = 0; i < ps.size(); ++i)
        {
            if (i) { o.push_back(','); gap(o, st); }
            doc_string(o, ps[i]->first, st);
            gap(o, st);
            o.push_back(':');
            gap(o, st);
            doc_value(o, ps[i]->second, st);
            gap(o, st);
            if (st.dups && chance(1, 3))
            {
                o.push_back(',');
                doc_string(o, ps[draw((uint32_t)i + 1)]->first, st);
                o.push_back(':');
                put(o, draw(2) ? "\"dup\"" : "[1,{\"x\":2}]");
                gap(o, st);
            }
        }
        if (!ps.empty() && st.trailing && chance(1, 3)) { o.push_back(','); gap(o, st); }
        o.push_back('}');
        break;
    }
    }
}

U gen_doc(const MV& m, const DocStyle& st)
{
    U o;
    gap(o, st);
    doc_value(o, m, st);
    gap(o, st);
    return o;
}

// ---- encodings ------------------------------------------------------------------

std::string to_utf8(const U& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        uint32_t c = s[i];
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
    }
    return o;
}
std::wstring to_wide(const U& s)
{
    std::wstring o;
    for (size_t i = 0; i < s.size(); ++i) o += (wchar_t)s[i];
    return o;
}

// one UTF-8 character at i; returns its length, 0 if malformed (surrogates are let through)
static size_t utf8_at(const std::string& s, size_t i, uint32_t& cp)
{
    unsigned char c = (unsigned char)s[i];
    size_t n;
    uint32_t min;
    if (c < 0x80) { cp = c; return 1; }
    if (c >= 0xC2 && c <= 0xDF) { n = 2; cp = c & 0x1F; min = 0x80; }
    else if (c >= 0xE0 && c <= 0xEF) { n = 3; cp = c & 0x0F; min = 0x800; }
    else if (c >= 0xF0 && c <= 0xF4) { n = 4; cp = c & 0x07; min = 0x10000; }
    else return 0;
    if (i + n > s.size()) return 0;
    for (size_t k = 1; k < n; ++k)
    {
        unsigned char d = (unsigned char)s[i + k];
        if ((d & 0xC0) != 0x80) return 0;
        cp = cp << 6 | (d & 63);
    }
    if (cp < min || cp > 0x10FFFF) return 0;
    return n;
}

U from_utf8(const std::string& s)
{
    U o;
    for (size_t i = 0; i < s.size();)
    {
        uint32_t cp;
        size_t n = utf8_at(s, i, cp);
        if (!n) { o.push_back((char32_t)(0x110000 + (unsigned char)s[i])); ++i; continue; }
        o.push_back((char32_t)cp);
        i += n;
    }
    return o;
}
U from_wide(const std::wstring& s)
{
    U o;
    for (size_t i = 0; i < s.size(); ++i) o.push_back((char32_t)s[i]);
    return o;
}
std::vector<uint32_t> decode_units(const std::string& s)
{
    std::vector<uint32_t> o;
    for (size_t i = 0; i < s.size();)
    {
        uint32_t cp;
        size_t n = utf8_at(s, i, cp);
        if (!n) { o.push_back(BAD); break; }
        o.push_back(cp);
        i += n;
    }
    return o;
}
std::vector<uint32_t> decode_units(const std::wstring& s)
{
    std::vector<uint32_t> o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        uint32_t c = (uint32_t)s[i];
        if (c > 0x10FFFF) { o.push_back(BAD); break; }
        o.push_back(c);
    }
    return o;
}

// ---- reference parser --------------------------------------------------------------

namespace
{
struct Fail { const char* why; };
struct P
{
    const std::vector<uint32_t>& c;
    size_t p;
    bool fuzzy;
    explicit P(const std::vector<uint32_t>& v) : c(v), p(0), fuzzy(false) {}
    // 0 stands for the end as well as for a NUL: both end the input
    uint32_t at(size_t i)
    {
        if (i >= c.size()) return 0;
        if (c[i] == BAD) throw Fail{ "undecodable" };
        return c[i];
    }
    uint32_t cur() { return at(p); }
    bool end() { return p >= c.size(); }
    void ws()
    {
        for (;;)
        {
            uint32_t x = cur();
            if (x == ' ' || x == '\t' || x == '\n' || x == '\r') { ++p; continue; }
            if (x != '/') return;
            ++p;
            if (cur() == '/')
            {
                for (;;)
                {
                    ++p;
                    x = cur();
                    if (x == 0 || x == '\n' || x == '\r') break;
                }
            }
            else if (cur() == '*')
            {
                bool star = false;
                for (;;)
                {
                    ++p;
                    x = cur();
                    if (x == 0) throw Fail{ "open comment" };
                    if (star && x == '/') { ++p; break; }
                    star = x == '*';
                }
            }
            else throw Fail{ "lone slash" };
        }
    }
    void lit(const char* s)
    {
        for (; *s; ++s, ++p)
            if (cur() != (uint32_t)*s) throw Fail{ "literal" };
        (void)cur();
    }
    static bool dig(uint32_t x) { return x >= '0' && x <= '9'; }
    MV number()
    {
        std::string t;
        bool isf = false;
        if (cur() == '+') ++p;
        else if (cur() == '-') { t += '-'; ++p; }
        if (!dig(cur())) throw Fail{ "number" };
        size_t digits = 0;
        if (cur() == '0')
        {
            t += '0'; ++p;
            if (cur() == 'e' || cur() == 'E') throw Fail{ "exponent of 0" };
        }
        else
            while (dig(cur())) { t += (char)cur(); ++p; ++digits; }
        if (cur() == '.')
        {
            isf = true;
            t += '.'; ++p;
            if (!dig(cur())) throw Fail{ "fraction" };
            while (dig(cur())) { t += (char)cur(); ++p; }
        }
        long ex = 0;
        if (cur() == 'e' || cur() == 'E')
        {
            isf = true;
            t += 'e'; ++p;
            bool neg = false;
            if (cur() == '+' || cur() == '-') { neg = cur() == '-'; t += (char)cur(); ++p; if (!dig(cur())) throw Fail{ "exponent" }; }
            else if (!dig(cur()) || cur() == '0') throw Fail{ "exponent" };
            while (dig(cur())) { t += (char)cur(); if (ex < 1000000) ex = ex * 10 + (long)(cur() - '0'); ++p; }
            if (neg) ex = -ex;
        }
        if (!isf)
        {
            errno = 0;
            long long v = strtoll(t.c_str(), nullptr, 10);
            if (errno) throw Fail{ "integer range" };
            return MV::integer(v);
        }
        MV m = MV::floating(strtod(t.c_str(), nullptr));
        if (t.size() <= 250)
        {
            // the decimal order of magnitude
            const size_t b = t[0] == '-', e = std::min(t.find('e'), t.size()), dot = std::min(t.find('.'), e), nz = t.find_first_of("123456789", b);
            if (nz >= e) return m;  // zero
            const long lg = (nz < dot ? (long)(dot - nz) - 1 : -(long)(nz - dot)) + ex;
            if (lg > 320) throw Fail{ "float range" };
            if (lg < -345) { m.d = 0; return m; }
        }
        if (digits > 250 || ex > 250 || ex < -250 || std::fabs(m.d) > 1e290 || (m.d != 0 && std::fabs(m.d) < 1e-290) || (m.d == 0 && t.size() > 250))
            m.fuzzy = fuzzy = true;
        return m;
    }
    uint32_t hex4()
    {
        uint32_t v = 0;
        for (int i = 0; i < 4; ++i, ++p)
        {
            uint32_t x = cur(), d;
            if (dig(x)) d = x - '0';
            else if (x >= 'a' && x <= 'f') d = x - 'a' + 10;
            else if (x >= 'A' && x <= 'F') d = x - 'A' + 10;
            else throw Fail{ "hex" };
            v = v << 4 | d;
        }
        return v;
    }
    U str()
    {
        U s;
        ++p;
        for (;;)
        {
            uint32_t x = cur();
            if (end() || x < 0x20) throw Fail{ "string" };
            if (x == '"') { ++p; (void)cur(); return s; }
            ++p;
            if (x != '\\') { s.push_back((char32_t)x); continue; }
            uint32_t e = cur();
            ++p;
            switch (e)
            {
            case '"': case '\\': case '/': s.push_back((char32_t)e); break;
            case 'b': s.push_back('\b'); break;
            case 'f': s.push_back('\f'); break;
            case 'n': s.push_back('\n'); break;
            case 'r': s.push_back('\r'); break;
            case 't': s.push_back('\t'); break;
            case 'u':
            {
                uint32_t v = hex4();
                if (v >= 0xD800 && v <= 0xDBFF)
                {
                    if (cur() != '\\') throw Fail{ "lead surrogate" };
                    ++p;
                    if (cur() != 'u') throw Fail{ "lead surrogate" };
                    ++p;
                    uint32_t w = hex4();
                    if (w < 0xDC00 || w > 0xDFFF) throw Fail{ "trail surrogate" };
                    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                }
                s.push_back((char32_t)v);
                break;
            }
            default: throw Fail{ "escape" };
            }
        }
    }
    MV value()
    {
        ws();
        MV m;
        uint32_t x = cur();
        switch (x)
        {
        case 't': lit("true"); return MV::boolean(true);
        case 'f': lit("false"); return MV::boolean(false);
        case 'n': lit("null"); return m;
        case '"': return MV::string(str());
        case '[':
            m = MV::array();
            ++p;
            for (;;)
            {
                ws();
                if (cur() == ']') { ++p; (void)cur(); return m; }
                m.a.push_back(value());
                ws();
                if (cur() == ',') { ++p; continue; }
                if (cur() == ']') { ++p; (void)cur(); return m; }
                throw Fail{ "array" };
            }
        case '{':
            m = MV::object();
            ++p;
            for (;;)
            {
                ws();
                if (cur() == '}') { ++p; (void)cur(); return m; }
                if (cur() != '"') throw Fail{ "key" };
                U k = str();
                ws();
                if (cur() != ':') throw Fail{ "colon" };
                ++p;
                MV v = value();
                m.o.insert(std::make_pair(k, v));
                ws();
                if (cur() == ',') { ++p; continue; }
                if (cur() == '}') { ++p; (void)cur(); return m; }
                throw Fail{ "object" };
            }
        default:
            if (x == '-' || x == '+' || dig(x)) return number();
            throw Fail{ "value" };
        }
    }
};
}  // namespace

Ref parse(const std::vector<uint32_t>& cps)
{
    Ref r;
    r.ok = false; r.fuzzy = false; r.used = 0;
    P p(cps);
    try
    {
        r.v = p.value();
        p.ws();
        if (p.cur() != 0) throw Fail{ "trailing" };
        r.ok = true;
    }
    catch (Fail& f) { r.why = f.why; }
    r.fuzzy = p.fuzzy;
    r.used = p.p;
    return r;
}

}  // namespace model
