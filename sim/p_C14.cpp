// C14: adapter streams carry the adapter's characters exactly.
#include "docs.hpp"
#include <iterator>
#include <limits>

const char* const sim::property = "C14";

using namespace real;

namespace
{
enum InOp { I_GET, I_GETC, I_PEEK, I_READ, I_GETLINE_STR, I_GETLINE_BUF, I_GET_BUF, I_GET_SB, I_IGNORE, I_IGNORE_DELIM, I_IGNORE_ALL, I_STR, I_CHAR, I_INT, I_DOUBLE, I_BOOL, I_WS,
            I_SGETC, I_SBUMPC, I_SNEXTC, I_SGETN, I_ITER, I_COPY, I_CLEAR, I_EXC, I_SKIPWS, I_WIDTH, I_PARSE, I_TOSB, I_KINDS };
const char* const in_names[] = { "get", "get(c)", "peek", "read", "getline(string)", "getline(buf)", "get(buf)", "get(streambuf)", "ignore", "ignore(delim)", "ignore(all)", ">>string", ">>char", ">>int",
                                 ">>double", ">>bool", ">>ws", "sgetc", "sbumpc", "snextc", "sgetn", "iterator", "copy", "clear", "exceptions", "skipws", "width", "parse", ">>streambuf" };
enum OutOp { O_PUT, O_WRITE, O_STR, O_CHAR, O_INT, O_DOUBLE, O_BOOL, O_SPUTC, O_SPUTN, O_ITER, O_FLUSH, O_CLEAR, O_EXC, O_WIDTH, O_FLAGS, O_SB, O_DUMP, O_PTR, O_KINDS };
const char* const out_names[] = { "put", "write", "<<string", "<<char", "<<int", "<<double", "<<bool", "sputc", "sputn", "iterator", "flush", "clear", "exceptions", "width", "flags", "<<streambuf", "dump", "<<cstr" };

template <class C> struct Op
{
    int kind;
    uint32_t n;
    C c;
    std::basic_string<C> s;
    int64_t i;
    double d;
    MV m;
};

inline std::string model_units(const U& u, char) { return model::to_utf8(u); }
inline std::wstring model_units(const U& u, wchar_t) { return model::to_wide(u); }
template <class C> C end_marker() { return std::char_traits<C>::to_char_type(std::char_traits<C>::eof()); }

// what can be given to an adapter is all but the end marker; a narrow adapter can be handed every character
template <class C> C gen_unit(bool out = false)
{
    C c;
    switch (draw(out ? 7 : 6))
    {
    case 0: c = C("\n \t,;"[draw(5)]); break;
    case 1: c = C('0' + draw(10)); break;
    case 2: c = C('a' + draw(4)); break;
    case 3: c = C(draw(256)); break;
    case 4: c = sizeof(C) == 1 ? C("\0\x7f\x80\xfe\x01\xc3"[draw(6)]) : C(draw(0x110000)); break;
    case 6: c = C(0xff); break;
    default: c = sizeof(C) == 1 ? C(draw(128)) : C(sim::draw64() >> (32 + draw(32))); break;
    }
    return c == end_marker<C>() && !(out && sizeof(C) == 1) ? C('e') : c;
}
template <class C> std::basic_string<C> gen_units(uint32_t max, bool out = false)
{
    std::basic_string<C> s;
    uint32_t n = draw(max + 1);
    if (draw(4) == 0)
    {
        model::Gen g;
        g.budget = 10;
        s = model_units(model::gen_doc(model::gen_value(g), model::gen_style()), C());
        for (size_t i = 0; i < s.size(); ++i) if (s[i] == end_marker<C>()) s[i] = C('e');
        return s;
    }
    if (n && chance(1, 40))
    {
        // longer than any buffer somebody might put in between
        static const uint32_t sizes[] = { 120, 250, 500, 1015, 2040, 4090, 8180 };
        const uint32_t total = sizes[draw(7)] + draw(30);
        for (; n; --n) s += gen_unit<C>(out);
        const std::basic_string<C> part = s;
        for (uint32_t i = 0; s.size() < total; ++i)
        {
            s += part;
            for (uint32_t k = i; k; k /= 10) s += C('0' + k % 10);
        }
        s.resize(total);
        sim::probe("long-text");
        return s;
    }
    if (n && draw(8) == 0) return std::basic_string<C>(n * 20, gen_unit<C>(out));
    for (; n; --n) s += gen_unit<C>(out);
    return s;
}

template <class C> struct Test
{
    typedef std::basic_string<C> S;
    typedef std::char_traits<C> T;
    typedef typename KT<C>::J J;
    typedef typename J::value V;

    // appends to a string, may refuse
    struct Collect : std::basic_streambuf<C>
    {
        S got;
        size_t limit;
        explicit Collect(size_t l) : limit(l) {}
        typename T::int_type overflow(typename T::int_type c) override
        {
            UserScope u;
            if (got.size() >= limit) return T::eof();
            got += T::to_char_type(c);
            return T::not_eof(c);
        }
    };

    static std::string num(long long v) { return std::to_string(v); }
    static std::string ch(typename T::int_type c) { return T::eq_int_type(c, T::eof()) ? "end" : num((long long)c); }

    // one operation; what the caller sees
    static std::string apply(const Op<C>& o, std::basic_istream<C>& is)
    {
        std::string r;
        S got;
        bool count = true;
        std::string what;
        const Kind k = guarded(
            [&] {
                switch (o.kind)
                {
                case I_GET: { typename T::int_type c = is.get(); UserScope u; r = ch(c); break; }
                case I_GETC: { C c = C('?'); is.get(c); got += c; break; }
                case I_PEEK: { typename T::int_type c = is.peek(); UserScope u; r = ch(c); break; }
                case I_READ:
                {
                    S b(o.n, C('?'));
                    is.read(&b[0], (std::streamsize)o.n);
                    got = b.substr(0, (size_t)is.gcount());
                    break;
                }
                case I_GETLINE_STR: std::getline(is, got, o.c); count = false; break;
                case I_GETLINE_BUF: { S b(o.n + 1, C('?')); is.getline(&b[0], (std::streamsize)o.n + 1, o.c); got = b.c_str(); break; }
                case I_GET_BUF: { S b(o.n + 1, C('?')); is.get(&b[0], (std::streamsize)o.n + 1, o.c); got = b.c_str(); break; }
                case I_GET_SB: { Collect x(o.n); is.get(x, o.c); got = x.got; break; }
                case I_IGNORE: is.ignore((std::streamsize)o.n); break;
                case I_IGNORE_DELIM: is.ignore((std::streamsize)o.n, T::to_int_type(o.c)); break;
                case I_IGNORE_ALL: is.ignore(std::numeric_limits<std::streamsize>::max(), T::to_int_type(o.c)); break;
                case I_STR: is >> got; count = false; break;
                case I_CHAR: { C c = C('?'); is >> c; got += c; count = false; break; }
                case I_INT: { int v = 7; is >> v; UserScope u; r = num(v); count = false; break; }
                case I_DOUBLE: { double v = 7; is >> v; UserScope u; char b[40]; snprintf(b, sizeof b, "%a", v); r = b; count = false; break; }
                case I_BOOL: { bool v = false; is >> v; UserScope u; r = num(v); count = false; break; }
                case I_WS: is >> std::ws; count = false; break;
                case I_SGETC: r = ch(is.rdbuf()->sgetc()); count = false; break;
                case I_SBUMPC: r = ch(is.rdbuf()->sbumpc()); count = false; break;
                case I_SNEXTC: r = ch(is.rdbuf()->snextc()); count = false; break;
                case I_SGETN: { S b(o.n, C('?')); std::streamsize n = is.rdbuf()->sgetn(&b[0], (std::streamsize)o.n); got = b.substr(0, (size_t)n); UserScope u; r = num(n); count = false; break; }
                case I_ITER:
                {
                    std::istreambuf_iterator<C> i(is), e;
                    for (uint32_t n = 0; n < o.n && i != e; ++n, ++i) got += *i;
                    count = false;
                    break;
                }
                case I_COPY: { Collect x(o.n); std::basic_ostream<C> os(&x); os << is.rdbuf(); got = x.got; UserScope u; r = num(os.rdstate()); count = false; break; }
                case I_TOSB: { Collect x(o.n); is >> &x; got = x.got; break; }
                case I_CLEAR: is.clear(); count = false; break;
                case I_EXC: is.exceptions(o.n & 1 ? std::ios_base::badbit : o.n & 2 ? std::ios_base::failbit | std::ios_base::eofbit : std::ios_base::goodbit); count = false; break;
                case I_SKIPWS: if (o.n & 1) is.setf(std::ios_base::skipws); else is.unsetf(std::ios_base::skipws); count = false; break;
                case I_WIDTH: is.width((std::streamsize)o.n); count = false; break;
                case I_PARSE:
                {
                    V v = J::parse(is);
                    UserScope u;
                    r = model::show(val<V>::lift(v));
                    count = false;
                    break;
                }
                }
            },
            &what);
        UserScope u;
        // what a failed block operation had already taken is gone, how much of it is counted is not specified
        if (k != OK || is.bad()) { count = false; got.clear(); }
        r += "|" + show_units(got, 4000) + "|" + kind_name(k) + "|" + num(is.rdstate());
        if (count) r += "|" + num(is.gcount());
        return r;
    }

    static std::string apply(const Op<C>& o, std::basic_ostream<C>& os)
    {
        std::string r;
        std::string what;
        V v;
        if (o.kind == O_DUMP) { LibScope l; v = val<V>::build(o.m); }
        const Kind k = guarded(
            [&] {
                switch (o.kind)
                {
                case O_PUT: os.put(o.c); break;
                case O_WRITE: os.write(o.s.data(), (std::streamsize)o.s.size()); break;
                case O_STR: os << o.s; break;
                case O_PTR: os << o.s.c_str(); break;
                case O_CHAR: os << o.c; break;
                case O_INT: os << (long long)o.i; break;
                case O_DOUBLE: os << o.d; break;
                case O_BOOL: os << std::boolalpha << ((o.n & 1) != 0); break;
                case O_SPUTC: r = ch(os.rdbuf()->sputc(o.c)) == "end" ? "refused" : "taken"; break;
                case O_SPUTN: r = num(os.rdbuf()->sputn(o.s.data(), (std::streamsize)o.s.size())); break;
                case O_ITER: { std::ostreambuf_iterator<C> i(os); for (C c : o.s) *i++ = c; r = i.failed() ? "failed" : ""; break; }
                case O_FLUSH: os.flush(); break;
                case O_CLEAR: os.clear(); break;
                case O_EXC: os.exceptions(o.n & 1 ? std::ios_base::badbit : o.n & 2 ? std::ios_base::failbit : std::ios_base::goodbit); break;
                case O_WIDTH: os.width((std::streamsize)(o.n % 20)); os.fill(o.c); break;
                case O_FLAGS: os.flags(o.n & 1 ? std::ios_base::hex | std::ios_base::showbase : o.n & 2 ? std::ios_base::left | std::ios_base::dec : std::ios_base::unitbuf | std::ios_base::dec); break;
                case O_SB: { std::basic_stringbuf<C> b(o.s); os << &b; break; }
                case O_DUMP: J::dump(os, v); break;
                }
            },
            &what);
        { LibScope l; v = nullptr; }
        UserScope u;
        return r + "|" + kind_name(k) + "|" + num(os.rdstate());
    }

    static void gen_fault(Fault& f, uint32_t n)
    {
        if (draw(3) == 0) return;
        f.on = true;
        f.at = draw(n + 1);
        f.kind = (int)draw(3);
        f.transient = draw(2) != 0;
    }

    static void input()
    {
        Src<C> a, b;
        a.text = gen_units<C>(sim::thorough() ? 160 : 60);
        gen_fault(a.fault, (uint32_t)a.text.size());
        a.bulk = draw(2) != 0;
        b.text = a.text;
        b.fault = a.fault;
        a.max_after_end = b.max_after_end = 1000000;
        AdapterSource<C> as(a);
        UnbufSource<C> rb(b);
        configor::basic_iadapterstream<C> x(as);
        std::basic_istream<C> y(&rb);
        ev("read from an adapter%s fault %s", a.bulk ? " with block read" : "", a.fault.str().c_str());
        ev_units("text", a.text);
        uint64_t kinds = 0;
        const uint32_t n = 2 + draw(sim::thorough() ? 50 : 25);
        // a failing stream is usually repaired and used on
        const bool repair = draw(4) != 0;
        for (uint32_t i = 0; i < n; ++i)
        {
            Op<C> o;
            o.kind = (int)draw(I_KINDS);
            if (o.kind == I_PARSE && draw(3)) o.kind = I_GET;
            if (o.kind == I_PARSE) for (C c : a.text.substr(a.pos < a.text.size() ? a.pos : a.text.size())) if (c == C(0)) { o.kind = I_PEEK; break; }
            if (repair && !y.good() && draw(3)) o.kind = I_CLEAR;
            o.n = o.kind == I_EXC || o.kind == I_SKIPWS || o.kind == I_WIDTH ? draw(6) : draw(3) ? draw(8) : draw(70);
            if (a.text.size() > 100 && o.n > 5 && draw(2)) o.n = 1 + draw((uint32_t)a.text.size());
            o.c = draw(2) || a.text.empty() ? C('\n') : a.text[draw((uint32_t)a.text.size())];
            const std::string rx = apply(o, x), ry = apply(o, y);
            ev("%s n=%u c=%lx -> %s", in_names[o.kind], o.n, (unsigned long)o.c, rx.c_str());
            kinds |= 1ull << o.kind;
            if (rx != ry)
                sim::violate("input-differs", "%s n=%u c=%lx: the adapter stream gives %s, the characters demand %s", in_names[o.kind], o.n, (unsigned long)o.c, rx.c_str(), ry.c_str());
            // nothing the stream has not asked for can have been delivered
            if (a.pos < b.pos) sim::violate("input-invented", "%s: %zu characters were delivered, the adapter gave %zu", in_names[o.kind], b.pos, a.pos);
        }
        if (__builtin_popcountll(kinds) > 2) sim::nontrivial();
    }

    static void output()
    {
        Snk<C> a, b;
        if (draw(3))
        {
            gen_fault(a.fault, 60);
            b.fault = a.fault;
        }
        AdapterSink<C> as(a, draw(2) != 0);
        SinkBuf<C> rb(b);
        configor::basic_oadapterstream<C> x(as);
        std::basic_ostream<C> y(&rb);
        ev("write to an adapter%s fault %s", as.bulk ? " with block write" : "", a.fault.str().c_str());
        uint64_t kinds = 0;
        const uint32_t n = 2 + draw(sim::thorough() ? 50 : 25);
        const bool repair = draw(4) != 0;
        for (uint32_t i = 0; i < n; ++i)
        {
            Op<C> o;
            o.kind = (int)draw(O_KINDS);
            if (repair && !y.good() && draw(3)) o.kind = O_CLEAR;
            o.n = draw(16);
            o.c = gen_unit<C>(true);
            if (o.kind == O_WRITE || o.kind == O_STR || o.kind == O_SPUTN || o.kind == O_ITER || o.kind == O_SB || o.kind == O_PTR) o.s = gen_units<C>(draw(2) ? 4 : 40, true);
            o.i = (int64_t)sim::draw64() >> draw(64);
            o.d = model::gen_float();
            if (o.kind == O_DUMP) { model::Gen g; g.budget = 6; o.m = model::gen_value(g); }
            // unitbuf is harmless: neither flushes anything
            const std::string rx = apply(o, x), ry = apply(o, y);
            ev("%s -> %s, %zu units in all", out_names[o.kind], rx.c_str(), a.got.size());
            kinds |= 1ull << o.kind;
            if (a.got != b.got)
                sim::violate("output-differs", "%s: the adapter has received ...%s, written was ...%s", out_names[o.kind], show_units(a.got.substr(a.got.size() > 40 ? a.got.size() - 40 : 0)).c_str(),
                             show_units(b.got.substr(b.got.size() > 40 ? b.got.size() - 40 : 0)).c_str());
            if (rx != ry) sim::violate("output-result-differs", "%s: the adapter stream gives %s, a stream buffer %s", out_names[o.kind], rx.c_str(), ry.c_str());
        }
        if (__builtin_popcountll(kinds) > 2) sim::nontrivial();
    }

    static void run()
    {
        const int64_t live = sim::lib_live();
        if (draw(5) < 3) input();
        else output();
        if (sim::lib_live() != live) sim::violate("leak", "%lld library allocations left", (long long)(sim::lib_live() - live));
    }
};
}  // namespace

void sim::run()
{
    if (draw(5) < 3) Test<char>::run();
    else Test<wchar_t>::run();
}
