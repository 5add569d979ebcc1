// C18: every text is laid out exactly as its own knobs ask, whatever was dumped before.
#include "docs.hpp"

#include <memory>

const char* const sim::property = "C18";

using namespace real;

namespace
{
// ---- the reference writer: value and knobs to code points ---------------------------

struct Look
{
    bool     pretty;
    uint32_t step;
    char32_t ch;
    bool     escape;
    int      precision, fmt;   // 0 general, 2 fixed, 3 scientific
    Look() : pretty(false), step(0), ch(' '), escape(false), precision(6), fmt(0) {}
    std::string str() const
    {
        char b[120];
        snprintf(b, sizeof b, "%s step %u char %x%s precision %d format %d", pretty ? "pretty" : "compact", step, (unsigned)ch, escape ? " escaped" : "", precision, fmt);
        return b;
    }
};

const char32_t INDENT = 1;   // stands for one indentation unit (control characters are never written as they are)

void ascii(U& o, const char* s) { for (; *s; ++s) o.push_back((unsigned char)*s); }

void write_string(U& o, const U& s, const Look& k)
{
    o.push_back('"');
    char b[8];
    for (char32_t c : s)
        switch (c)
        {
        case '\t': ascii(o, "\\t"); break;
        case '\r': ascii(o, "\\r"); break;
        case '\n': ascii(o, "\\n"); break;
        case '\b': ascii(o, "\\b"); break;
        case '\f': ascii(o, "\\f"); break;
        case '"': ascii(o, "\\\""); break;
        case '\\': ascii(o, "\\\\"); break;
        default:
            if (c >= 0x20 && !(k.escape && c >= 0x7f)) o.push_back(c);
            else if (c < 0x10000) { snprintf(b, sizeof b, "\\u%04X", (unsigned)c); ascii(o, b); }
            else
            {
                snprintf(b, sizeof b, "\\u%04X", 0xD800 + (unsigned)((c - 0x10000) >> 10)); ascii(o, b);
                snprintf(b, sizeof b, "\\u%04X", 0xDC00 + (unsigned)((c - 0x10000) & 0x3ff)); ascii(o, b);
            }
        }
    o.push_back('"');
}

void line(U& o, size_t depth, const Look& k)
{
    if (!k.pretty) return;
    o.push_back('\n');
    o.append(depth * k.step, INDENT);
}

void write(U& o, const MV& m, const Look& k, size_t depth = 0)
{
    char b[600];
    switch (m.t)
    {
    case MV::Null: ascii(o, "null"); break;
    case MV::Bool: ascii(o, m.b ? "true" : "false"); break;
    case MV::Int: snprintf(b, sizeof b, "%lld", (long long)m.i); ascii(o, b); break;
    case MV::Float:
        if (m.d == std::floor(m.d) && std::fabs(m.d) < 9223372036854775808.0) snprintf(b, sizeof b, "%lld.0", (long long)m.d);
        else snprintf(b, sizeof b, k.fmt == 2 ? "%.*f" : k.fmt == 3 ? "%.*e" : "%.*g", k.precision, m.d);
        ascii(o, b);
        break;
    case MV::Str: write_string(o, m.s, k); break;
    case MV::Arr:
    {
        o.push_back('[');
        bool first = true;
        for (const MV& x : m.a)
        {
            if (!first) o.push_back(',');
            first = false;
            line(o, depth + 1, k);
            write(o, x, k, depth + 1);
        }
        line(o, depth, k);
        o.push_back(']');
        break;
    }
    case MV::Obj:
    {
        o.push_back('{');
        bool first = true;
        for (auto& x : m.o)
        {
            if (!first) o.push_back(',');
            first = false;
            line(o, depth + 1, k);
            write_string(o, x.first, k);
            o.push_back(':');
            if (k.pretty) o.push_back(INDENT);
            write(o, x.second, k, depth + 1);
        }
        line(o, depth, k);
        o.push_back('}');
        break;
    }
    }
}

struct Quiet : configor::error_handler
{
    int n;
    Quiet() : n(0) {}
    void handle(std::exception_ptr) override { ++n; }
    virtual ~Quiet() {}
};

template <class J, class C> struct Prog
{
    typedef typename J::value V;
    typedef typename V::string_type VS;
    typedef std::basic_string<C> S;
    typedef Dumper<J, C> D;
    typedef typename D::W W;
    typedef typename D::O O;
    typedef std::basic_ostream<C> OS;

    static C gen_fill()
    {
        static const C f[] = { C(' '), C(' '), C('\t'), C('.'), C('-'), C(sizeof(C) > 1 ? 0x3000 : '_') };
        return f[draw(6)];
    }
    static uint8_t gen_step()
    {
        static const uint8_t s[] = { 0, 1, 2, 3, 4, 8, 17, 255 };
        return s[draw(chance(1, 6) ? 8 : 6)];
    }

    // ---- options: made once, used in several dumps --------------------------------
    struct Set
    {
        O    o[5];
        bool used;
        int  step; C ch;                 // -1: not given
        int  escape;                     // -1: not given
        int  precision, fmt;             // -1: not given
        Enc  enc;
        std::unique_ptr<Quiet> quiet;
        bool counts;                     // the handler is among the options
        Set() : used(false), step(-1), ch(0), escape(-1), precision(-1), fmt(-1), enc(E_DEFAULT), counts(false) {}
        void make()
        {
            quiet.reset(new Quiet);
            used = false; step = escape = precision = fmt = -1; enc = E_DEFAULT; counts = false;
            for (int i = 0; i < 5; ++i) o[i] = O([](W&) {});
            for (uint32_t n = draw(5), i = 0; i < n; ++i)
                switch (draw(8))
                {
                case 0: case 1: case 2: step = gen_step(); ch = gen_fill(); o[i] = ch == C(' ') && draw(2) ? W::with_indent((uint8_t)step) : W::with_indent((uint8_t)step, ch); break;
                case 3: escape = (int)draw(2); o[i] = W::with_unicode_escaping(escape != 0); break;
                case 4: case 5:
                {
                    precision = (int)draw(19);
                    switch (draw(4))
                    {
                    case 0: fmt = 2; o[i] = W::with_precision(precision); break;
                    case 1: fmt = 2; o[i] = W::with_precision(precision, std::ios_base::fixed); break;
                    case 2: fmt = 3; o[i] = W::with_precision(precision, std::ios_base::scientific); break;
                    default: fmt = 0; o[i] = W::with_precision(precision, std::ios_base::fmtflags()); break;
                    }
                    break;
                }
                case 6:
                {
                    static const Enc e[] = { E_UTF8, E_AUTO, E_UTF16, E_UTF32 };
                    enc = e[draw(sizeof(C) > 1 ? 4 : 2)];
                    o[i] = enc == E_AUTO ? W::template with_target_encoding<configor::encoding::auto_utf>() : D::utf(enc, std::integral_constant<bool, sizeof(C) == 4>());
                    break;
                }
                default: counts = true; o[i] = W::with_error_handler(quiet.get()); break;
                }
        }
        void apply(Look& k) const
        {
            if (step >= 0) { k.step = (uint32_t)step; k.ch = (char32_t)ch; k.pretty = step > 0; }
            if (escape >= 0) k.escape = escape != 0;
            if (fmt >= 0) { k.precision = precision; k.fmt = fmt; }
        }
        template <class F> void use(F f) { f(typename D::Opts{ o[0], o[1], o[2], o[3], o[4] }); }
    };

    // ---- streams that live through the whole run ------------------------------------
    struct Stream
    {
        int    kind;
        Snk<C> s;
        std::unique_ptr<SinkBuf<C>>     buf;
        std::unique_ptr<AdapterSink<C>> ad;
        std::unique_ptr<OS>             os;
        std::basic_ostringstream<C>*    ss;
        int width; C fill; int precision; std::ios_base::fmtflags flt;
        Stream() : kind(0), ss(nullptr), width(0), fill(C(' ')), precision(6), flt() {}
        void open(int k)
        {
            kind = k;
            if (k == 0)
            {
                if (draw(2)) s.buf = 1 + draw(40);
                buf.reset(new SinkBuf<C>(s));
                os.reset(new OS(buf.get()));
            }
            else if (k == 1)
            {
                ad.reset(new AdapterSink<C>(s, draw(2) != 0));
                os.reset(new configor::basic_oadapterstream<C>(*ad));
            }
            else
            {
                ss = new std::basic_ostringstream<C>();
                os.reset(ss);
            }
        }
        void knobs()
        {
            if (draw(2)) { width = gen_step(); os->width(width); }
            if (chance(1, 3)) { fill = gen_fill(); os->fill(fill); }
            if (chance(1, 3)) { precision = (int)draw(18); os->precision(precision); }
            if (chance(1, 3))
            {
                static const std::ios_base::fmtflags f[] = { std::ios_base::fmtflags(), std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific };
                flt = f[draw(4)];
                os->setf(flt, std::ios_base::floatfield);
            }
        }
        Look look() const
        {
            Look k;
            k.pretty = width > 0; k.step = (uint32_t)width; k.ch = (char32_t)fill;
            k.precision = precision;
            k.fmt = flt == std::ios_base::fixed ? 2 : flt == std::ios_base::scientific ? 3 : 0;
            return k;
        }
        // everything delivered so far
        S seen()
        {
            UserScope u;
            if (ss) return ss->str();
            if (s.buf && os->good()) os->flush();
            return s.got;
        }
        void repair()
        {
            UserScope u;
            s.fault = Fault();
            os->clear();
            if (!ss) os->flush();
            os->clear();
            os->width(0);
            width = 0;
        }
        void check(const char* when) const
        {
            if (os->width() != 0 || os->precision() != precision || os->fill() != fill || (os->flags() & std::ios_base::floatfield) != flt)
                sim::violate("knob-left-changed", "%s the stream has width %d precision %d fill %x float format %x instead of 0, %d, %x, %x", when, (int)os->width(), (int)os->precision(),
                             (unsigned)os->fill(), (unsigned)(os->flags() & std::ios_base::floatfield), precision, (unsigned)fill, (unsigned)flt);
        }
    };

    MV m[3];
    V  v[3];
    Set set[2];
    Stream st[2];

    static bool has_negative_zero(const MV& x)
    {
        if (x.t == MV::Float && x.d == 0 && std::signbit(x.d)) return true;
        for (const MV& y : x.a) if (has_negative_zero(y)) return true;
        for (auto& y : x.o) if (has_negative_zero(y.second)) return true;
        return false;
    }

    void value(uint32_t i)
    {
        model::Gen g;
        g.budget = sim::thorough() ? 80 : 30;
        g.max_depth = 6;
        g.large = 300;
        do m[i] = draw(5) ? model::gen_container(g) : model::gen_value(g); while (has_negative_zero(m[i]));
        if (chance(1, 6))
        {
            // straight down
            for (uint32_t n = 1 + draw(40); n; --n)
            {
                MV p = draw(2) ? MV::array() : MV::object();
                if (p.t == MV::Arr) { p.a.push_back(m[i]); if (chance(1, 8)) p.a.push_back(MV::integer(1)); }
                else p.o[model::gen_string(g)] = m[i];
                m[i] = p;
            }
            sim::probe("deeply-indented");
        }
        LibScope l;
        v[i] = val<V>::build(m[i]);
    }

    static void judge(const char* how, const S& got, const MV& mv, const Look& k, Enc enc)
    {
        U o;
        write(o, mv, k);
        S want = units(o, enc, C());
        for (C& c : want) if (c == C(INDENT)) c = (C)k.ch;
        if (got != want)
        {
            size_t at = 0;
            while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
            const size_t from = at > 20 ? at - 20 : 0;
            sim::violate("layout-differs", "%s, %s, of %s: at unit %zu ...%s instead of ...%s", how, k.str().c_str(), model::show(mv, 200).c_str(), at,
                         show_units(got.substr(from), 100).c_str(), show_units(want.substr(from), 100).c_str());
        }
        sim::probe(k.pretty ? "pretty-text-judged" : "compact-text-judged");
    }

    // dumps something that fails, in one of several ways, and says what it delivered
    bool failing_value(V& bad)
    {
        LibScope l;
        static const char three[] = { 'o', (char)0xff, 'o', 0 };
        VS s;
        for (const char* p = three; *p; ++p) s.push_back(sizeof(typename V::char_type) > 1 && *p != 'o' ? (typename V::char_type)(0x7fffffff) : (typename V::char_type)*p);
        bad = V(typename V::array_type{ V(1), V(typename V::array_type{ V(2.5), V(s), V(nullptr) }) });
        return true;
    }

    void on_stream(Stream& t)
    {
        const uint32_t i = draw(3);
        if (draw(3)) t.knobs();
        const bool wrapped = chance(1, 3);
        Set none;
        Set* q = nullptr;
        if (!wrapped)
        {
            q = &set[draw(2)];
            if (q->used) sim::probe("options-used-again");
            q->used = true;
        }
        Look k = t.look();
        if (q) q->apply(k);
        const Enc enc = q ? q->enc : E_DEFAULT;
        const S before = t.seen();
        const uint32_t mode = draw(6);   // 0 device fault, 1 allocation, 2 unencodable text, others healthy
        if (mode == 0 && !t.ss)
        {
            t.s.fault.on = true;
            t.s.fault.at = t.s.got.size() + draw(60);
            t.s.fault.kind = (int)draw(4);
            t.s.fault.transient = draw(2) != 0;
        }
        V bad;
        const V* what = &v[i];
        if (mode == 2 && failing_value(bad)) what = &bad;
        if (mode == 1) sim::alloc_arm(draw(30), 1 + draw(3));
        const int handled = q ? q->quiet->n : 0;
        std::string err;
        const Kind r = guarded([&] {
            if (wrapped) *t.os << J::wrap(*what);
            else q->use([&](typename D::Opts o) { J::dump(*t.os, *what, o); });
        }, &err);
        const bool fired = mode == 1 && sim::alloc_fired() > 0;
        if (mode == 1) sim::alloc_disarm();
        const S all = t.seen();
        const bool reported = r != OK || !t.os->good() || (q && q->quiet->n != handled);
        const bool fault = t.s.fault.fired || fired || mode == 2;
        ev("dump value %u to stream kind %d%s %s -> %s '%s'%s", i, t.kind, wrapped ? " by operator<<" : "", k.str().c_str(), kind_name(r), err.c_str(), fault ? " (failing)" : "");
        if (all.compare(0, before.size(), before) != 0) sim::violate("earlier-text-changed", "what the stream had received before changed");
        if (fault)
        {
            sim::probe("dump-failed-in-between");
            if (mode == 2 && !reported) sim::violate("unencodable-text-accepted", "text that cannot be decoded was dumped: %s", show_units(all.substr(before.size())).c_str());
            if (!reported && mode != 2) judge("a dump that reported no failure", all.substr(before.size()), m[i], k, enc);
            t.width = 0;
            if (!fired) t.check("after a failed dump");
            t.repair();
            sim::nontrivial();
            LibScope l;
            bad = nullptr;
            return;
        }
        t.s.fault = Fault();
        if (reported) sim::violate("healthy-dump-failed", "%s: %s '%s' stream %s", k.str().c_str(), kind_name(r), err.c_str(), t.os->good() ? "good" : "bad");
        judge(wrapped ? "operator<<" : "dump to a stream", all.substr(before.size()), m[i], k, enc);
        t.width = 0;
        t.check("after a dump");
    }

    void to_string()
    {
        const uint32_t i = draw(3);
        Set& q = set[draw(2)];
        if (q.used) sim::probe("options-used-again");
        q.used = true;
        Look k;
        q.apply(k);
        S got;
        const bool ret = draw(2) != 0, plain = chance(1, 6);
        const bool alloc = chance(1, 6);
        if (plain) k = Look();
        if (alloc) sim::alloc_arm(draw(30), 1 + draw(3));
        const int handled = q.quiet->n;
        std::string err;
        const Kind r = guarded([&] {
            if (plain) { if (ret) got = J::template dump<C>(v[i]); else J::template dump<C>(got, v[i]); }
            else q.use([&](typename D::Opts o) { if (ret) got = J::template dump<C>(v[i], o); else J::template dump<C>(got, v[i], o); });
        }, &err);
        const bool fired = alloc && sim::alloc_fired() > 0;
        if (alloc) sim::alloc_disarm();
        const bool reported = r != OK || q.quiet->n != handled;
        ev("dump value %u to a string %s -> %s '%s'%s", i, k.str().c_str(), kind_name(r), err.c_str(), fired ? " (failing)" : "");
        if (fired) { sim::nontrivial(); sim::probe("dump-failed-in-between"); }
        if (reported && !fired) sim::violate("healthy-dump-failed", "%s: %s '%s'", k.str().c_str(), kind_name(r), err.c_str());
        if (!reported) judge("dump to a string", got, m[i], k, plain ? E_DEFAULT : q.enc);
    }

    void run()
    {
        for (uint32_t i = 0; i < 3; ++i) value(i);
        {
            LibScope l;
            set[0].make();
            set[1].make();
        }
        st[0].open((int)draw(3));
        st[1].open((int)draw(3));
        for (uint32_t n = 3 + draw(sim::thorough() ? 12 : 6); n; --n)
            switch (draw(8))
            {
            case 0: value(draw(3)); break;
            case 1: { LibScope l; set[draw(2)].make(); break; }
            case 2: case 3: to_string(); break;
            default: on_stream(st[draw(2)]); break;
            }
        for (uint32_t i = 0; i < 3; ++i)
            if (!model::same(val<V>::lift(v[i]), m[i], 0)) sim::violate("source-modified", "dumping modified the value");
        LibScope l;
        for (uint32_t i = 0; i < 3; ++i) v[i] = nullptr;
    }
};

template <class J, class C> void go()
{
    std::unique_ptr<Prog<J, C>> p(new Prog<J, C>);
    p->run();
    LibScope l;
    p.reset();
}
}  // namespace

void sim::run()
{
    switch (draw(6))
    {
    case 0: case 1: case 2: go<configor::json, char>(); break;
    case 3: go<configor::wjson, wchar_t>(); break;
    case 4: go<configor::json, wchar_t>(); break;
    default: go<configor::wjson, char>(); break;
    }
}
