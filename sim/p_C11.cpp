// C11: the ambient locale and the stream's flags never reach the text.
#include "convs.hpp"
#include "docs.hpp"

#include <locale>

const char* const sim::property = "C11";

using namespace real;

namespace
{
// ---- hostile facets -----------------------------------------------------------------

template <class C> struct Punct : std::numpunct<C>
{
    int kind;
    explicit Punct(int k) : kind(k) {}
    C do_decimal_point() const override { return kind == 1 ? C(',') : C('#'); }
    C do_thousands_sep() const override { return kind == 1 ? C('.') : C('\''); }
    std::string do_grouping() const override { return kind == 1 ? "\3" : "\1"; }
    std::basic_string<C> do_truename() const override { return std::basic_string<C>(2, C('J')); }
    std::basic_string<C> do_falsename() const override { return std::basic_string<C>(2, C('N')); }
};
template <class C> struct Put : std::num_put<C>
{
    typedef typename std::num_put<C>::iter_type It;
    It mark(It o) const { *o++ = C('?'); return o; }
    It do_put(It o, std::ios_base&, C, bool) const override { return mark(o); }
    It do_put(It o, std::ios_base&, C, long) const override { return mark(o); }
    It do_put(It o, std::ios_base&, C, unsigned long) const override { return mark(o); }
    It do_put(It o, std::ios_base&, C, long long) const override { return mark(o); }
    It do_put(It o, std::ios_base&, C, unsigned long long) const override { return mark(o); }
    It do_put(It o, std::ios_base&, C, double) const override { return mark(o); }
    It do_put(It o, std::ios_base&, C, long double) const override { return mark(o); }
    It do_put(It o, std::ios_base&, C, const void*) const override { return mark(o); }
};
template <class C> struct Get : std::num_get<C>
{
    typedef typename std::num_get<C>::iter_type It;
    It refuse(It b, std::ios_base::iostate& e) const { e |= std::ios_base::failbit; return b; }
    It do_get(It b, It, std::ios_base&, std::ios_base::iostate& e, long&) const override { return refuse(b, e); }
    It do_get(It b, It, std::ios_base&, std::ios_base::iostate& e, unsigned long&) const override { return refuse(b, e); }
    It do_get(It b, It, std::ios_base&, std::ios_base::iostate& e, long long&) const override { return refuse(b, e); }
    It do_get(It b, It, std::ios_base&, std::ios_base::iostate& e, unsigned long long&) const override { return refuse(b, e); }
    It do_get(It b, It, std::ios_base&, std::ios_base::iostate& e, double&) const override { return refuse(b, e); }
    It do_get(It b, It, std::ios_base&, std::ios_base::iostate& e, bool&) const override { return refuse(b, e); }
    It do_get(It b, It, std::ios_base&, std::ios_base::iostate& e, unsigned int&) const override { return refuse(b, e); }
    It do_get(It b, It, std::ios_base&, std::ios_base::iostate& e, unsigned short&) const override { return refuse(b, e); }
};

const int LOCALES = 5;   // 0 classic
std::locale make_locale(int k)
{
    std::locale l = std::locale::classic();
    if (k == 1 || k == 2)
    {
        l = std::locale(l, new Punct<char>(k));
        l = std::locale(l, new Punct<wchar_t>(k));
    }
    if (k >= 3)
    {
        l = std::locale(l, new Put<char>);
        l = std::locale(l, new Put<wchar_t>);
    }
    if (k == 4)
    {
        l = std::locale(l, new Get<char>);
        l = std::locale(l, new Get<wchar_t>);
        l = std::locale(l, new Punct<char>(2));
        l = std::locale(l, new Punct<wchar_t>(2));
    }
    return l;
}
const std::locale& locale_of(int k)
{
    UserScope u;
    static std::locale* all[LOCALES];
    if (!all[k]) all[k] = new std::locale(make_locale(k));
    return *all[k];
}

struct Ambient
{
    int global;        // C++ global locale
    int c_locale;      // 0 "C", 1 LC_NUMERIC, 2 LC_ALL with a decimal comma
    int imbued;        // -1: whatever the stream gets when it is made
    bool made_before;  // the stream is made before the global locale changes
    std::ios_base::fmtflags flags;
    std::vector<uint32_t> mid;  // callbacks at which the global locale changes again
    Ambient() : global(0), c_locale(0), imbued(-1), made_before(false), flags() {}
    std::string str() const
    {
        char b[160];
        snprintf(b, sizeof b, "global %d C-locale %d imbued %d%s flags %x changes %zu", global, c_locale, imbued, made_before ? " made before" : "", (unsigned)flags, mid.size());
        return b;
    }
    static Ambient gen()
    {
        Ambient a;
        a.global = (int)draw(LOCALES);
        a.c_locale = (int)draw(3);
        a.imbued = (int)draw(LOCALES + 1) - 1;
        a.made_before = draw(2) != 0;
        static const std::ios_base::fmtflags f[] = { std::ios_base::hex, std::ios_base::oct, std::ios_base::showbase, std::ios_base::showpos, std::ios_base::uppercase,
                                                     std::ios_base::boolalpha, std::ios_base::showpoint, std::ios_base::left, std::ios_base::internal, std::ios_base::unitbuf,
                                                     std::ios_base::right };
        for (uint32_t n = draw(5); n; --n) a.flags |= f[draw(11)];
        for (uint32_t n = draw(3); n; --n) a.mid.push_back(draw(40));
        return a;
    }
};
void set_global(int cpp, int c)
{
    UserScope u;
    setlocale(LC_ALL, "C");
    std::locale::global(locale_of(cpp));
    if (c == 1) setlocale(LC_NUMERIC, "sim_DE");
    if (c == 2 && setlocale(LC_ALL, "sim_DE")) sim::probe("c-locale-with-decimal-comma");
}
// changes the global locale inside callbacks
struct Mid : Hook
{
    const Ambient& a;
    uint32_t n;
    int now_cpp, now_c;
    explicit Mid(const Ambient& x) : a(x), n(0), now_cpp(x.global), now_c(x.c_locale) {}
    void at(const char* where) override
    {
        const uint32_t i = n++;
        for (uint32_t k : a.mid)
            if (k == i)
            {
                now_cpp = (now_cpp + 1 + (int)i) % LOCALES;
                now_c = (now_c + 1) % 3;
                set_global(now_cpp, now_c);
                sim::fault("global-locale-changed-mid-operation");
                ev("global locale becomes %d/%d at callback %u (%s)", now_cpp, now_c, i, where);
            }
    }
};
// everything around an operation; restores a clean environment
struct Around
{
    const Ambient& a;
    Mid mid;
    HookScope hs;
    explicit Around(const Ambient& x) : a(x), mid(x), hs(&mid) {}
    void enter() { set_global(a.global, a.c_locale); }
    // the operation must not have touched the environment
    void leave(const char* what)
    {
        UserScope u;
        const char* c = setlocale(LC_NUMERIC, nullptr);
        const bool c_ok = mid.now_c == 0 ? !strcmp(c, "C") : true;
        const bool cpp_ok = std::locale() == locale_of(mid.now_cpp);
        set_global(0, 0);
        if (!c_ok || !cpp_ok) sim::violate("global-locale-changed", "%s changed the process's locale", what);
    }
};

// the state of a caller's stream
template <class S> struct State
{
    typedef typename S::char_type C;
    std::ios_base::fmtflags flags;
    std::streamsize precision, width;
    C fill;
    std::locale loc;
    std::ios_base::iostate exc;
    explicit State(const S& s) : flags(s.flags()), precision(s.precision()), width(s.width()), fill(s.fill()), loc(s.getloc()), exc(s.exceptions()) {}
    std::string differs(const State& o, bool with_width) const
    {
        if (flags != o.flags) return "flags";
        if (precision != o.precision) return "precision";
        if (with_width && width != o.width) return "width";
        if (fill != o.fill) return "fill";
        if (loc != o.loc) return "locale";
        if (exc != o.exc) return "exception mask";
        return "";
    }
};

template <class C> struct WriteReq
{
    int  kind;          // 0 ostringstream, 1 stream over a seam buffer, 2 oadapterstream
    bool bulk;
    std::ios_base::iostate exc;
    int  width;         // knobs
    C    fill;
    int  precision;
    std::ios_base::fmtflags floatfield;
    int  api;           // 0 dump, 1 <<, 2 typed <<
    int  times;
    Fault fault;
    size_t buf;
    bool clear_between;
};

template <class J, class C> struct Test
{
    typedef typename J::value V;
    typedef typename V::char_type K;

    struct Written { std::vector<std::basic_string<C>> text; std::vector<Kind> kind; };

    // writes to a caller's stream, `times` times
    static Written write(const WriteReq<C>& r, const DumpReq<C>& q, const V& v, const TypedVal<J>* t, const Ambient& a)
    {
        Written w;
        Snk<C> s;
        s.fault = r.fault;
        s.buf = r.buf;
        SinkBuf<C> sb(s);
        AdapterSink<C> as(s, r.bulk);
        Around env(a);
        if (!a.made_before) env.enter();
        std::unique_ptr<std::basic_ostream<C>> os;
        std::basic_ostringstream<C>* ss = nullptr;
        {
            UserScope u;
            if (r.kind == 0) os.reset(ss = new std::basic_ostringstream<C>());
            else if (r.kind == 1) os.reset(new std::basic_ostream<C>(&sb));
            else os.reset(new configor::basic_oadapterstream<C>(as));
        }
        if (a.made_before) env.enter();
        if (a.imbued >= 0) os->imbue(locale_of(a.imbued));
        os->setf(a.flags);
        if (a.flags & std::ios_base::basefield)
            os->setf(a.flags & std::ios_base::hex ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield);
        os->fill(r.fill);
        os->precision(r.precision);
        os->setf(r.floatfield, std::ios_base::floatfield);
        size_t before = 0;
        for (int k = 0; k < r.times; ++k)
        {
            UserScope u;
            os->clear();
            os->exceptions(r.exc);
            if (k == 0) os->width(r.width);
            State<std::basic_ostream<C>> st(*os);
            std::string what;
            const bool was_good = os->good();
            Kind kd = guarded(
                [&] {
                    if (r.api == 2) t->out_any(*os);
                    else if (r.api == 1) *os << J::wrap(v);
                    else Dumper<J, C>::with_options(q, [&](typename Dumper<J, C>::Opts o) { J::dump(*os, v, o); });
                },
                &what);
            State<std::basic_ostream<C>> now(*os);
            std::basic_string<C> all = ss ? ss->str() : s.got;
            if (r.buf && r.kind == 1)  // what its owner would flush
            {
                try { os->exceptions(std::ios_base::goodbit); os->flush(); } catch (...) {}
                all = s.got;
            }
            std::string d = now.differs(st, false);
            const bool width_ok = now.width == 0 || kd != OK || !was_good;
            w.kind.push_back(kd == OK && os->fail() ? IOFAIL : kd);
            w.text.push_back(all.substr(before));
            before = all.size();
            if (!d.empty() || !width_ok)
            {
                env.leave("");
                sim::violate("stream-state-changed", "writing (%s) changed the caller's %s", kind_name(kd), d.empty() ? "width to something other than 0" : d.c_str());
            }
        }
        env.leave("writing");
        return w;
    }
    static void show(const char* name, const Written& w)
    {
        for (size_t i = 0; i < w.text.size(); ++i) { ev("%s %zu: %s", name, i, kind_name(w.kind[i])); ev_units("text", w.text[i]); }
    }

    static void writing()
    {
        model::Gen g;
        g.budget = 12;
        MV m = model::gen_value(g);
        if (draw(2)) { MV x = MV::array(); x.a.push_back(MV::integer(model::gen_int())); x.a.push_back(MV::floating(model::gen_float())); x.a.push_back(MV::floating((double)(int64_t)draw(100000000))); x.a.push_back(m); m = x; }
        V v;
        { LibScope l; v = val<V>::build(m); }
        WriteReq<C> r;
        r.kind = (int)draw(3);
        r.bulk = draw(2) != 0;
        r.exc = draw(4) == 0 ? std::ios_base::badbit : draw(4) == 0 ? std::ios_base::failbit | std::ios_base::badbit : std::ios_base::goodbit;
        r.width = draw(2) ? 0 : (int)draw(9);
        r.fill = C(" .0_"[draw(4)]);
        r.precision = draw(2) ? 6 : (int)draw(18);
        const uint32_t ff = draw(4);
        r.floatfield = ff == 0 ? std::ios_base::fmtflags() : ff == 1 ? std::ios_base::fixed : ff == 2 ? std::ios_base::scientific : std::ios_base::fixed | std::ios_base::scientific;
        r.api = (int)draw(3);
        if (sizeof(K) != sizeof(C) && r.api == 2) r.api = 1;
        r.times = 1 + (int)draw(3);
        r.buf = r.kind == 1 && draw(2) ? 1 + draw(9) : 0;
        if (chance(1, 5) && r.kind != 0)
        {
            r.fault.on = true;
            r.fault.at = draw(60);
            r.fault.kind = (int)draw(4);
            r.fault.transient = draw(2) != 0;
        }
        DumpReq<C> q;
        if (r.api == 0)
        {
            q = gen_dump_options<C>(false);
            if (chance(1, 4)) q.enc = gen_enc<C>();
        }
        std::unique_ptr<TypedVal<J>> t;
        if (r.api == 2) { t = gen_typed<J>(); }
        Ambient clean, a = Ambient::gen();
        // unitbuf makes the standard library flush in a destructor, where a failing device ends the process
        if (r.fault.on) a.flags &= ~std::ios_base::unitbuf;
        ev("write %s as %s: sink %d api %d width %d precision %d times %d fault %s; ambient %s", model::show(m, 100).c_str(), KT<C>::name(), r.kind, r.api, r.width, r.precision, r.times, r.fault.str().c_str(), a.str().c_str());
        Written w0 = write(r, q, v, t.get(), clean);
        Written w1 = write(r, q, v, t.get(), a);
        show("clean", w0);
        show("hostile", w1);
        compare(w0, w1, "depends on the ambient locale or flags");
        // width applies once: the later texts are those of a stream without width
        if (r.times > 1 && !r.fault.on)
        {
            WriteReq<C> r2 = r;
            r2.width = 0;
            r2.times = 1;
            Written w2 = write(r2, q, v, t.get(), clean);
            for (size_t i = 1; i < w0.text.size(); ++i)
                if (w0.text[i] != w2.text[0]) sim::violate("width-sticks", "text number %zu differs from one written without width: %s instead of %s", i, show_units(w0.text[i]).c_str(), show_units(w2.text[0]).c_str());
        }
        sim::nontrivial();
        LibScope l;
        v = nullptr;
        t.reset();
    }
    static void compare(const Written& a, const Written& b, const char* what)
    {
        for (size_t i = 0; i < a.text.size(); ++i)
            if (a.text[i] != b.text[i] || a.kind[i] != b.kind[i])
                sim::violate("text-differs", "the text %s: %s (%s), alone %s (%s)", what, show_units(b.text[i]).c_str(), kind_name(b.kind[i]), show_units(a.text[i]).c_str(), kind_name(a.kind[i]));
    }

    // strings have no caller's stream, but the process has its locale
    static void to_string()
    {
        model::Gen g;
        g.budget = 12;
        MV m = model::gen_container(g);
        V v;
        { LibScope l; v = val<V>::build(m); }
        DumpReq<C> q = gen_dump_options<C>(false);
        if (chance(1, 3)) q.enc = gen_enc<C>();
        const bool ret = draw(2) != 0;
        Ambient clean, a = Ambient::gen();
        ev("dump %s to a string; ambient %s", model::show(m, 100).c_str(), a.str().c_str());
        Written w[2];
        for (int k = 0; k < 2; ++k)
        {
            Around env(k ? a : clean);
            env.enter();
            std::basic_string<C> s;
            Kind kd = guarded([&] {
                Dumper<J, C>::with_options(q, [&](typename Dumper<J, C>::Opts o) {
                    if (ret) s = J::template dump<C>(v, o);
                    else J::template dump<C>(s, v, o);
                });
            });
            env.leave("dumping");
            w[k].text.push_back(s);
            w[k].kind.push_back(kd);
        }
        show("clean", w[0]);
        show("hostile", w[1]);
        compare(w[0], w[1], "depends on the ambient locale");
        sim::nontrivial();
        LibScope l;
        v = nullptr;
    }

    struct Read { Kind kind; bool bad; MV v; size_t pos; };
    static Read read(const Src<C>& proto, const ParseReq<J, C>& q, const TypedVal<J>* t, std::ios_base::iostate exc, const Ambient& a)
    {
        Read r;
        r.bad = false;
        Src<C> s = proto;
        V out;
        std::string what;
        Around env(a);
        if (q.kind < S_STREAM || q.kind == S_FILE)
        {
            env.enter();
            ParseRes p = Parser<J, C>::parse(s, q, out);
            env.leave("parsing");
            r.kind = p.kind;
        }
        else
        {
            UnbufSource<C> ub(s);
            ChunkSource<C> cb(s);
            AdapterSource<C> ad(s);
            if (!a.made_before) env.enter();
            std::unique_ptr<std::basic_istream<C>> is;
            {
                UserScope u;
                if (q.kind == S_UNBUF) is.reset(new std::basic_istream<C>(&ub));
                else if (q.kind == S_CHUNK) is.reset(new std::basic_istream<C>(&cb));
                else if (q.kind == S_ADAPTER) is.reset(new configor::basic_iadapterstream<C>(ad));
                else is.reset(new std::basic_istringstream<C>(s.text));
            }
            if (a.made_before) env.enter();
            if (a.imbued >= 0) is->imbue(locale_of(a.imbued));
            is->setf(a.flags);
            if (a.flags & std::ios_base::basefield)
                is->setf(a.flags & std::ios_base::hex ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield);
            if (q.noskipws) is->unsetf(std::ios_base::skipws);
            is->exceptions(exc);
            is->width(3);
            State<std::basic_istream<C>> st(*is);
            r.kind = guarded(
                [&] {
                    if (t) const_cast<TypedVal<J>*>(t)->in_any(*is);
                    else if (q.api == 2) *is >> J::wrap(out);
                    else if (q.api == 1) Parser<J, C>::with_options(q, [&](typename Parser<J, C>::Opts o) { J::parse(out, *is, o); });
                    else Parser<J, C>::with_options(q, [&](typename Parser<J, C>::Opts o) { out = J::parse(*is, o); });
                },
                &what);
            State<std::basic_istream<C>> now(*is);
            r.bad = is->fail();
            std::string d = now.differs(st, true);
            env.leave("parsing");
            if (!d.empty()) sim::violate("stream-state-changed", "reading (%s) changed the caller's %s", kind_name(r.kind), d.c_str());
        }
        r.pos = s.pos;
        r.v = t ? t->model() : val<V>::lift(out);
        LibScope l;
        out = nullptr;
        return r;
    }
    static void reading()
    {
        model::Gen g;
        g.budget = 12;
        Doc<C> d = gen_document<C>(g, draw(2) != 0);
        if (chance(1, 4)) damage(d, 1);
        Src<C> s;
        s.text = d.text;
        s.steady = true;
        ParseReq<J, C> q;
        q.enc = d.enc;
        gen_source<J, C>(s, q);
        // wide FILE input is defined in terms of the C locale
        if (sizeof(C) > 1 && q.kind == S_FILE) { q.kind = S_CHUNK; q.api = 1; if (!carries(S_CHUNK, s.text)) { q.kind = S_STRING; q.api &= 1; } }
        std::unique_ptr<TypedVal<J>> t, x0, x1;
        if (q.api == 2 && sizeof(K) == sizeof(C) && draw(2) && q.kind >= S_STREAM && q.kind != S_FILE)
        {
            t = gen_typed<J>();
            x0.reset(t->fresh());
            x1.reset(t->fresh());
            if (draw(2)) s.text = KT<C>::enc(model::gen_doc(t->model(), model::gen_style()));
            if (!carries(q.kind, s.text)) { q.kind = S_SSTREAM; if (!carries(q.kind, s.text)) s.text.clear(); }
        }
        if (chance(1, 5) && q.kind >= S_UNBUF)
        {
            s.fault.on = true;
            s.fault.at = draw((uint32_t)s.text.size() + 1);
            s.fault.kind = (int)draw(3);
            s.fault.transient = draw(2) != 0 && q.kind != S_FILE;
        }
        if (q.kind == S_FILE && q.api == 3) q.api = 1;
        const std::ios_base::iostate exc = draw(4) == 0 ? std::ios_base::badbit : draw(4) == 0 ? std::ios_base::failbit | std::ios_base::badbit : std::ios_base::goodbit;
        Ambient clean, a = Ambient::gen();
        ev("parse %s %s; ambient %s", show_req(q, s).c_str(), show_units(s.text, 160).c_str(), a.str().c_str());
        Read r0 = read(s, q, x0.get(), exc, clean);
        Read r1 = read(s, q, x1.get(), exc, a);
        ev("clean %s %d %s, hostile %s %d %s", kind_name(r0.kind), r0.bad, model::show(r0.v).c_str(), kind_name(r1.kind), r1.bad, model::show(r1.v).c_str());
        if (r0.kind != r1.kind || r0.bad != r1.bad || !model::same(r0.v, r1.v, 0) || r0.pos != r1.pos)
            sim::violate("value-differs", "the value read depends on the ambient locale or flags: %s %d %s, alone %s %d %s", kind_name(r1.kind), r1.bad, model::show(r1.v).c_str(), kind_name(r0.kind), r0.bad, model::show(r0.v).c_str());
        sim::nontrivial();
        LibScope l;
        t.reset();
        x0.reset();
        x1.reset();
    }
    static void one()
    {
        switch (draw(5))
        {
        case 0: case 1: writing(); break;
        case 2: to_string(); break;
        default: reading(); break;
        }
    }
};
}  // namespace

void sim::run()
{
    set_global(0, 0);
    for (uint32_t n = 1 + draw(4); n; --n)
        switch (draw(6))
        {
        case 0: case 1: Test<configor::json, char>::one(); break;
        case 2: Test<configor::json, wchar_t>::one(); break;
        case 3: case 4: Test<configor::wjson, wchar_t>::one(); break;
        default: Test<configor::wjson, char>::one(); break;
        }
}
