// Jobs: self-contained library operations whose inputs are drawn beforehand, so
// that the same job can be run alone, beside others, or inside a callback, and
// its complete observable result compared.
#pragma once
#include "convs.hpp"
#include "docs.hpp"

namespace real
{

struct Job
{
    virtual ~Job() {}
    virtual std::string title() const = 0;
    virtual std::string run() = 0;   // everything that can be observed of the operation
};

// preparing a job's inputs may hit an injected allocation failure, too
inline std::string run_job(Job& j)
{
    try { return j.run(); }
    catch (const std::bad_alloc&) { UserScope u; return "bad_alloc while preparing"; }
}

struct Out
{
    std::string s;
    void add(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        UserScope u;
        char b[600];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        if (!s.empty()) s += "; ";
        s += b;
    }
    void add(const MV& m)
    {
        UserScope u;
        add("%s #%llx", model::show(m, 300).c_str(), (unsigned long long)model::digest(m));
    }
    template <class S> void units(const char* what, const S& t)
    {
        UserScope u;
        uint64_t h = 1469598103934665603ull;
        for (auto c : t) { h ^= (uint64_t)c; h *= 1099511628211ull; }
        add("%s[%zu] %s #%llx", what, (size_t)t.size(), show_units(std::basic_string<typename S::value_type>(t.begin(), t.end()), 300).c_str(), (unsigned long long)h);
    }
};

// how a job reports errors: 0 exceptions, 1 record, 2 ignore, 3 a handler of the user's
struct Handlers
{
    configor::error_handler_with<configor::error_policy::record> rec;
    configor::error_handler_with<configor::error_policy::ignore> ign;
    configor::error_handler_with<configor::error_policy::strict> str;
    CountingHandler cnt;
    configor::error_handler* get(int k)
    {
        switch (k)
        {
        case 1: return &rec;
        case 2: return &ign;
        case 3: return &cnt;
        case 4: return &str;
        default: return nullptr;
        }
    }
    void report(Out& o, int k)
    {
        if (k == 1) o.add("recorded '%s'", rec.error.c_str());
        if (k == 3) o.add("handled %d %s '%s'", cnt.n, kind_name(cnt.kind), cnt.what.c_str());
    }
};

template <class J, class D> struct ParseJob : Job
{
    typedef typename J::value V;
    Src<D>         proto;
    ParseReq<J, D> q;
    int            handler;

    static ParseJob* gen(bool broken = false)
    {
        UserScope u;
        ParseJob* j = new ParseJob;
        model::Gen g;
        g.budget = 14;
        Doc<D> d = gen_document<D>(g, draw(3) != 0);
        if (chance(1, 10) && d.enc == E_DEFAULT) d.enc = E_THROW;
        if (broken || chance(1, 4)) damage(d, 1 + draw(2));
        j->proto.text = d.text;
        j->q.enc = d.enc;
        j->handler = chance(1, 2) ? (int)draw(5) : 0;
        Handlers h;
        j->q.eh = h.get(j->handler);
        gen_source<J, D>(j->proto, j->q);
        j->q.eh = nullptr;
        j->proto.steady = true;
        if (chance(1, 4) && j->q.kind >= S_UNBUF)
        {
            j->proto.fault.on = true;
            j->proto.fault.at = draw((uint32_t)d.text.size() + 1);
            j->proto.fault.kind = (int)draw(3);
            j->proto.fault.transient = draw(2) != 0 && j->q.kind != S_FILE;
        }
        return j;
    }
    std::string title() const override { return std::string("parse ") + KT<D>::name() + " " + show_req(q, proto) + " handler " + std::to_string(handler) + ": " + show_units(proto.text, 120); }
    std::string run() override
    {
        UserScope u;
        Out o;
        Src<D> s = proto;
        ParseReq<J, D> r = q;
        Handlers h;
        r.eh = h.get(handler);
        {
            V out;
            ParseRes p = Parser<J, D>::parse(s, r, out);
            o.add("%s '%s' stream %d read %zu", kind_name(p.kind), p.what.c_str(), p.stream_bad, s.pos);
            o.add(val<V>::lift(out));
            h.report(o, handler);
            LibScope l;
            out = nullptr;
        }
        return o.s;
    }
};

template <class J, class D> struct DumpJob : Job
{
    typedef typename J::value V;
    MV         m;
    const V*   shared;
    DumpReq<D> q;
    Snk<D>     proto;
    int        handler;

    static DumpJob* gen(const V* shared)
    {
        UserScope u;
        DumpJob* j = new DumpJob;
        model::Gen g;
        g.budget = 14;
        j->shared = shared;
        if (!shared) j->m = model::gen_value(g);
        j->q = gen_dump_options<D>(false);
        j->q.kind = (int)draw(K_KINDS);
        if (sizeof(D) > 1 && j->q.kind == K_FILE) j->q.kind = K_OSTREAM;
        if (chance(1, 8)) j->q.enc = E_THROW;
        else if (chance(1, 4)) j->q.enc = gen_enc<D>();
        j->handler = chance(1, 2) ? (int)draw(5) : 0;
        j->q.api = !j->q.use_options && !j->handler && j->q.enc == E_DEFAULT && j->q.kind >= K_OSTREAM ? (int)draw(2) : 0;
        j->q.bulk = draw(2) != 0;
        if (chance(1, 4))
        {
            j->q.set_stream = true;
            j->q.width = (int)draw(20);
            j->q.fill = D("._0"[draw(3)]);
            j->q.os_precision = (int)draw(18);
            j->q.os_float = draw(3) == 0 ? std::ios_base::fixed : draw(2) ? std::ios_base::scientific : std::ios_base::fmtflags();
        }
        if (draw(2)) j->proto.buf = 1 + draw(8);
        if (chance(1, 4) && j->q.kind >= K_OSTREAM)
        {
            j->proto.fault.on = true;
            j->proto.fault.at = draw(60);
            j->proto.fault.kind = (int)draw(4);
            j->proto.fault.transient = draw(2) != 0;
        }
        return j;
    }
    std::string title() const override
    {
        return std::string("dump ") + (shared ? "shared value" : model::show(m, 100)) + " as " + KT<D>::name() + " to " + snk_name(q.kind) + " enc " + std::to_string((int)q.enc) + " handler " + std::to_string(handler) + " fault " + proto.fault.str();
    }
    std::string run() override
    {
        UserScope u;
        Out o;
        Snk<D> s = proto;
        DumpReq<D> r = q;
        Handlers h;
        r.eh = h.get(handler);
        V own;
        if (!shared) { LibScope l; own = val<V>::build(m); }
        DumpRes d = Dumper<J, D>::dump(s, shared ? *shared : own, r);
        o.add("%s '%s' stream %d", kind_name(d.kind), d.what.c_str(), d.stream_bad);
        o.units("text", s.got);
        h.report(o, handler);
        if (!shared && !model::same(m, val<V>::lift(own), 0)) o.add("THE SOURCE CHANGED");
        LibScope l;
        own = nullptr;
        return o.s;
    }
};

// a C++ object to a value and back, directly and through text
template <class J> struct TypedJob : Job
{
    typedef typename J::value V;
    typedef typename V::char_type C;
    std::unique_ptr<TypedVal<J>> t;
    const V* shared;
    int      form, back;
    HookCtl  ctl;

    static TypedJob* gen(const V* shared, int type = -1)
    {
        UserScope u;
        TypedJob* j = new TypedJob;
        j->t = gen_typed<J>(type);
        j->shared = shared;
        j->form = (int)draw(7);
        j->back = (int)draw(4);
        if (chance(1, 3)) { j->ctl.on = true; j->ctl.at = draw(8); j->ctl.kind = (int)draw(3); }
        return j;
    }
    std::string title() const override { return std::string("convert ") + t->name() + (shared ? " from the shared value" : "") + " form " + std::to_string(form) + "/" + std::to_string(back); }
    std::string run() override
    {
        UserScope u;
        Out o;
        std::string what;
        HookCtl saved = hookctl();
        hookctl() = ctl;
        std::unique_ptr<TypedVal<J>> x(t->fresh());
        if (shared)
        {
            bool r = false;
            Kind k = guarded([&] { r = x->from(*shared, back % 3); }, &what);
            o.add("from %s '%s' %d", kind_name(k), what.c_str(), r);
        }
        else
        {
            V v;
            Kind k;
            if (form == 6 || back == 3)
            {
                std::basic_stringstream<C> ss;
                k = guarded([&] { t->out(ss); }, &what);
                o.add("out %s '%s'", kind_name(k), what.c_str());
                o.units("text", ss.str());
                k = guarded([&] { x->in(ss); }, &what);
                o.add("in %s '%s'", kind_name(k), what.c_str());
            }
            else
            {
                k = guarded([&] { t->to(v, form); }, &what);
                o.add("to %s '%s'", kind_name(k), what.c_str());
                o.add(val<V>::lift(v));
                const V* src = &v;
                if (k == OK && form == 3) src = &v.data().object->begin()->second;
                if (k == OK && form >= 4) src = &v.data().vector->back();
                bool r = false;
                k = guarded([&] { r = x->from(*src, back); }, &what);
                o.add("from %s '%s' %d", kind_name(k), what.c_str(), r);
            }
            LibScope l;
            v = nullptr;
        }
        hookctl() = saved;
        o.add(x->model());
        { LibScope l; x.reset(); }
        return o.s;
    }
};

// only reads one value, by all const operations
template <class V> struct ReadJob : Job
{
    typedef typename V::char_type   C;
    typedef typename V::string_type S;
    const V* v;
    std::vector<uint32_t> script;
    MV m;

    static ReadJob* gen(const V* v)
    {
        UserScope u;
        ReadJob* j = new ReadJob;
        j->v = v;
        j->m = val<V>::lift(*v);
        for (uint32_t n = 2 + draw(6); n; --n) j->script.push_back(draw(1000));
        return j;
    }
    std::string title() const override { return "read the shared value"; }
    const V& at(uint32_t k) const
    {
        const V* p = v;
        for (int d = 0; d < 3 && (k & 1); ++d, k >>= 1)
        {
            if (p->is_array() && p->size()) p = &(*p)[k % p->size()];
            else if (p->is_object() && p->size())
            {
                auto it = p->begin();
                for (uint32_t i = k % (uint32_t)p->size(); i; --i) ++it;
                p = &it.value();
            }
        }
        return *p;
    }
    std::string run() override
    {
        UserScope u;
        Out o;
        for (uint32_t x : script)
        {
            std::string what;
            const uint32_t op = x % 10;
            MV r;
            size_t n = 0;
            Kind k = guarded(
                [&] {
                    const V& e = at(x / 10);
                    switch (op)
                    {
                    case 0: { V c(e); UserScope w; r = val<V>::lift(c); break; }
                    case 1: for (auto i = e.begin(); i != e.end(); ++i) { n = n * 31 + i.value().size() + (i.value() == *v ? 1 : 0); if (e.is_object()) n += i.key().size(); } break;
                    case 2: for (auto i = e.rbegin(); i != e.rend(); ++i) n = n * 31 + (size_t)i.value().type(); break;
                    case 3: n = (e == *v) + 2 * (e < *v) + 4 * (*v < e); break;
                    case 4: n = e.size() * 2 + e.empty() + 100 * (size_t)e.type(); break;
                    case 5: { S s = e.template get<S>(); n = s.size(); break; }
                    case 6: { const auto& a = e.template get<const typename V::array_type&>(); n = a.size(); break; }
                    case 7: { S key; if (e.is_object() && e.size()) key = e.begin().key(); n = e.count(key) + (e.find(key) == e.end() ? 10 : 0); n += e.at(key).size(); break; }
                    case 8: { auto a = e.template get<typename V::object_type>(); n = a.size(); break; }
                    default: { V a; a.push_back(e); a.push_back(a); UserScope w; r = val<V>::lift(a); break; }
                    }
                },
                &what);
            o.add("%u %s '%s' %zu", op, kind_name(k), what.c_str(), n);
            if (op == 0 || op == 9) o.add(r);
        }
        if (!model::same(m, val<V>::lift(*v), 0)) o.add("THE SHARED VALUE CHANGED");
        return o.s;
    }
};

// a history on values of its own
template <class V> struct ValueJob : Job
{
    typedef typename V::char_type   C;
    typedef typename V::string_type S;
    MV a, b;
    std::vector<uint32_t> script;

    static ValueJob* gen()
    {
        UserScope u;
        ValueJob* j = new ValueJob;
        model::Gen g;
        g.budget = 8;
        j->a = model::gen_container(g);
        j->b = model::gen_value(g);
        for (uint32_t n = 3 + draw(8); n; --n) j->script.push_back(draw(1000));
        return j;
    }
    std::string title() const override { return "modify own values"; }
    static S key(uint32_t i)
    {
        UserScope u;
        static const char32_t* const k[] = { U"", U"a", U"b", U"a key that is longer than any small buffer" };
        return KT<C>::enc(k[i % 4]);
    }
    std::string run() override
    {
        UserScope u;
        Out o;
        V x, y;
        { LibScope l; x = val<V>::build(a); y = val<V>::build(b); }
        for (uint32_t c : script)
        {
            std::string what;
            const uint32_t op = c % 12, arg = c / 12;
            const S k = key(arg);
            Kind r = guarded(
                [&] {
                    switch (op)
                    {
                    case 0: x.push_back(y); break;
                    case 1: x[k] = y; break;
                    case 2: x[(size_t)(arg % 5)] = y; break;
                    case 3: x.erase(k); break;
                    case 4: if (!x.is_array() || x.size()) x.erase((size_t)0); break;
                    case 5: y = x; break;
                    case 6: std::swap(x, y); break;
                    case 7: if (x.size()) x.erase(x.begin()); break;
                    case 8: for (auto i = x.begin(); i != x.end(); ++i) if (i.value() == y) { i.value() = 5; break; } break;
                    case 9: y = configor::make_object<V>({ { k, x }, { key(arg + 1), nullptr } }); break;
                    case 10: y.clear(); break;
                    default: x = V(k); break;
                    }
                },
                &what);
            o.add("%u %s '%s'", op, kind_name(r), what.c_str());
            if (model::weight(val<V>::lift(x)) > 200) { LibScope l; x = nullptr; }
            if (model::weight(val<V>::lift(y)) > 200) { LibScope l; y = nullptr; }
        }
        o.add(val<V>::lift(x));
        o.add(val<V>::lift(y));
        LibScope l;
        x = nullptr;
        y = nullptr;
        return o.s;
    }
};

// streams over adapters, used directly
template <class C> struct StreamJob : Job
{
    Src<C> proto;
    std::vector<uint32_t> script;
    static StreamJob* gen()
    {
        UserScope u;
        StreamJob* j = new StreamJob;
        model::Gen g;
        for (int i = 0; i < 4; ++i) { j->proto.text += KT<C>::enc(model::gen_string(g)); j->proto.text += C("\n 7,"[draw(4)]); }
        for (uint32_t n = 4 + draw(10); n; --n) j->script.push_back(draw(1000));
        j->proto.bulk = draw(2) != 0;
        if (chance(1, 3)) { j->proto.fault.on = true; j->proto.fault.at = draw((uint32_t)j->proto.text.size() + 1); }
        return j;
    }
    std::string title() const override { return "use adapter streams"; }
    std::string run() override
    {
        typedef std::char_traits<C> T;
        UserScope u;
        Out o;
        Src<C> s = proto;
        Snk<C> k;
        std::string what;
        std::basic_string<C> got;
        Kind r = guarded(
            [&] {
                AdapterSource<C> a(s);
                AdapterSink<C> b(k, s.bulk);
                configor::basic_iadapterstream<C> is(a);
                configor::basic_oadapterstream<C> os(b);
                for (uint32_t c : script)
                {
                    UserScope w;
                    C buf[8];
                    LibScope l;
                    switch (c % 6)
                    {
                    case 0: { C x = 0; if (is.get(x)) { os.put(x); UserScope q; got += x; } break; }
                    case 1: { auto x = is.peek(); (void)x; break; }
                    case 2: { is.read(buf, 1 + c / 6 % 7); os.write(buf, is.gcount()); UserScope q; got.append(buf, (size_t)is.gcount()); break; }
                    case 3: { std::basic_string<C> line; std::getline(is, line); os << line; UserScope q; got += line; break; }
                    case 4: is.ignore(1 + c / 6 % 3); break;
                    default: { int x = 0; if (is >> x) os << x; else is.clear(is.rdstate() & ~std::ios_base::failbit); break; }
                    }
                }
                UserScope w;
                o.add("state %d %d", (int)is.rdstate(), (int)os.rdstate());
                (void)T::eof();
            },
            &what);
        o.add("%s '%s' read %zu", kind_name(r), what.c_str(), s.pos);
        o.units("got", got);
        o.units("sent", k.got);
        return o.s;
    }
};

// a job of any kind, or of one kind only; shared values may be null
struct Focus
{
    int  kind;     // -1: any
    bool broken;   // documents do not parse
    int  type;     // of the objects converted; -1: any
    Focus() : kind(-1), broken(false), type(-1) {}
    static Focus gen()
    {
        Focus f;
        if (draw(2)) { f.kind = (int)draw(16); f.broken = draw(2) != 0; }
        return f;
    }
};
inline Job* gen_job(const configor::json::value* sn, const configor::wjson::value* sw, uint32_t shared_weight = 0, const Focus& f = Focus())
{
    using configor::json;
    using configor::wjson;
    if (sn && draw(8) < shared_weight)
    {
        switch (draw(8))
        {
        case 0: return DumpJob<json, char>::gen(sn);
        case 1: return DumpJob<json, wchar_t>::gen(sn);
        case 2: return TypedJob<json>::gen(sn, f.type);
        case 3: return DumpJob<wjson, wchar_t>::gen(sw);
        case 4: return TypedJob<wjson>::gen(sw, f.type);
        case 5: return ReadJob<wjson::value>::gen(sw);
        default: return ReadJob<json::value>::gen(sn);
        }
    }
    switch (f.kind >= 0 ? (uint32_t)f.kind : draw(16))
    {
    case 0: case 1: return ParseJob<json, char>::gen(f.broken);
    case 2: return ParseJob<json, wchar_t>::gen(f.broken);
    case 3: return ParseJob<wjson, wchar_t>::gen(f.broken);
    case 4: return ParseJob<wjson, char>::gen(f.broken);
    case 5: case 6: return DumpJob<json, char>::gen(nullptr);
    case 7: return DumpJob<json, wchar_t>::gen(nullptr);
    case 8: return DumpJob<wjson, wchar_t>::gen(nullptr);
    case 9: return DumpJob<wjson, char>::gen(nullptr);
    case 10: case 11: return TypedJob<json>::gen(nullptr, f.type);
    case 12: return TypedJob<wjson>::gen(nullptr, f.type);
    case 13: return draw(2) ? (Job*)ValueJob<json::value>::gen() : ValueJob<wjson::value>::gen();
    case 14: return StreamJob<char>::gen();
    default: return StreamJob<wchar_t>::gen();
    }
}

}  // namespace real
