// C07: no failure leaks, double-frees or corrupts memory.
#include "convs.hpp"
#include "docs.hpp"

const char* const sim::property = "C07";

using namespace real;

namespace
{
// a value type whose allocator accounts for every block and its size
template <class T> struct SimAllocator
{
    typedef T value_type;
    SimAllocator() {}
    template <class O> SimAllocator(const SimAllocator<O>&) {}
    T*   allocate(size_t n) { return static_cast<T*>(sim::lib_alloc(n * sizeof(T))); }
    void deallocate(T* p, size_t n) { sim::lib_free(p, n * sizeof(T)); }
    template <class O> struct rebind { typedef SimAllocator<O> other; };
};
template <class A, class B> bool operator==(const SimAllocator<A>&, const SimAllocator<B>&) { return true; }
template <class A, class B> bool operator!=(const SimAllocator<A>&, const SimAllocator<B>&) { return false; }

struct sim_tplargs : configor::value_tplargs
{
    template <class T> using allocator_type = SimAllocator<T>;
};
typedef configor::basic_value<sim_tplargs> SV;

template <class V> struct Walk
{
    typedef typename V::char_type C;
    // touches everything reachable; must never fail
    static uint64_t value(const V& v)
    {
        uint64_t h = (uint64_t)v.type() * 31 + v.size();
        if (v.is_string()) for (C c : *v.data().string) h = h * 131 + (uint64_t)c;
        else if (v.is_array()) for (auto& x : *v.data().vector) h = h * 131 + value(x);
        else if (v.is_object()) for (auto& x : *v.data().object) { for (C c : x.first) h = h * 131 + (uint64_t)c; h = h * 131 + value(x.second); }
        else if (v.is_integer()) h = h * 131 + (uint64_t)v.data().integer;
        else if (v.is_bool()) h = h * 131 + v.data().boolean;
        else if (v.is_floating()) h = h * 131 + (uint64_t)(v.data().floating != v.data().floating ? 0 : 1);
        else if (!v.is_null()) sim::violate("bad-type-tag", "a value has type tag %d", (int)v.type());
        return h;
    }
};

template <class V> struct Pool
{
    typedef typename V::char_type C;
    typedef typename V::string_type S;
    static const int N = 4;
    V v[N];
    V& pick() { return v[draw(N)]; }
    // some value inside one of the values
    V& inner()
    {
        V* p = &pick();
        for (int d = 0; d < 3 && draw(2); ++d)
        {
            if (p->is_array() && p->size()) p = &(*p)[(size_t)draw((uint32_t)p->size())];
            else if (p->is_object() && p->size())
            {
                auto it = p->data().object->begin();
                std::advance(it, (long)draw((uint32_t)p->size()));
                p = &it->second;
            }
            else break;
        }
        return *p;
    }
};

template <class S> S text(const char* p)
{
    S s;
    for (; *p; ++p) s += (typename S::value_type)*p;
    return s;
}
const char* const WORDS[] = { "a", "b", "key", "", "a longer key, beyond any small buffer", "name", "q" };
template <class S> S word()
{
    UserScope u;
    return text<S>(WORDS[draw(7)]);
}

// ---- operations on any value type -------------------------------------------

template <class V> struct Ops
{
    typedef typename V::char_type C;
    typedef typename V::string_type S;
    Pool<V>& p;
    explicit Ops(Pool<V>& pool) : p(pool) {}

    static V scalar(uint32_t k)
    {
        switch (k)
        {
        case 0: return V(true);
        case 1: return V(7);
        case 2: return V(2.5);
        case 3: return V(text<S>("a text that does not fit into a small buffer"));
        case 4: return V(configor::value_constant::array);
        case 5: return V(configor::value_constant::object);
        case 6: return V(configor::value_constant::string);
        default: return V();
        }
    }

    // a container with an allocator of its own cannot be given to the constructor
    template <class A> static V from_array(const A& a, std::true_type) { return V(a); }
    template <class A> static V from_array(const A& a, std::false_type)
    {
        V r(configor::value_constant::array);
        for (const V& x : a) r.push_back(x);
        return r;
    }

    void modify(uint32_t op)
    {
        switch (op)
        {
        case 0: p.inner() = scalar(draw(8)); break;
        case 1: p.pick() = p.inner(); break;                       // copy, possibly of its own part
        case 2: p.inner() = p.pick(); break;                       // into its own part
        case 3: p.pick() = std::move(p.inner()); break;
        case 4: { V t(std::move(p.pick())); p.inner().swap(t); break; }
        case 5: { V& a = p.pick(); V& b = p.pick(); a.swap(b); break; }
        case 6: p.inner().push_back(p.inner()); break;
        case 7: p.inner().push_back(scalar(draw(8))); break;
        case 26:
        {
            // elements of its own, at any fill level of its storage
            V& x = p.inner();
            if (!x.is_array()) x = configor::make_array<V>({ 1, word<S>(), scalar(draw(8)) });
            for (uint32_t k = 1 + draw(6); k; --k)
            {
                const size_t i = draw((uint32_t)x.size());
                switch (draw(4))
                {
                case 0: x.push_back(x[i]); break;
                case 1: x.emplace_back(x[i]); break;
                case 2: { V& e = x[i]; const V& f = x[(size_t)draw((uint32_t)x.size())]; if (&e != &f) e = f; break; }
                default: x[x.size()] = V(x[i]); break;
                }
            }
            break;
        }
        case 8: p.inner().emplace_back(word<S>()); break;
        case 9: p.inner().emplace_back(draw(100)); break;
        case 10: p.inner()[(size_t)draw(6)] = scalar(draw(8)); break;
        case 11: p.inner()[word<S>()] = scalar(draw(8)); break;
        case 12: { S k = word<S>(); p.inner()[k] = p.inner(); break; }
        case 13: p.inner()[(size_t)draw(3)][word<S>()] = 1; break;
        case 14: { S k = word<S>(); p.inner().erase(k); break; }
        case 15: { V& x = p.inner(); if (x.is_array() ? x.size() > 0 : true) x.erase((size_t)(x.is_array() ? draw((uint32_t)x.size()) : 0)); break; }
        case 16:
        {
            V& x = p.inner();
            auto it = x.begin();
            if (x.is_array() || x.is_object())
            {
                if (!x.size()) return;
                for (uint32_t k = draw((uint32_t)x.size()); k; --k) ++it;
            }
            auto next = x.erase(it);
            (void)next;
            break;
        }
        case 17:
        {
            V& x = p.inner();
            auto a = x.begin(), b = x.begin();
            if (x.is_array() || x.is_object())
            {
                uint32_t n = (uint32_t)x.size(), i = draw(n + 1), j = i + draw(n - i + 1);
                for (uint32_t k = 0; k < i; ++k) ++a;
                for (uint32_t k = 0; k < j; ++k) ++b;
            }
            x.erase(a, b);
            break;
        }
        case 18: p.inner().clear(); break;
        case 19: { V a(p.inner()); V b(a); b.push_back(a); p.pick() = b; break; }
        case 20: { S s = word<S>(); p.inner() = s; break; }
        case 21: p.inner() = word<S>(); break;
        case 22: p.inner() = nullptr; break;
        case 23: p.pick() = configor::make_array<V>({ 1, word<S>(), p.v[draw(4)], scalar(draw(8)) }); break;
        case 24: p.pick() = configor::make_object<V>({ { word<S>(), 1 }, { word<S>(), p.v[draw(4)] }, { text<S>("k"), scalar(draw(8)) } }); break;
        case 25:
        {
            V& x = p.inner();
            for (auto it = x.begin(); it != x.end(); ++it)
            {
                if (x.is_null()) break;
                it.value() = scalar(draw(4));
                if (!x.is_array() && !x.is_object()) break;  // the value itself has changed
            }
            break;
        }
        default:
        {
            typedef typename V::array_type A;
            A a(draw(4), p.pick());
            p.inner() = from_array(a, std::is_constructible<V, const A&>());
            break;
        }
        }
    }

    void inspect(uint32_t op)
    {
        const V& x = p.inner();
        switch (op)
        {
        case 0: (void)(x == p.pick()); (void)(x < p.pick()); (void)(x >= p.pick()); break;
        case 1: (void)x.at(word<S>()); break;
        case 2: (void)x.at((size_t)draw(4)); break;
        case 3: (void)x.count(word<S>()); (void)(x.find(word<S>()) == x.end()); break;
        case 4: for (auto it = x.rbegin(); it != x.rend(); ++it) Walk<V>::value(it.value()); break;
        case 5: { auto it = x.end(); (void)*it; break; }
        case 6: { auto it = x.begin(); (void)it.key(); break; }
        case 7: (void)x.template get<S>(); break;
        case 8: { S s; (void)x.get(s); break; }
        case 9: (void)x.template get<int>(); break;
        case 10: (void)x.template get<const S&>(); break;
        case 11: { V c = x.template get<V>(); (void)(c != x); break; }
        case 12: { auto a = x.template get<typename V::array_type>(); Walk<V>::value(from_array(a, std::is_constructible<V, const typename V::array_type&>())); break; }
        case 13: { auto a = x.template get<typename V::object_type>(); (void)a.size(); break; }
        case 14: { auto it = x.begin(); it += 1; break; }
        case 15: (void)(x.begin() < p.pick().cbegin()); break;
        case 16: { S* s = p.inner().template get<S*>(); if (s) s->push_back(C('!')); break; }
        case 17: { S& s = p.inner().template get<S&>(); s += word<S>(); break; }
        default: (void)(x == 5); (void)(x != 2.5); (void)(x < true); break;
        }
    }
};

// an operation under a drawn failure
struct Failure
{
    enum { NONE, ALLOC, HOOK } kind;
    uint64_t at, burst;
    int      what;
    static Failure gen()
    {
        Failure f;
        f.kind = NONE;
        f.at = 0; f.burst = 1; f.what = 0;
        switch (draw(4))
        {
        case 0: case 1: f.kind = ALLOC; f.at = draw(1u << draw(6)); f.burst = chance(1, 4) ? 1000000 : 1; break;
        case 2: f.kind = HOOK; f.at = draw(1u << draw(4)); f.what = (int)draw(3); break;
        default: break;
        }
        return f;
    }
};
template <class F> Kind run_failing(const char* name, uint32_t op, F f)
{
    Failure x = Failure::gen();
    hookctl() = HookCtl();
    if (x.kind == Failure::HOOK) { hookctl().on = true; hookctl().at = x.at; hookctl().kind = x.what; }
    if (x.kind == Failure::ALLOC) sim::alloc_arm(x.at, x.burst);
    std::string what;
    Kind k = guarded(f, &what);
    bool fired = hookctl().fired;
    if (x.kind == Failure::ALLOC) { fired = sim::alloc_fired() > 0; sim::alloc_disarm(); }
    hookctl() = HookCtl();
    ev("%s %u -> %s '%s'%s", name, op, kind_name(k), what.c_str(), fired ? " fault" : "");
    if (fired && k != OK) { sim::nontrivial(); sim::probe("operation-failed-by-fault"); }
    if (!fired && k == NOMEM) sim::violate("unexplained-bad-alloc", "%s %u", name, op);
    return k;
}

// everything can still be looked at, copied, assigned to, destroyed
template <class V> void all_valid(Pool<V>& p, bool use)
{
    uint64_t h = 0;
    for (V& x : p.v) h = h * 1000003 + Walk<V>::value(x);
    sim::note(h);
    if (!use) return;
    LibScope l;
    for (V& x : p.v)
    {
        V c(x);
        if (Walk<V>::value(c) != Walk<V>::value(x)) sim::violate("copy-differs", "a copy of a value differs from it after a failure");
        c = 1;
        c = x;
    }
}

template <class V> void keep_small(Pool<V>& p)
{
    LibScope l;
    for (V& x : p.v)
    {
        size_t n = 0;
        struct { void operator()(const V& v, size_t& k, int d)
        {
            k += 1 + (v.is_string() ? v.data().string->size() / 8 : 0);
            if (k > 400 || d > 12) { k = 1000; return; }
            if (v.is_array()) for (auto& e : *v.data().vector) { if (k < 1000) (*this)(e, k, d + 1); }
            if (v.is_object()) for (auto& e : *v.data().object) { if (k < 1000) (*this)(e.second, k, d + 1); }
        } } count;
        count(x, n, 0);
        if (n >= 300) x = nullptr;
    }
}

template <class V> struct Hist
{
    typedef Pool<V> P;
    // plain operations, for every value type
    static bool step(P& p, uint32_t r)
    {
        Ops<V> o(p);
        if (r < 7) { uint32_t op = draw(28); Kind k = run_failing("modify", op, [&] { o.modify(op); }); return k != OK; }
        uint32_t op = draw(19);
        return run_failing("inspect", op, [&] { o.inspect(op); }) != OK;
    }
};

// ---- operations of json and wjson --------------------------------------------

template <class J> struct Io
{
    typedef typename J::value V;
    typedef typename V::char_type C;
    Pool<V>& p;

    template <class D> void parse()
    {
        model::Gen g;
        g.budget = 10;
        Doc<D> d = gen_document<D>(g, draw(2) != 0);
        if (chance(1, 8) && d.enc == E_DEFAULT) d.enc = E_THROW;
        if (chance(1, 3)) damage(d, 1);
        Src<D> s;
        s.text = d.text;
        ParseReq<J, D> q;
        q.enc = d.enc;
        configor::error_handler_with<configor::error_policy::record> rec;
        configor::error_handler_with<configor::error_policy::ignore> ign;
        if (chance(1, 4)) q.eh = draw(2) ? (configor::error_handler*)&rec : (configor::error_handler*)&ign;
        gen_source<J, D>(s, q);
        if (chance(1, 3) && q.kind >= S_UNBUF)
        {
            s.fault.on = true;
            s.fault.at = draw((uint32_t)d.text.size() + 1);
            s.fault.kind = (int)draw(3);
            s.fault.transient = draw(2) != 0 && q.kind != S_FILE;
        }
        V& out = p.inner();
        ev("parse %s %s", show_req(q, s).c_str(), show_units(d.text, 120).c_str());
        run_failing("parse", (uint32_t)q.kind, [&] {
            UserScope u;
            ParseRes r = Parser<J, D>::parse(s, q, out);
            if (r.kind != OK) { if (s.fault.fired) sim::nontrivial(); if (r.kind == NOMEM) throw std::bad_alloc(); throw SimError(); }
        });
    }
    template <class D> void dump()
    {
        DumpReq<D> q = gen_dump_options<D>(false);
        q.kind = (int)draw(K_KINDS);
        if (sizeof(D) > 1 && q.kind == K_FILE) q.kind = K_OSTREAM;
        if (chance(1, 4)) q.enc = E_THROW;
        configor::error_handler_with<configor::error_policy::ignore> ign;
        if (chance(1, 4)) q.eh = &ign;
        Snk<D> s;
        if (draw(2)) s.buf = 1 + draw(8);
        if (chance(1, 2) && q.kind >= K_OSTREAM)
        {
            s.fault.on = true;
            s.fault.at = draw(40);
            s.fault.kind = (int)draw(4);
            s.fault.transient = draw(2) != 0;
        }
        const V& v = p.inner();
        run_failing("dump", (uint32_t)q.kind, [&] {
            UserScope u;
            DumpRes r = Dumper<J, D>::dump(s, v, q);
            if (s.fault.fired) sim::nontrivial();
            if (r.kind == NOMEM) throw std::bad_alloc();
            if (r.kind != OK) throw SimError();
        });
    }
    void convert()
    {
        std::unique_ptr<TypedVal<J>> t = gen_typed<J>();
        // what the object holds is given to the library: losing it is a leak, too
        { LibScope l; t->gen(); }
        const int form = (int)draw(9);
        V& x = p.inner();
        V w;
        const V* from = &x;
        if (form >= 6 && draw(4))
        {
            // a value that suits the object, or would but for one part
            UserScope u;
            HookOff h;
            std::unique_ptr<TypedVal<J>> other(t->fresh());
            other->gen();
            MV m = other->model();
            if (draw(2))
            {
                MV* q = &m;
                while (draw(3) && (q->t == MV::Arr ? !q->a.empty() : q->t == MV::Obj && !q->o.empty()))
                {
                    if (q->t == MV::Arr) q = &q->a[draw((uint32_t)q->a.size())];
                    else { auto it = q->o.begin(); std::advance(it, (long)draw((uint32_t)q->o.size())); q = &it->second; }
                }
                model::Gen g;
                g.budget = 3;
                *q = model::gen_value(g);
            }
            LibScope l;
            w = val<V>::build(m);
            from = &w;
        }
        run_failing("convert", (uint32_t)form, [&] {
            if (form < 6) t->to(x, form);
            else t->from(*from, form - 6);
        });
        UserScope u;
        MV m = t->model();  // the object is still usable, too
        sim::note(model::weight(m));
        LibScope l;
        t.reset();
    }
    void typed_stream()
    {
        std::unique_ptr<TypedVal<J>> t = gen_typed<J>();
        std::unique_ptr<TypedVal<J>> x(t->fresh());
        run_failing("typed-stream", 0, [&] {
            std::basic_stringstream<C> ss;
            t->out(ss);
            x->in(ss);
        });
        UserScope u;
        sim::note(model::weight(x->model()));
        LibScope l;
        t.reset();
        x.reset();
    }
    // an error kept by the user outlives the operation, the source and the value
    void keep_error()
    {
        struct Keep : configor::error_handler { std::exception_ptr e; void handle(std::exception_ptr p) override { e = p; } };
        Keep keep;
        model::Gen g;
        g.budget = 8;
        Doc<C> d = gen_document<C>(g, true);
        d.enc = E_DEFAULT;
        d.text = units(d.cps, d.enc, C());
        d.text.resize(d.text.size() / 2);
        run_failing("keep-error", 0, [&] {
            V v;
            J::template parse<C>(v, d.text, { J::parser::with_error_handler(&keep) });
        });
        if (keep.e)
        {
            std::string what;
            Kind k = classify(keep.e, &what);
            ev("kept %s '%s'", kind_name(k), what.c_str());
            keep.e = nullptr;
        }
    }
    void step()
    {
        switch (draw(11))
        {
        case 0: case 1: parse<C>(); break;
        case 2: if (sizeof(C) == 1) parse<wchar_t>(); else parse<char>(); break;
        case 3: case 4: dump<C>(); break;
        case 5: if (sizeof(C) == 1) dump<wchar_t>(); else dump<char>(); break;
        case 6: case 7: case 8: convert(); break;
        case 9: typed_stream(); break;
        default: keep_error(); break;
        }
    }
};

template <class V> struct Body
{
    template <class J> static void with_io(uint32_t n)
    {
        Pool<V>& p = *make();
        for (; n; --n)
        {
            bool failed = true;
            if (draw(2)) { Io<J> io{ p }; io.step(); }
            else failed = Hist<V>::step(p, draw(10));
            all_valid(p, failed && draw(2));
            keep_small(p);
        }
        done(p);
    }
    static void plain(uint32_t n)
    {
        Pool<V>& p = *make();
        for (; n; --n)
        {
            bool failed = Hist<V>::step(p, draw(10));
            all_valid(p, failed && draw(2));
            keep_small(p);
        }
        done(p);
    }
    static Pool<V>* make() { UserScope u; return new Pool<V>; }
    static void done(Pool<V>& p)
    {
        UserScope u;
        delete &p;
    }
};

void body(uint32_t which, uint32_t n)
{
    switch (which)
    {
    case 0: case 1: case 2: Body<configor::json::value>::with_io<configor::json>(n); break;
    case 3: case 4: Body<configor::wjson::value>::with_io<configor::wjson>(n); break;
    default: Body<SV>::plain(n); break;
    }
}
}  // namespace

void sim::run()
{
    const uint32_t which = draw(7), n = 4 + draw(sim::thorough() ? 40 : 16);
    const uint32_t mark = sim::tape_mark();
    int64_t live = sim::lib_live(), bytes = sim::lib_live_bytes();
    body(which, n);
    if (sim::lib_live() == live && sim::lib_live_bytes() == bytes) return;
    // something is still allocated: unless it was a one-time initialisation, a
    // second execution of the same choices leaves the same behind again
    for (int again = 0; again < 2; ++again)
    {
        sim::tape_rewind(mark);
        live = sim::lib_live();
        bytes = sim::lib_live_bytes();
        body(which, n);
    }
    if (sim::lib_live() != live)
        sim::violate("leak", "%lld allocations (%lld bytes) made by the library remain after all values are destroyed", (long long)(sim::lib_live() - live), (long long)(sim::lib_live_bytes() - bytes));
    sim::probe("one-time-allocation");
}
