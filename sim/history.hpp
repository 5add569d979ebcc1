// Histories of operations on several values, judged after every step against a
// plain container model.  Used with the shipped value types and with value types
// whose template arguments are replaced.
#pragma once
#include "real.hpp"

#include <limits>

namespace history
{
using namespace real;

// a value type whose allocator accounts for every block and its size
template <class T> struct SimAllocator
{
    typedef T value_type;
    SimAllocator() {}
    template <class O> SimAllocator(const SimAllocator<O>&) {}
    T*   allocate(size_t n) { return static_cast<T*>(sim::lib_alloc(n * sizeof(T))); }
    void deallocate(T* p, size_t n) { sim::lib_free(p, n * sizeof(T)); }
    template <class O> struct rebind { typedef SimAllocator<O> other; };
};
template <class A, class B> bool operator==(const SimAllocator<A>&, const SimAllocator<B>&) { return true; }
template <class A, class B> bool operator!=(const SimAllocator<A>&, const SimAllocator<B>&) { return false; }

// does the object type iterate in the order of the model or in the reverse order?
template <class V> struct Traits { static const bool reversed = false; };

// ---- the model's order ------------------------------------------------------------

template <class V> bool eq(const MV& a, const MV& b)
{
    typedef typename V::float_type F;
    if (a.t == b.t)
    {
        switch (a.t)
        {
        case MV::Null: return true;
        case MV::Bool: return a.b == b.b;
        case MV::Int: return a.i == b.i;
        case MV::Float: return a.d == b.d;
        case MV::Str: return a.s == b.s;
        case MV::Arr:
            if (a.a.size() != b.a.size()) return false;
            for (size_t i = 0; i < a.a.size(); ++i) if (!eq<V>(a.a[i], b.a[i])) return false;
            return true;
        case MV::Obj:
        {
            if (a.o.size() != b.o.size()) return false;
            auto i = a.o.begin(), k = b.o.begin();
            for (; i != a.o.end(); ++i, ++k) if (i->first != k->first || !eq<V>(i->second, k->second)) return false;
            return true;
        }
        }
    }
    if (a.t == MV::Int && b.t == MV::Float) return (F)a.i == (F)b.d;
    if (a.t == MV::Float && b.t == MV::Int) return (F)a.d == (F)b.i;
    return false;
}
template <class V> bool lt(const MV& a, const MV& b);
template <class V, class I> bool lt_range(I i, I ie, I k, I ke)
{
    for (; i != ie && k != ke; ++i, ++k)
    {
        // pairs are compared with <, whatever the order of the map
        if (i->first != k->first) return i->first < k->first;
        if (lt<V>(i->second, k->second)) return true;
        if (lt<V>(k->second, i->second)) return false;
    }
    return i == ie && k != ke;
}
template <class V> bool lt(const MV& a, const MV& b)
{
    typedef typename V::float_type F;
    if (a.t == b.t)
    {
        switch (a.t)
        {
        case MV::Null: return false;
        case MV::Bool: return a.b < b.b;
        case MV::Int: return a.i < b.i;
        case MV::Float: return a.d < b.d;
        case MV::Str: return a.s < b.s;
        case MV::Arr:
            for (size_t i = 0; i < a.a.size() && i < b.a.size(); ++i)
            {
                if (lt<V>(a.a[i], b.a[i])) return true;
                if (lt<V>(b.a[i], a.a[i])) return false;
            }
            return a.a.size() < b.a.size();
        case MV::Obj:
        {
            return Traits<V>::reversed ? lt_range<V>(a.o.rbegin(), a.o.rend(), b.o.rbegin(), b.o.rend())
                                       : lt_range<V>(a.o.begin(), a.o.end(), b.o.begin(), b.o.end());
        }
        }
    }
    if (a.t == MV::Int && b.t == MV::Float) return (F)a.i < (F)b.d;
    if (a.t == MV::Float && b.t == MV::Int) return (F)a.d < (F)b.i;
    return false;
}
inline size_t msize(const MV& m)
{
    switch (m.t)
    {
    case MV::Null: return 0;
    case MV::Arr: return m.a.size();
    case MV::Obj: return m.o.size();
    default: return 1;
    }
}

struct Path
{
    int              root;
    std::vector<int> step;
    bool above(const Path& p) const  // this is p or contains it
    {
        if (root != p.root || step.size() > p.step.size()) return false;
        for (size_t i = 0; i < step.size(); ++i) if (step[i] != p.step[i]) return false;
        return true;
    }
    bool same(const Path& p) const { return root == p.root && step == p.step; }
    std::string str() const
    {
        std::string s = "v" + std::to_string(root);
        for (int x : step) s += "/" + std::to_string(x);
        return s;
    }
};

const int N = 3;

template <class V> struct Test
{
    typedef typename V::char_type   C;
    typedef typename V::string_type S;
    typedef typename V::iterator    It;
    typedef typename V::const_iterator CIt;
    typedef configor::value_constant vc;

    V*                v;      // the pool
    std::vector<MV>   m;      // its model
    const char*       opname;
    std::string       bad;    // a wrong result

    static S str(const U& s)
    {
        UserScope u;
        auto n = KT<C>::enc(s);
        return S(n.begin(), n.end());
    }
    static MV lift(const V& x) { UserScope u; return val<V>::lift(x); }

    // the i-th element of an object in the order of the object type
    static decltype(MV().o.begin()) nth(MV& x, size_t i)
    {
        auto it = x.o.begin();
        std::advance(it, (long)(Traits<V>::reversed ? x.o.size() - 1 - i : i));
        return it;
    }

    // what is left of a value in the scalar types of V
    static MV norm(MV x)
    {
        typedef typename V::integer_type I;
        typedef typename V::float_type F;
        switch (x.t)
        {
        case MV::Int: x.i = (int64_t)(I)x.i; break;
        case MV::Float:
            if (std::isfinite(x.d) && std::fabs(x.d) > (long double)std::numeric_limits<F>::max()) x.d = 1.5;
            x.d = (double)(F)x.d;
            break;
        case MV::Arr: for (auto& e : x.a) e = norm(e); break;
        case MV::Obj: for (auto& e : x.o) e.second = norm(e.second); break;
        default: break;
        }
        return x;
    }

    MV& at(const Path& p)
    {
        MV* x = &m[(size_t)p.root];
        for (int i : p.step)
        {
            if (x->t == MV::Arr) x = &x->a[(size_t)i];
            else x = &nth(*x, (size_t)i)->second;
        }
        return *x;
    }
    V& rat(const Path& p)
    {
        V* x = &v[p.root];
        for (int i : p.step)
        {
            if (x->is_array()) x = &(*x->data().vector)[(size_t)i];
            else { auto it = x->data().object->begin(); std::advance(it, i); x = &it->second; }
        }
        return *x;
    }
    Path pick()
    {
        Path p;
        p.root = (int)draw(N);
        for (int d = 0; d < 4; ++d)
        {
            const MV& x = at(p);
            if (x.t != MV::Arr && x.t != MV::Obj) break;
            if (msize(x) == 0 || !draw(2)) break;
            p.step.push_back((int)draw((uint32_t)msize(x)));
        }
        return p;
    }
    // prefers a container
    Path pick_container()
    {
        Path p = pick();
        for (int i = 0; i < 3 && at(p).t != MV::Arr && at(p).t != MV::Obj; ++i) p = pick();
        return p;
    }
    U key(const MV& x)
    {
        if (x.t == MV::Obj && x.o.size() && draw(2))
        {
            auto it = x.o.begin();
            std::advance(it, draw((uint32_t)x.o.size()));
            return it->first;
        }
        static const char32_t* const k[] = { U"", U"a", U"b", U"key", U"a key that is longer than any small buffer", U"\u00e4\u20ac", U"\U0001F600" };
        return k[draw(7)];
    }

    static U cstr(const U& k) { return U(k.c_str()); }  // ends at a NUL

    // ---- one operation ---------------------------------------------------------------

    // f is run with a possible allocation failure.  `want` is its outcome without
    // one and `after` the pool then; `target` may become an empty container of
    // type `promote` if it was null.
    template <class F> bool perform(Kind want, const std::vector<MV>& after, const Path* target, MV::T promote, F f)
    {
        uint64_t nth = 0, burst = 0;
        const bool arm = chance(1, 2);
        if (arm) { nth = draw(1u << draw(5)); burst = chance(1, 4) ? 1000000 : 1; sim::alloc_arm(nth, burst); }
        bad.clear();
        std::string what;
        Kind k = guarded(f, &what);
        bool fired = false;
        if (arm) { fired = sim::alloc_fired() > 0; sim::alloc_disarm(); }
        ev("%s -> %s%s", opname, kind_name(k), fired ? " (allocation failed)" : "");
        if (k == want)
        {
            if (!bad.empty()) sim::violate("wrong-result", "%s: %s", opname, bad.c_str());
            if (k == OK) { check(after, "after"); m = after; return true; }
            sim::probe("operation-refused");
            unchanged(target, promote, false, kind_name(k));
            return false;
        }
        if (k == NOMEM && fired)
        {
            sim::nontrivial();
            unchanged(target, promote, true, "an allocation failure");
            return false;
        }
        sim::violate("wrong-outcome", "%s: %s (%s), expected %s", opname, kind_name(k), what.c_str(), kind_name(want));
    }
    void unchanged(const Path* target, MV::T promote, bool, const char* why)
    {
        if (target && promote != MV::Null && at(*target).t == MV::Null)
        {
            MV x = lift(rat(*target));
            if (x.t == promote && msize(x) == 0) { at(*target) = x; sim::probe("null-became-empty-container"); }
        }
        char b[100];
        snprintf(b, sizeof b, "failed (%s)", why);
        check(m, b);
    }
    void check(const std::vector<MV>& want, const char* when)
    {
        for (int i = 0; i < N; ++i)
        {
            MV x = lift(v[i]);
            if (!model::same(x, want[(size_t)i], 0))
                sim::violate("wrong-contents", "%s, %s: v%d is %s, expected %s", opname, when, i, model::show(x).c_str(), model::show(want[(size_t)i]).c_str());
        }
    }
    void wrong(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        UserScope u;
        char b[400];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        if (bad.empty()) bad = b;
    }
    void expect(const MV& got, const MV& want, const char* what)
    {
        UserScope u;
        if (!model::same(got, want, 0)) wrong("%s is %s, expected %s", what, model::show(got).c_str(), model::show(want).c_str());
    }
    template <class F> void value_op(const Path& t, Kind want, const MV& result, F f)
    {
        std::vector<MV> after = m;
        std::swap(m, after);   // m: copy to be edited
        at(t) = result;
        std::swap(m, after);
        perform(want, after, nullptr, MV::Null, f);
    }

    // V from a model, as a user would write it
    static V make(const MV& x) { return val<V>::build(x); }

    MV small_value()
    {
        model::Gen g;
        g.budget = 5;
        g.max_depth = 2;
        return norm(model::gen_value(g));
    }
    // a scalar and the C++ value it is made of
    struct Scalar { int kind; bool b; int i; int64_t l; double d; U s; MV mv; };
    Scalar scalar()
    {
        Scalar x;
        x.kind = (int)draw(8);
        x.b = draw(2) != 0;
        x.i = (int)draw(2000) - 1000;
        x.l = model::gen_int();
        x.d = draw(2) ? (double)((int)draw(100) - 50) : model::gen_float();
        x.s = key(MV());
        switch (x.kind)
        {
        case 0: x.mv = MV(); break;
        case 1: x.mv = MV::boolean(x.b); break;
        case 2: x.mv = MV::integer(x.i); break;
        case 3: x.mv = MV::integer(x.l); break;
        case 4: x.mv = MV::floating(x.d); break;
        case 5: x.mv = MV::string(x.s); break;
        case 6: x.mv = MV::string(x.s); break;
        default: x.mv = MV::integer((int64_t)(short)x.i); break;
        }
        x.d = norm(MV::floating(x.d)).d;
        x.mv = norm(x.mv);
        return x;
    }
    template <class F> static void with(const Scalar& x, F f)
    {
        switch (x.kind)
        {
        case 0: f(nullptr); break;
        case 1: f(x.b); break;
        case 2: f(x.i); break;
        case 3: f(x.l); break;
        case 4: f(x.d); break;
        case 5: { S s = str(x.s); f(s); break; }
        case 6: { S s = str(x.s); f(s.c_str()); break; }
        default: f((short)x.i); break;
        }
    }

    struct EmplaceScalar { V& t; template <class X> void operator()(const X& x) const { t.emplace_back(x); } };
    struct AssignScalar { V& t; template <class X> void operator()(const X& x) const { t = x; } };
    struct ConstructScalar { MV& r; template <class X> void operator()(const X& x) const { V c(x); r = lift(c); } };
    struct CompareScalar
    {
        const V& t;
        bool* r;
        template <class X> void operator()(const X& x) const
        {
            r[0] = t == x; r[1] = t != x; r[2] = t < x; r[3] = t <= x; r[4] = t > x; r[5] = t >= x;
            r[6] = x == t; r[7] = x != t; r[8] = x < t; r[9] = x <= t; r[10] = x > t; r[11] = x >= t;
        }
        void operator()(const S& x) const { V y(x); (*this)(y, 0); }
        void operator()(const V& y, int) const
        {
            r[0] = t == y; r[1] = t != y; r[2] = t < y; r[3] = t <= y; r[4] = t > y; r[5] = t >= y;
            r[6] = y == t; r[7] = y != t; r[8] = y < t; r[9] = y <= t; r[10] = y > t; r[11] = y >= t;
        }
    };
    void compare_check(const MV& a, const MV& b, const bool* r)
    {
        const bool e = eq<V>(a, b), l = lt<V>(a, b), g = lt<V>(b, a);
        const bool w[12] = { e, !e, l, !g, g, !l, e, !e, g, !l, l, !g };
        static const char* const n[] = { "a==b", "a!=b", "a<b", "a<=b", "a>b", "a>=b", "b==a", "b!=a", "b<a", "b<=a", "b>a", "b>=a" };
        for (int i = 0; i < 12; ++i)
            if (r[i] != w[i]) { UserScope u; wrong("%s is %d for a=%s b=%s", n[i], r[i], model::show(a, 120).c_str(), model::show(b, 120).c_str()); }
    }

    // what an iterator over a value shows
    struct Seen { bool has_key; U key; MV value; };
    static std::vector<Seen> sequence(const MV& x)
    {
        std::vector<Seen> r;
        if (x.t == MV::Arr) for (auto& e : x.a) r.push_back(Seen{ false, U(), e });
        else if (x.t == MV::Obj)
        {
            for (auto& e : x.o) r.push_back(Seen{ true, e.first, e.second });
            if (Traits<V>::reversed) std::reverse(r.begin(), r.end());
        }
        else if (x.t != MV::Null) r.push_back(Seen{ false, U(), x });
        return r;
    }
    template <class I> void see(std::vector<Seen>& r, const I& it, bool object)
    {
        U k;
        if (object) { const S& s = it.key(); UserScope u; k = KT<C>::dec(std::basic_string<C>(s.begin(), s.end())); }
        MV x = lift(it.value());
        UserScope u;
        r.push_back(Seen{ object, k, x });
    }
    void compare_seen(const std::vector<Seen>& a, const std::vector<Seen>& b, const char* what)
    {
        bool ok = a.size() == b.size();
        for (size_t i = 0; ok && i < a.size(); ++i) ok = a[i].has_key == b[i].has_key && a[i].key == b[i].key && model::same(a[i].value, b[i].value, 0);
        if (!ok) wrong("%s visited %zu elements, expected %zu, or others", what, a.size(), b.size());
    }
    template <class I, class X> void walk(X& x, I b, I e, bool object, std::vector<Seen>& r, size_t limit)
    {
        I i = e;
        i = b;
        for (; i != e; ++i)
        {
            if (r.size() > limit) { wrong("iteration does not end"); return; }
            see(r, i, object);
        }
    }
    static It  advance_to(V& x, size_t i, uint32_t how)
    {
        It it = how & 1 ? x.begin() : x.end();
        const size_t n = x.size();
        if (how & 1) { for (size_t k = 0; k < i; ++k) { if (how & 2) ++it; else it++; } }
        else for (size_t k = n; k > i; --k) { if (how & 2) --it; else it--; }
        return it;
    }

    void step()
    {
        const uint32_t op = draw(35);
        Path t = op >= 3 && op <= 15 ? pick_container() : pick();
        const MV tm = at(t);
        V& T = rat(t);
        char name[200];
        auto title = [&](const char* what) { snprintf(name, sizeof name, "%s %s (%s)", what, t.str().c_str(), model::show(tm, 60).c_str()); opname = name; };
        std::vector<MV> after;
        // applies `edit` to a copy of the model
        auto edited = [&](const std::function<void(MV&)>& edit) { after = m; std::swap(m, after); edit(at(t)); std::swap(m, after); };
        switch (op)
        {
        case 0: case 1:
        {
            Path s = pick();
            title(("copy-assign from " + s.str() + " to").c_str());
            const MV sm = at(s);
            V& R = rat(s);
            edited([&](MV& x) { x = sm; });
            const V& cr = R;
            perform(OK, after, nullptr, MV::Null, [&] { if (&(T = cr) != &T) wrong("assignment returns another object"); });
            break;
        }
        case 2:
        {
            Path s = pick();
            if (s.above(t) && !s.same(t)) return;
            title(("move-assign from " + s.str() + " to").c_str());
            const MV sm = at(s);
            V& R = rat(s);
            after = m;
            std::swap(m, after);
            if (!s.same(t)) { at(s) = MV(); at(t) = sm; }  // a source inside the target vanishes with it
            std::swap(m, after);
            perform(OK, after, nullptr, MV::Null, [&] { T = std::move(R); });
            break;
        }
        case 3:
        {
            Path s = pick();
            if (s.above(t) && tm.t == MV::Null) return;  // the target becomes an array first
            title(("push_back copy of " + s.str() + " to").c_str());
            const MV sm = at(s);
            const V& R = rat(s);
            Kind want = tm.t == MV::Null || tm.t == MV::Arr ? OK : TYPE;
            edited([&](MV& x) { if (want == OK) { x.t = MV::Arr; x.a.push_back(sm); } });
            perform(want, after, &t, MV::Arr, [&] { T.push_back(R); });
            break;
        }
        case 4:
        {
            MV sm = small_value();
            title("push_back temporary to");
            Kind want = tm.t == MV::Null || tm.t == MV::Arr ? OK : TYPE;
            edited([&](MV& x) { if (want == OK) { x.t = MV::Arr; x.a.push_back(sm); } });
            perform(want, after, &t, MV::Arr, [&] { T.push_back(make(sm)); });
            break;
        }
        case 5:
        {
            Path s = pick();
            if (s.above(t)) return;
            title(("push_back moved " + s.str() + " to").c_str());
            const MV sm = at(s);
            V& R = rat(s);
            Kind want = tm.t == MV::Null || tm.t == MV::Arr ? OK : TYPE;
            after = m;
            std::swap(m, after);
            if (want == OK) { at(s) = MV(); MV& x = at(t); x.t = MV::Arr; x.a.push_back(sm); }
            std::swap(m, after);
            perform(want, after, &t, MV::Arr, [&] { T.push_back(std::move(R)); });
            break;
        }
        case 6:
        {
            Scalar s = scalar();
            title("emplace_back to");
            Kind want = tm.t == MV::Null || tm.t == MV::Arr ? OK : TYPE;
            edited([&](MV& x) { if (want == OK) { x.t = MV::Arr; x.a.push_back(s.mv); } });
            EmplaceScalar f = { T };
            perform(want, after, &t, MV::Arr, [&] { with(s, f); });
            break;
        }
        case 7:
        {
            const size_t i = draw(2) ? draw(4) : draw((uint32_t)msize(tm) + 3);
            title(("operator[" + std::to_string(i) + "] of").c_str());
            Kind want = tm.t == MV::Null || tm.t == MV::Arr ? OK : KEY;
            edited([&](MV& x) { if (want == OK) { x.t = MV::Arr; if (x.a.size() <= i) x.a.resize(i + 1); } });
            MV e = want == OK && tm.t == MV::Arr && i < tm.a.size() ? tm.a[i] : MV();
            perform(want, after, &t, MV::Arr, [&] { expect(lift(T[i]), e, "the element"); });
            break;
        }
        case 8: case 9:
        {
            const U k = op == 8 ? key(tm) : cstr(key(tm));
            title(op == 8 ? "operator[key] of" : "operator[pointer] of");
            Kind want = tm.t == MV::Null || tm.t == MV::Obj ? OK : KEY;
            edited([&](MV& x) { if (want == OK) { x.t = MV::Obj; x.o[k]; } });
            MV e;
            if (tm.t == MV::Obj && tm.o.count(k)) e = tm.o.find(k)->second;
            const S ks = str(k);
            perform(want, after, &t, MV::Obj, [&] { expect(lift(op == 8 ? T[ks] : T[ks.c_str()]), e, "the element"); });
            break;
        }
        case 10:
        {
            const size_t i = draw((uint32_t)msize(tm) + 2);
            title(("at(" + std::to_string(i) + ") of").c_str());
            Kind want = tm.t != MV::Arr ? KEY : i < tm.a.size() ? OK : OOR;
            const bool br = draw(2) != 0;
            const V& c = T;
            MV e = want == OK ? tm.a[i] : MV();
            perform(want, m, nullptr, MV::Null, [&] { expect(lift(br ? c[i] : c.at(i)), e, "the element"); });
            break;
        }
        case 11:
        {
            const uint32_t how = draw(4);
            const U k = how < 2 ? key(tm) : cstr(key(tm));
            title("at(key) of");
            Kind want = tm.t != MV::Obj ? KEY : tm.o.count(k) ? OK : OOR;
            const V& c = T;
            const S ks = str(k);
            MV e = want == OK ? tm.o.find(k)->second : MV();
            perform(want, m, nullptr, MV::Null, [&] { expect(lift(how == 0 ? c[ks] : how == 1 ? c.at(ks) : how == 2 ? c[ks.c_str()] : c.at(ks.c_str())), e, "the element"); });
            break;
        }
        case 12:
        {
            const U k = key(tm);
            title("erase(key) of");
            const size_t n = tm.t == MV::Obj ? tm.o.count(k) : 0;
            edited([&](MV& x) { if (x.t == MV::Obj) x.o.erase(k); });
            const S ks = str(k);
            perform(tm.t == MV::Obj ? OK : KEY, after, nullptr, MV::Null, [&] { size_t r = T.erase(ks); if (r != n) wrong("erased %zu, expected %zu", r, n); });
            break;
        }
        case 13:
        {
            if (tm.t == MV::Arr && tm.a.empty()) return;
            const size_t i = tm.t == MV::Arr ? draw((uint32_t)tm.a.size()) : draw(2);
            title(("erase(" + std::to_string(i) + ") of").c_str());
            edited([&](MV& x) { if (x.t == MV::Arr) x.a.erase(x.a.begin() + (long)i); });
            perform(tm.t == MV::Arr ? OK : KEY, after, nullptr, MV::Null, [&] { T.erase(i); });
            break;
        }
        case 14:
        {
            const bool cont = tm.t == MV::Arr || tm.t == MV::Obj;
            if (cont && !msize(tm)) return;
            const size_t i = cont ? draw((uint32_t)msize(tm)) : 0;
            title(("erase(iterator " + std::to_string(i) + ") of").c_str());
            edited([&](MV& x) {
                if (x.t == MV::Arr) x.a.erase(x.a.begin() + (long)i);
                else if (x.t == MV::Obj) x.o.erase(nth(x, i));
            });
            const uint32_t how = draw(4);
            const bool cit = draw(2) != 0;
            perform(cont ? OK : ITER, after, nullptr, MV::Null, [&] {
                It it = advance_to(T, i, how);
                size_t d = 0;
                if (cit)
                {
                    CIt r = T.erase(CIt(it));
                    for (CIt b = T.cbegin(); b != r && d <= i; ++b) ++d;
                }
                else
                {
                    It r = T.erase(it);
                    for (It b = T.begin(); b != r && d <= i; ++b) ++d;
                }
                if (d != i) wrong("the returned iterator is at %zu, expected %zu", d, i);
            });
            break;
        }
        case 15:
        {
            const bool cont = tm.t == MV::Arr || tm.t == MV::Obj;
            const size_t n = cont ? msize(tm) : 0;
            const size_t i = draw((uint32_t)n + 1), j = i + draw((uint32_t)(n - i) + 1);
            title(("erase(range " + std::to_string(i) + ".." + std::to_string(j) + ") of").c_str());
            edited([&](MV& x) {
                if (x.t == MV::Arr) x.a.erase(x.a.begin() + (long)i, x.a.begin() + (long)j);
                else if (x.t == MV::Obj) for (size_t k = i; k < j; ++k) x.o.erase(nth(x, i));
            });
            const uint32_t how = draw(4), how2 = draw(4);
            perform(cont ? OK : ITER, after, nullptr, MV::Null, [&] {
                It r = T.erase(advance_to(T, i, how), advance_to(T, j, how2));
                size_t d = 0;
                for (It b = T.begin(); b != r && d <= i; ++b) ++d;
                if (d != i) wrong("the returned iterator is at %zu, expected %zu", d, i);
            });
            break;
        }
        case 16:
        {
            title("clear");
            edited([&](MV& x) {
                switch (x.t)
                {
                case MV::Bool: x.b = false; break;
                case MV::Int: x.i = 0; break;
                case MV::Float: x.d = 0; break;
                case MV::Str: x.s.clear(); break;
                case MV::Arr: x.a.clear(); break;
                case MV::Obj: x.o.clear(); break;
                default: break;
                }
            });
            perform(OK, after, nullptr, MV::Null, [&] { T.clear(); });
            break;
        }
        case 17:
        {
            const U k = key(tm);
            title("find/count in");
            const S ks = str(k);
            const bool has = tm.t == MV::Obj && tm.o.count(k);
            MV e = has ? tm.o.find(k)->second : MV();
            const V& c = T;
            perform(OK, m, nullptr, MV::Null, [&] {
                if (T.count(ks) != (has ? 1u : 0u)) wrong("count is %zu", (size_t)T.count(ks));
                CIt i = c.find(ks);
                It k2 = T.find(ks);
                if ((i == c.end()) == has || (k2 == T.end()) == has) { wrong("found: %d", !has); return; }
                if (has)
                {
                    expect(lift(i.value()), e, "the element found");
                    expect(lift(*k2), e, "the element found");
                    if (i.key() != ks) wrong("the key found differs");
                }
            });
            break;
        }
        case 18: case 19:
        {
            title("iterate over");
            const bool obj = tm.t == MV::Obj, rev = draw(2) != 0;
            const uint32_t how = draw(3);
            std::vector<Seen> got, want = sequence(tm);
            if (rev) std::reverse(want.begin(), want.end());
            const V& c = T;
            const size_t lim = want.size();
            perform(OK, m, nullptr, MV::Null, [&] {
                if (!rev && how == 0) walk(T, T.begin(), T.end(), obj, got, lim);
                else if (!rev && how == 1) walk(c, c.begin(), c.end(), obj, got, lim);
                else if (!rev) { CIt b = T.cend(); b = T.begin(); if (b != T.cbegin()) wrong("begin() assigned to a const iterator is not cbegin()"); walk(c, b, T.cend(), obj, got, lim); }
                else if (how == 0) walk(T, T.rbegin(), T.rend(), obj, got, lim);
                else if (how == 1) walk(c, c.rbegin(), c.rend(), obj, got, lim);
                else walk(c, T.crbegin(), T.crend(), obj, got, lim);
                compare_seen(got, want, rev ? "a reverse iteration" : "an iteration");
            });
            break;
        }
        case 20:
        {
            // dereference, key() and offsets at a position
            const size_t n = msize(tm), i = draw((uint32_t)n + 1);
            title(("iterator at " + std::to_string(i) + " of").c_str());
            const uint32_t how = draw(4), what = draw(5);
            std::vector<Seen> seq = sequence(tm);
            Kind want = OK;
            switch (what)
            {
            case 0: want = i < n ? OK : OOR; break;                                   // *it
            case 1: want = i >= n ? OOR : tm.t == MV::Obj ? OK : ITER; break;         // key()
            case 2: want = tm.t == MV::Arr ? OK : ITER; break;                        // it - begin
            case 3: want = tm.t == MV::Obj ? ITER : OK; break;                        // begin + i
            default: want = tm.t == MV::Obj ? ITER : OK; break;                       // it < end
            }
            perform(want, m, nullptr, MV::Null, [&] {
                It it = advance_to(T, i, how);
                switch (what)
                {
                case 0: expect(lift(how & 1 ? *it : *it.operator->()), seq[i].value, "the element"); break;
                case 1: { const S& k = it.key(); UserScope u; if (KT<C>::dec(std::basic_string<C>(k.begin(), k.end())) != seq[i].key) wrong("the key differs"); break; }
                case 2: { auto d = it - T.begin(); if (d != (long)i) wrong("distance %ld, expected %zu", (long)d, i); break; }
                case 3:
                {
                    It k = T.begin() + (long)i;
                    if (k != it) wrong("begin + %zu is another position than %zu steps", i, i);
                    k -= (long)i;
                    if (!(k == T.begin())) wrong("moving back does not return to begin");
                    if (T.end() - (long)(n - i) != it) wrong("end - %zu is another position", n - i);
                    break;
                }
                default:
                {
                    const bool l = it < T.end(), g = T.end() > it, le = it <= T.begin(), ge = it >= T.begin();
                    if (l != (i < n) || g != (i < n) || le != (i == 0) || !ge) wrong("wrong order of iterators");
                    break;
                }
                }
            });
            break;
        }
        case 21:
        {
            Path s = pick();
            if (s.same(t)) return;
            title(("iterators of two values " + s.str() + ",").c_str());
            const bool dist = draw(2) != 0;
            V& R = rat(s);
            perform(ITER, m, nullptr, MV::Null, [&] {
                if (T.begin() == R.begin()) wrong("iterators of different values are equal");
                if (dist) (void)(T.begin() - R.begin());
                else (void)(T.begin() < R.begin());
            });
            break;
        }
        case 22: case 23:
        {
            Path s = pick();
            title(("compare with " + s.str()).c_str());
            const MV sm = at(s);
            const V& R = rat(s);
            bool r[12];
            CompareScalar f = { T, r };
            perform(OK, m, nullptr, MV::Null, [&] { f(R, 0); compare_check(tm, sm, r); });
            break;
        }
        case 24:
        {
            Scalar s = scalar();
            title("compare with a scalar");
            bool r[12];
            CompareScalar f = { T, r };
            perform(OK, m, nullptr, MV::Null, [&] { with(s, f); compare_check(tm, s.mv, r); });
            break;
        }
        case 25:
        {
            title("copy and change the copy of");
            const V& c = T;
            perform(OK, m, nullptr, MV::Null, [&] {
                V a(c);
                expect(lift(a), tm, "the copy");
                V b = a;
                a.clear();
                if (b.is_array()) { b.push_back(1); if (b.size() > 1) b[(size_t)0] = nullptr; }
                else if (b.is_object()) { b[str(U"k")] = 1; for (auto it = b.begin(); it != b.end(); ++it) it.value() = nullptr; }
                else if (b.is_string()) *b.data().string += C('x');
                V d(std::move(b));
                expect(lift(b), MV(), "a moved-from value");
            });
            break;
        }
        case 26:
        {
            Scalar s = scalar();
            title("assign a scalar to");
            edited([&](MV& x) { x = s.mv; });
            AssignScalar f = { T };
            perform(OK, after, nullptr, MV::Null, [&] { with(s, f); });
            break;
        }
        case 27:
        {
            Scalar s = scalar();
            title("construct from a scalar,");
            MV r;
            ConstructScalar f = { r };
            perform(OK, m, nullptr, MV::Null, [&] { with(s, f); expect(r, s.mv, "the value"); });
            break;
        }
        case 28:
        {
            Path s = pick(), q = pick();
            title(("make_array/make_object of " + s.str() + " and " + q.str() + " into").c_str());
            const MV a = at(s), b = at(q);
            const U k = key(MV()), k2 = key(MV());
            const V &A = rat(s), &B = rat(q);
            const bool arr = draw(2) != 0;
            const S ks = str(k), ks2 = str(k2);
            edited([&](MV& x) {
                if (arr) { MV r = MV::array(); r.a.push_back(a); r.a.push_back(MV::integer(5)); r.a.push_back(b); x = r; }
                else { MV r = MV::object(); r.o.insert(std::make_pair(k, a)); r.o.insert(std::make_pair(k2, b)); x = r; }
            });
            perform(OK, after, nullptr, MV::Null, [&] {
                if (arr) T = configor::make_array<V>({ A, 5, B });
                else T = configor::make_object<V>({ { ks, A }, { ks2, B } });
            });
            break;
        }
        case 29:
        {
            title("type and size of");
            const V& c = T;
            perform(OK, m, nullptr, MV::Null, [&] {
                const bool is[7] = { c.is_null(), c.is_bool(), c.is_integer(), c.is_floating(), c.is_string(), c.is_array(), c.is_object() };
                const MV::T ty[7] = { MV::Null, MV::Bool, MV::Int, MV::Float, MV::Str, MV::Arr, MV::Obj };
                for (int i = 0; i < 7; ++i) if (is[i] != (tm.t == ty[i])) wrong("type query %d is %d", i, is[i]);
                if (c.is_number() != (tm.t == MV::Int || tm.t == MV::Float)) wrong("is_number");
                if (c.size() != msize(tm)) wrong("size is %zu, expected %zu", (size_t)c.size(), msize(tm));
                if (c.empty() != (msize(tm) == 0)) wrong("empty is %d", c.empty());
                if ((c.begin() == c.end()) != (msize(tm) == 0)) wrong("begin == end");
            });
            break;
        }
        case 30:
        {
            // references and pointers to the stored data
            const uint32_t ty = draw(6);
            title(("reference of type " + std::to_string(ty) + " into").c_str());
            static const MV::T want_type[] = { MV::Bool, MV::Int, MV::Float, MV::Str, MV::Arr, MV::Obj };
            const bool fits = tm.t == want_type[ty];
            const bool ptr = draw(2) != 0;
            edited([&](MV& x) {
                if (!fits) return;
                switch (ty)
                {
                case 0: x.b = !x.b; break;
                case 1: x.i = 42; break;
                case 2: x.d = 1.5; break;
                case 3: x.s += U"+"; break;
                case 4: x.a.push_back(MV()); break;
                default: x.o[U"ref"] = MV(); break;
                }
            });
            perform(fits || ptr ? OK : TYPE, after, nullptr, MV::Null, [&] {
                switch (ty)
                {
                case 0: ref<typename V::boolean_type>(T, ptr, fits, [](typename V::boolean_type& x) { x = !x; }); break;
                case 1: ref<typename V::integer_type>(T, ptr, fits, [](typename V::integer_type& x) { x = 42; }); break;
                case 2: ref<typename V::float_type>(T, ptr, fits, [](typename V::float_type& x) { x = 1.5; }); break;
                case 3: ref<S>(T, ptr, fits, [](S& x) { x += C('+'); }); break;
                case 4: ref<typename V::array_type>(T, ptr, fits, [](typename V::array_type& x) { x.push_back(V()); }); break;
                default: ref<typename V::object_type>(T, ptr, fits, [](typename V::object_type& x) { x[str(U"ref")] = V(); }); break;
                }
            });
            break;
        }
        case 31:
        {
            // write through an iterator
            const size_t n = msize(tm);
            if (!n) return;
            const size_t i = draw((uint32_t)n);
            title(("write through iterator " + std::to_string(i) + " of").c_str());
            MV sm = small_value();
            edited([&](MV& x) {
                if (x.t == MV::Arr) x.a[i] = sm;
                else if (x.t == MV::Obj) nth(x, i)->second = sm;
                else x = sm;
            });
            const uint32_t how = draw(4);
            perform(OK, after, nullptr, MV::Null, [&] {
                It it = advance_to(T, i, how);
                V c = make(sm);
                if (how & 1) *it = c;
                else it.value() = std::move(c);
            });
            break;
        }
        case 34:
        {
            // its own type is a type to convert to like any other
            title("get as a value");
            const bool into = draw(2) != 0;
            perform(OK, m, nullptr, MV::Null, [&] {
                const V& c = T;
                V d(3);
                if (!into) d = c.template get<V>();
                else if (!c.get(d)) wrong("a value does not convert to a value");
                expect(lift(d), tm, "the copy");
            });
            break;
        }
        case 32:
        {
            Path s = pick();
            const bool std_swap = draw(2) != 0;
            if ((s.above(t) || t.above(s)) && !s.same(t)) return;
            title(("swap with " + s.str() + ":").c_str());
            V& R = rat(s);
            after = m;
            std::swap(m, after);
            if (!s.same(t)) std::swap(at(s), at(t));
            std::swap(m, after);
            perform(OK, after, nullptr, MV::Null, [&] { if (std_swap) std::swap(T, R); else T.swap(R); });
            break;
        }
        default:
        {
            static const configor::value_constant::type ty[] = { vc::null, vc::boolean, vc::integer, vc::floating, vc::string, vc::array, vc::object };
            static const MV::T mt[] = { MV::Null, MV::Bool, MV::Int, MV::Float, MV::Str, MV::Arr, MV::Obj };
            const uint32_t k = draw(7);
            title("assign a default value of a type to");
            edited([&](MV& x) { x = MV(); x.t = mt[k]; });
            perform(OK, after, nullptr, MV::Null, [&] { V c(ty[k]); T = c; });
            break;
        }
        }
    }
    template <class X, class F> void ref(V& T, bool ptr, bool fits, F f)
    {
        const V& c = T;
        if (ptr)
        {
            X* p = T.template get<X*>();
            const X* q = c.template get_ptr<const X*>();
            if ((p != nullptr) != fits || p != q) { wrong("pointer is %s", p ? "set" : "null"); return; }
            const X *r = nullptr, *s = c.template get<const X*>();
            if (s != q || !c.get(r) || r != q) { wrong("the pointer depends on the way to get it"); return; }
            if (p) f(*p);
        }
        else
        {
            if (fits && &c.template get<const X&>() != &T.template get<X&>()) wrong("references differ");
            f(T.template get<X&>());
        }
    }
    // keeps the pool small
    void trim()
    {
        for (int i = 0; i < N; ++i)
            if (model::weight(m[(size_t)i]) > limit) { LibScope l; v[i] = nullptr; m[(size_t)i] = MV(); }
    }

    // a container of many elements
    static MV many()
    {
        MV x = draw(3) ? MV::array() : MV::object();
        const uint32_t n = 40 + draw(chance(1, 5) ? 1500 : 400), kind = draw(4);
        for (uint32_t i = 0; i < n; ++i)
        {
            MV e = kind == 0 ? MV::integer(i) : kind == 1 ? MV::string(KT<char>::dec("element " + std::to_string(i))) : kind == 2 ? MV::array() : i % 7 ? MV::integer(i * i) : MV();
            if (x.t == MV::Arr) x.a.push_back(e);
            else x.o[KT<char>::dec(std::to_string(i * 37 % 2000))] = e;
        }
        return x;
    }
    size_t limit;

    static void history(uint32_t steps)
    {
        Test t;
        const bool large = chance(1, 14);
        t.limit = large ? 2200 : 120;
        if (large) sim::probe("large-containers");
        t.v = new V[N];
        t.m.resize(N);
        t.opname = "start";
        for (int i = 0; i < N; ++i)
        {
            model::Gen g;
            g.budget = 12;
            t.m[(size_t)i] = draw(3) ? model::gen_container(g) : model::gen_value(g);
            if (large && draw(3) != 0) t.m[(size_t)i] = many();
            t.m[(size_t)i] = norm(t.m[(size_t)i]);
            LibScope l;
            t.v[i] = make(t.m[(size_t)i]);
        }
        t.check(t.m, "built");
        for (; steps; --steps)
        {
            t.step();
            t.trim();
        }
        delete[] t.v;
        t.v = nullptr;
    }
};
}  // namespace history
