// One value type with replaced template arguments (SIM_PART says which), driven
// through histories of operations, documents and conversions.  See p_C17.cpp.
#include "history.hpp"
#include "docs.hpp"

#include <array>
#include <deque>
#include <list>
#include <unordered_map>

using namespace history;

namespace
{
// ---- the replacements -------------------------------------------------------------

// not contiguous, elements never move when it grows
template <class T, class A> struct Deque : std::deque<T, A>
{
    using std::deque<T, A>::deque;
    Deque() {}
    void reserve(size_t) {}
};
// keeps its keys in descending order
template <class K, class T, class, class A> using Descending = std::map<K, T, std::greater<K>, A>;

// a binder around each conversion, with a resource of its own
struct Guard
{
    char* p;
    Guard() : p(new char[3]) { ++used(); sim::probe("custom-binder"); }
    static uint64_t& used() { static uint64_t n; return n; }
    ~Guard() { delete[] p; }
    Guard(const Guard&) = delete;
};
template <class T> struct GuardedBinder
{
    template <class V, class X = T> static auto to_value(V& c, X&& v) -> decltype(configor::to_value(c, std::forward<X>(v)))
    {
        Guard g;
        configor::to_value(c, std::forward<X>(v));
    }
    template <class V, class X = T> static auto from_value(V&& c, X& v) -> decltype(configor::from_value(std::forward<V>(c), v))
    {
        Guard g;
        configor::from_value(std::forward<V>(c), v);
    }
};

struct A0 : configor::value_tplargs
{
    using integer_type = int32_t;
    using float_type = float;
    template <class T, class... R> using array_type = Deque<T, R...>;
};
struct A1 : configor::wvalue_tplargs
{
    using integer_type = int16_t;
    using float_type = long double;
    template <class K, class T, class C, class R> using object_type = Descending<K, T, C, R>;
};
struct A2 : configor::value_tplargs
{
    using integer_type = int32_t;
    template <class T, class... R> using array_type = Deque<T, R...>;
    template <class K, class T, class C, class R> using object_type = Descending<K, T, C, R>;
    template <class T> using allocator_type = SimAllocator<T>;
};
struct A3 : configor::value_tplargs
{
    using integer_type = long long;
    template <class K, class T, class C, class R> using object_type = Descending<K, T, C, R>;
    template <class T, class... R> using array_type = Deque<T, R...>;
    template <class T> using binder_type = GuardedBinder<T>;
};
typedef configor::value_tplargs A9;  // the shipped ones: does this program compile at all?
struct A4 : configor::wvalue_tplargs
{
    using float_type = float;
    template <class T> using allocator_type = SimAllocator<T>;
};
#define SIM_PASTE2(a, b) a##b
#define SIM_PASTE(a, b) SIM_PASTE2(a, b)
typedef configor::basic_json<SIM_PASTE(A, SIM_PART)> J;
}  // namespace

namespace history
{
template <> struct Traits<J::value> { static const bool reversed = SIM_PART >= 1 && SIM_PART <= 3; };
}  // namespace history

namespace
{
// a user's type, bound for each value type
template <class V> struct Rec
{
    int a;
    std::vector<double> b;
    typename V::string_type s;
    Rec() : a(0) {}
};
struct Record : Rec<J::value>
{
#if SIM_PART == 1 || SIM_PART == 4
    CONFIGOR_BIND(J::value, Record, REQUIRED(a, Test<J::value>::str(U"a")), REQUIRED(b, L"b"), REQUIRED(s, Test<J::value>::str(U"s")))
#else
    CONFIGOR_BIND(J::value, Record, REQUIRED(a), REQUIRED(b), REQUIRED(s))
#endif
};

// ---- documents and conversions ------------------------------------------------------

template <class J, class R> struct Io
{
    typedef typename J::value       V;
    typedef typename V::char_type   C;
    typedef typename V::string_type S;
    typedef Test<V>                 Te;
    typedef std::numeric_limits<typename V::integer_type> IL;

    struct Slot { V v; MV m; };
    Slot v[3];

    static double tol() { return 1e-4; }

    static bool fits(const MV& x)
    {
        if (x.t == MV::Int && (x.i < (int64_t)IL::min() || x.i > (int64_t)IL::max())) return false;
        for (auto& e : x.a) if (!fits(e)) return false;
        for (auto& e : x.o) if (!fits(e.second)) return false;
        return true;
    }
    // integers near the limits of the integer type, and beyond
    static void stretch(MV& x)
    {
        if (x.t == MV::Int && draw(3) == 0)
        {
            const int64_t at[] = { IL::max(), IL::min(), (int64_t)1 << 31, -((int64_t)1 << 31), (int64_t)1 << 15, -((int64_t)1 << 15) };
            const int64_t b = at[draw(6)];
            const int64_t d = (int64_t)draw(5) - 2;
            x.i = (b > INT64_MAX - 2 && d > 0) || (b < INT64_MIN + 2 && d < 0) ? b : b + d;
        }
        for (auto& e : x.a) stretch(e);
        for (auto& e : x.o) stretch(e.second);
    }

    void judge(const V& x, const MV& want, const char* what)
    {
        MV g = val<V>::lift(x);
        if (!model::same(g, want, tol())) sim::violate("wrong-value", "%s: %s, expected %s", what, model::show(g).c_str(), model::show(want).c_str());
    }
    static bool arm()
    {
        if (!chance(1, 3)) return false;
        sim::alloc_arm(draw(1u << draw(7)), 1 + draw(2));
        return true;
    }
    static bool disarm(bool armed)
    {
        if (!armed) return false;
        const bool f = sim::alloc_fired() > 0;
        sim::alloc_disarm();
        return f;
    }

    template <class D> void load()
    {
        Slot& me = v[draw(3)];
        model::Gen g;
        g.budget = sim::thorough() ? 40 : 16;
        Doc<D> d;
        d.m = draw(4) ? model::gen_container(g) : model::gen_value(g);
        if (draw(2)) stretch(d.m);
        else d.m = Te::norm(d.m);
        d.cps = model::gen_doc(d.m, model::gen_style());
        d.enc = gen_enc<D>();
        d.damaged = false;
        d.text = units(d.cps, d.enc, D());
        const bool valid = fits(d.m);
        Src<D> s;
        s.text = d.text;
        ParseReq<J, D> q;
        q.enc = d.enc;
        gen_source<J, D>(s, q);
        if (q.kind >= S_UNBUF && !(q.kind == S_FILE && (sizeof(D) > 1 || q.api == 3)) && chance(1, 5))
        {
            s.fault.on = true;
            s.fault.at = draw((uint32_t)s.text.size() + 1);
            s.fault.transient = draw(2) != 0;
        }
        V out;
        const bool armed = arm();
        ParseRes r = Parser<J, D>::parse(s, q, out);
        const bool nomem = disarm(armed);
        const bool failed = nomem || s.fault.fired;
        ev("load %s valid=%d -> %s %s", show_req(q, s).c_str(), valid, kind_name(r.kind), r.what.c_str());
        if (r.ok())
        {
            // what the type cannot hold is never silently changed
            if (!valid) sim::violate("integer-out-of-range-accepted", "%s read from %s", model::show(val<V>::lift(out)).c_str(), show_units(d.text).c_str());
            judge(out, Te::norm(d.m), "a loaded document");
            sim::probe("loaded");
            MV got = val<V>::lift(out);
            me.m = got;
            LibScope l;
            me.v = std::move(out);
            out = nullptr;
            return;
        }
        if (valid && !failed)
            sim::violate("valid-document-refused", "%s '%s' for %s", kind_name(r.kind), r.what.c_str(), show_units(d.text).c_str());
        if (!failed && r.kind != DES && q.api != 2) sim::violate("wrong-error", "%s for %s", kind_name(r.kind), show_units(d.text).c_str());
        sim::probe(valid ? "load-failed" : "integer-out-of-range-refused");
        val<V>::lift(out);
        if (failed) sim::nontrivial();
        LibScope l;
        out = nullptr;
    }

    template <class D> void save()
    {
        Slot& me = v[draw(3)];
        DumpReq<D> q = gen_dump_options<D>(true);
        q.use_options = true;
        if (!q.fmt || q.fmt == 2) q.fmt = 1;
        q.precision = std::numeric_limits<typename V::float_type>::max_digits10;  // every float has its own text
        if (q.precision > 18) q.fmt = 3;  // and none is that of an integer
        do q.enc = gen_enc<D>(); while (q.enc == E_BLOCK || q.enc == E_MIXED);
        q.kind = (int)draw(K_KINDS);
        if (sizeof(D) > 1 && q.kind == K_FILE) q.kind = K_OSTREAM;
        q.bulk = draw(2) != 0;
        Snk<D> s;
        if (draw(2)) s.buf = 1 + draw(40);
        if (q.kind >= K_OSTREAM && q.kind != K_SSTREAM && chance(1, 5))
        {
            s.fault.on = true;
            s.fault.at = draw(200);
            s.fault.kind = (int)draw(4);
            s.fault.transient = draw(2) != 0;
        }
        const bool armed = arm();
        DumpRes r = Dumper<J, D>::dump(s, me.v, q);
        const bool nomem = disarm(armed);
        const bool failed = nomem || s.fault.fired;
        ev("save %s enc=%d %s%s -> %s", snk_name(q.kind), (int)q.enc, s.fault.str().c_str(), armed ? " alloc" : "", kind_name(r.kind));
        judge(me.v, me.m, "a saved value");
        if (r.reported(0))
        {
            if (!failed) sim::violate("healthy-save-failed", "saving %s: %s '%s'", model::show(me.m).c_str(), kind_name(r.kind), r.what.c_str());
            sim::probe("save-failed");
            sim::nontrivial();
            return;
        }
        // by the reference parser, and back into the same type
        model::Ref f;
        {
            std::vector<uint32_t> cps = q.enc == E_UTF8 && sizeof(D) > 1 ? model::decode_units(narrowed(s.got)) : q.enc == E_UTF16 ? from_utf16(s.got) : model::decode_units(s.got);
            f = model::parse(cps);
        }
        if (!f.ok || !model::same(f.v, me.m, tol()))
            sim::violate("saved-text-differs", "saving %s gave %s", model::show(me.m).c_str(), show_units(s.got).c_str());
        sim::probe("saved");
        Src<D> in;
        in.text = s.got;
        in.chunk = 7;
        ParseReq<J, D> pq;
        pq.enc = q.enc;
        V out;
        ParseRes p = Parser<J, D>::parse(in, pq, out);
        if (!p.ok()) sim::violate("saved-text-does-not-load", "%s '%s' for %s", kind_name(p.kind), p.what.c_str(), show_units(s.got).c_str());
        judge(out, me.m, "a value saved and loaded");
        LibScope l;
        out = nullptr;
    }
    static std::string narrowed(const std::string& s) { return s; }
    static std::string narrowed(const std::wstring& s) { std::string o; for (wchar_t c : s) o += (char)c; return o; }
    static std::vector<uint32_t> from_utf16(const std::string& s) { return model::decode_units(s); }
    static std::vector<uint32_t> from_utf16(const std::wstring& s)
    {
        std::vector<uint32_t> o;
        for (size_t i = 0; i < s.size(); ++i)
        {
            uint32_t c = (uint32_t)s[i];
            if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size()) { c = 0x10000 + ((c - 0xD800) << 10) + ((uint32_t)s[i + 1] - 0xDC00); ++i; }
            o.push_back(c);
        }
        return o;
    }

    // ---- conversions: x -> value -> x, or a failed allocation ---------------------------

    static MV mv(bool x) { return MV::boolean(x); }
    static MV mv(int x) { return MV::integer(x); }
    static MV mv(short x) { return MV::integer(x); }
    static MV mv(long long x) { return MV::integer(x); }
    static MV mv(double x) { return MV::floating(x); }
    static MV mv(float x) { return MV::floating(x); }
    static MV mv(const S& x) { return MV::string(KT<C>::dec(std::basic_string<C>(x.begin(), x.end()))); }
    static MV mv(const V& x) { return val<V>::lift(x); }
    static MV mv(const R& x)
    {
        MV o = MV::object();
        o.o[U"a"] = mv(x.a);
        o.o[U"b"] = mv(x.b);
        o.o[U"s"] = mv(x.s);
        return o;
    }
    template <class T> static MV mv(const std::unique_ptr<T>& p) { return p ? mv(*p) : MV(); }
    template <class T> static MV mv(const std::shared_ptr<T>& p) { return p ? mv(*p) : MV(); }
    template <class T, class P, class A> static MV mv(const std::map<S, T, P, A>& x) { MV o = MV::object(); for (auto& e : x) o.o[mv(e.first).s] = mv(e.second); return o; }
    template <class T> static MV seq(const T& x) { MV a = MV::array(); for (const auto& e : x) a.a.push_back(mv(e)); return a; }
    template <class T, class A> static MV mv(const std::vector<T, A>& x) { return seq(x); }
    template <class T, class A> static MV mv(const std::deque<T, A>& x) { return seq(x); }
    template <class T, class A> static MV mv(const std::list<T, A>& x) { return seq(x); }
    template <class T, size_t N> static MV mv(const std::array<T, N>& x) { return seq(x); }

    static void gen(bool& x) { x = draw(2) != 0; }
    static void gen(int& x) { x = (int)draw(2000) - 1000; }
    static void gen(short& x) { x = (short)((int)draw(2000) - 1000); }
    static void gen(long long& x) { x = (long long)draw(2000) - 1000; }
    static void gen(double& x) { x = ((double)draw(2000) - 1000) / 4; }
    static void gen(float& x) { x = ((float)draw(2000) - 1000) / 4; }
    static void gen(S& x)
    {
        static const char32_t* const k[] = { U"", U"a", U"b", U"key", U"a text longer than any small buffer", U"\u00e4\u20ac", U"\U0001F600" };
        x = Te::str(k[draw(7)]);
    }
    static void gen(V& x) { model::Gen g; g.budget = 4; g.max_depth = 2; x = val<V>::build(Te::norm(model::gen_value(g))); }
    static void gen(R& x) { gen(x.a); gen(x.b); gen(x.s); }
    template <class T> static void gen(std::unique_ptr<T>& p) { p.reset(); if (draw(4)) { p.reset(new T()); gen(*p); } }
    template <class T> static void gen(std::shared_ptr<T>& p) { p.reset(); if (draw(4)) { p.reset(new T()); gen(*p); } }
    template <class T> static void fill(T& x) { x.clear(); for (uint32_t n = draw(5); n; --n) { x.emplace_back(); gen(x.back()); } }
    template <class T, class A> static void gen(std::vector<T, A>& x) { fill(x); }
    template <class T, class A> static void gen(std::deque<T, A>& x) { fill(x); }
    template <class T, class A> static void gen(std::list<T, A>& x) { fill(x); }
    template <class T, size_t N> static void gen(std::array<T, N>& x) { for (auto& e : x) gen(e); }
    template <class T, class P, class A> static void gen(std::map<S, T, P, A>& x) { x.clear(); for (uint32_t n = draw(5); n; --n) { S k; gen(k); gen(x[k]); } }

    static void outcome(Kind k, bool fired, const char* what, const std::string& w)
    {
        if (k == OK) return;
        if (k == NOMEM && fired) { sim::nontrivial(); sim::probe("conversion-out-of-memory"); return; }
        sim::violate("conversion-failed", "%s: %s '%s'%s", what, kind_name(k), w.c_str(), fired ? " (allocation failed)" : "");
    }
    template <class T> void convert(const char* name)
    {
        Slot& me = v[draw(3)];
        T x = T(), y = T();
        { LibScope l; gen(x); if (draw(2)) gen(y); }
        const MV want = mv(x);
        std::string w;
        const uint32_t how = draw(3), back = draw(3);
        // to the value
        const uint64_t used = Guard::used();
        bool armed = arm();
        Kind k = guarded([&] {
            if (how == 0) me.v = x;
            else if (how == 1) { V t(x); me.v = std::move(t); }
            else { V t; t = x; me.v.swap(t); }
        }, &w);
        bool fired = disarm(armed);
        ev("%s to value, form %u -> %s", name, how, kind_name(k));
        outcome(k, fired, name, w);
        if (k == OK) me.m = want;
        judge(me.v, me.m, name);
        if (k == OK) binder_used(used, name, "to_value");
        if (k != OK) { LibScope l; x = T(); y = T(); return; }
        // and back
        const V& c = me.v;
        const uint64_t used2 = Guard::used();
        armed = arm();
        bool ok = true;
        k = guarded([&] {
            if (back == 0) y = c.template get<T>();
            else if (back == 1) ok = c.get(y);
            else y = static_cast<T>(c.template get<T>());
        }, &w);
        fired = disarm(armed);
        ev("%s from value, form %u -> %s %d", name, back, kind_name(k), ok);
        outcome(k, fired, name, w);
        judge(me.v, want, name);
        if (k == OK)
        {
            if (!ok) sim::violate("conversion-refused", "get(%s&) of %s is false", name, model::show(want).c_str());
            MV g = mv(y);
            if (!model::same(g, want, tol())) sim::violate("conversion-differs", "%s: %s became %s", name, model::show(want).c_str(), model::show(g).c_str());
            binder_used(used2, name, "from_value");
            sim::probe("converted");
        }
        LibScope l;
        x = T();
        y = T();
    }
    // every conversion goes through the replaced binder
    static void binder_used(uint64_t before, const char* name, const char* what)
    {
        if (std::is_same<typename V::template binder_type<int>, GuardedBinder<int>>::value && Guard::used() == before)
            sim::violate("binder-not-used", "%s of %s does not use the binder of the value type", what, name);
    }

    // a float of any precision is stored as it is, and its text read back to a few ulps
    void precise()
    {
        typedef typename V::float_type F;
        typedef typename J::template serializer_type<C> W;
        F x = (F)(1 + draw(9));
        for (int i = 0; i < 4; ++i) x = x + (F)draw(1u << 16) * std::ldexp((F)1, -16 * (i + 1));
        const int e = (int)draw(41) - 20;
        for (int i = 0; i < e; ++i) x *= 10;
        for (int i = e; i < 0; ++i) x /= 10;
        if (draw(2)) x = -x;
        Slot& me = v[draw(3)];
        F y = 0, z = 0;
        bool same = false, isf = false;
        std::string w;
        const bool armed = arm();
        Kind k = guarded([&] {
            V t = x;
            y = t.template get<F>();
            same = t == x && x == t && !(t < x) && t <= x && t.template get<F&>() == x;
            auto text = J::template dump<C>(t, { W::with_precision(std::numeric_limits<F>::max_digits10, std::ios_base::scientific) });
            V r = J::template parse<C>(text);
            isf = r.is_floating();
            if (isf) z = r.data().floating;
        }, &w);
        const bool fired = disarm(armed);
        ev("a float of full precision -> %s", kind_name(k));
        if (!(fired && (k == SER || k == DES))) outcome(k, fired, "float", w);  // (streams turn bad_alloc into their own failure)
        judge(me.v, me.m, "another value");
        if (k != OK) return;
        if (y != x || !same) sim::violate("float-changed", "%.25Lg became %.25Lg", (long double)x, (long double)y);
        if (!isf || std::fabs(z - x) > 256 * std::numeric_limits<F>::epsilon() * std::fabs(x)) sim::violate("float-changed-by-text", "%.25Lg became %.25Lg", (long double)x, (long double)z);
        sim::probe("float-of-full-precision");
    }

    void step()
    {
        switch (draw(4))
        {
        case 0: if (draw(4)) load<C>(); else if (sizeof(C) == 1) load<wchar_t>(); else load<char>(); break;
        case 1: if (draw(4)) save<C>(); else if (sizeof(C) == 1) save<wchar_t>(); else save<char>(); break;
        default:
            switch (draw(17))
            {
            case 0: convert<std::vector<int>>("vector<int>"); break;
            case 1: convert<std::vector<S>>("vector<string>"); break;
            case 2: convert<std::map<S, double>>("map<string,double>"); break;
            case 3: convert<std::list<float>>("list<float>"); break;
            case 4: convert<std::deque<short>>("deque<short>"); break;
            case 5: convert<std::array<long long, 3>>("array<long long,3>"); break;
            case 6: convert<std::unique_ptr<int>>("unique_ptr<int>", 0); break;
            case 7: convert<std::shared_ptr<S>>("shared_ptr<string>"); break;
            case 8: convert<R>("record"); break;
            case 9: convert<std::vector<R>>("vector<record>"); break;
            case 10: convert<std::map<S, R>>("map<string,record>"); break;
            case 11: convert<typename V::array_type>("array_type"); break;
            case 12: convert<typename V::object_type>("object_type"); break;
            case 13: convert<std::map<S, std::vector<std::list<S>>>>("map<string,vector<list>>"); break;
            case 14: case 15: precise(); break;
            default: convert<S>("string_type"); break;
            }
        }
    }
    // move-only: given as an rvalue
    template <class T> void convert(const char* name, int)
    {
        Slot& me = v[draw(3)];
        T x;
        { LibScope l; gen(x); }
        const MV want = mv(x);
        std::string w;
        bool armed = arm();
        Kind k = guarded([&] { me.v = x; }, &w);
        bool fired = disarm(armed);
        ev("%s to value -> %s", name, kind_name(k));
        outcome(k, fired, name, w);
        if (k == OK) me.m = want;
        judge(me.v, me.m, name);
        if (k == OK)
        {
            T y;
            armed = arm();
            k = guarded([&] { y = me.v.template get<T>(); }, &w);
            fired = disarm(armed);
            outcome(k, fired, name, w);
            if (k == OK && !model::same(mv(y), want, tol())) sim::violate("conversion-differs", "%s: %s became %s", name, model::show(want).c_str(), model::show(mv(y)).c_str());
            LibScope l;
            y = T();
        }
        LibScope l;
        x = T();
    }

    static void run(uint32_t n)
    {
        Io* io;
        { UserScope u; io = new Io; }
        for (; n; --n) io->step();
        { LibScope l; for (auto& s : io->v) s.v = nullptr; }
        UserScope u;
        delete io;
    }
};
}  // namespace

void SIM_PASTE(replaced, SIM_PART)(bool io, uint32_t n)
{
    if (io) Io<J, Record>::run(n / 2 + 1);
    else Test<J::value>::history(n);
}
