// Typed values: generation, the model of what they convert to and from, and
// user conversion hooks that can be told to fail.
#pragma once
#include "real.hpp"

#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace real
{

// the n-th user hook fails
struct HookCtl { bool on; uint64_t at, seen; int kind; bool fired; HookCtl() : on(false), at(0), seen(0), kind(0), fired(false) {} };
inline HookCtl& hookctl() { static thread_local HookCtl h; return h; }
inline void user_hook(const char* where)
{
    seam(where);
    HookCtl& h = hookctl();
    const uint64_t i = h.seen++;
    if (h.on && i == h.at)
    {
        h.fired = true;
        sim::fault("user-hook-throws");
        ev("fault user-hook-throws #%llu in %s", (unsigned long long)i, where);
        switch (h.kind)
        {
        case 1: throw SimRaw{ 3 };
        case 2: throw configor::configor_exception("raised by a user hook");
        default: throw SimError();
        }
    }
}
struct HookOff { HookCtl saved; HookOff() : saved(hookctl()) { hookctl() = HookCtl(); } ~HookOff() { hookctl() = saved; } };

template <class C> struct Keys;
template <> struct Keys<char>
{
    static const char* name() { return "name"; }
    static const char* n() { return "n"; }
    static const char* list() { return "list"; }
    static const char* opt() { return "opt"; }
    static const char* hooked() { return "hooked"; }
};
template <> struct Keys<wchar_t>
{
    static const wchar_t* name() { return L"name"; }
    static const wchar_t* n() { return L"n"; }
    static const wchar_t* list() { return L"list"; }
    static const wchar_t* opt() { return L"opt"; }
    static const wchar_t* hooked() { return L"hooked"; }
};
// any key, as the value's own string type
template <class C> std::basic_string<C> key_s(const char* k) { std::basic_string<C> s; for (; *k; ++k) s += C(*k); return s; }
template <class C> U key_u(const C* k) { U u; for (; *k; ++k) u += (char32_t)*k; return u; }

// a type with user-written hooks; form: scalar, array or object
struct Hooked
{
    int64_t n;
    int     form;
    Hooked() : n(0), form(0) {}
    Hooked(int64_t v, int f) : n(v), form(f) {}
};
inline bool operator<(const Hooked& a, const Hooked& b) { return a.form != b.form ? a.form < b.form : a.n < b.n; }
inline bool operator==(const Hooked& a, const Hooked& b) { return a.form == b.form && a.n == b.n; }
template <class V> void to_value(V& c, const Hooked& h)
{
    user_hook("to_value");
    switch (h.form)
    {
    case 0: c = h.n; break;
    case 1:
        c.push_back(h.n);
        user_hook("to_value, half done");
        c.push_back(nullptr);
        break;
    default:
        c[Keys<typename V::char_type>::n()] = h.n;
        user_hook("to_value, half done");
        c[Keys<typename V::char_type>::opt()] = true;
        break;
    }
}
template <class V> void from_value(const V& c, Hooked& h)
{
    user_hook("from_value");
    if (c.is_array()) { h.form = 1; h.n = c[0].template get<int64_t>(); }
    else if (c.is_object()) { h.form = 2; h.n = c[Keys<typename V::char_type>::n()].template get<int64_t>(); }
    else { h.form = 0; h.n = c.template get<int64_t>(); }
    user_hook("from_value, at the end");
}

// a string type of the user's own
template <class C> struct StrLike
{
    typedef std::basic_string<C> S;
    S s;
    StrLike() {}
    explicit StrLike(const S& x) { user_hook("constructor of a string type"); s = x; }
    StrLike& operator=(const S& x) { user_hook("assignment to a string type"); s = x; return *this; }
    operator S() const { user_hook("conversion of a string type"); return s; }
    friend bool operator<(const StrLike& a, const StrLike& b) { return b.s < a.s; }
};

template <class V> struct Bound
{
    typedef typename V::char_type   C;
    typedef typename V::string_type S;
    S                name;
    int              n;
    std::vector<int> list;
    std::shared_ptr<S> opt;
    Bound() : n(0) {}
    CONFIGOR_BIND(V, Bound, REQUIRED(name, Keys<C>::name()), REQUIRED(n, Keys<C>::n()), OPTIONAL(list, Keys<C>::list()), OPTIONAL(opt, Keys<C>::opt()))
};

// as many fields as the macro takes; every third is optional
template <class V> struct Fifty
{
    typedef typename V::char_type C;
    int f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39, f40, f41, f42, f43, f44, f45, f46, f47, f48, f49, f50;
    Fifty() : f1(0), f2(0), f3(0), f4(0), f5(0), f6(0), f7(0), f8(0), f9(0), f10(0), f11(0), f12(0), f13(0), f14(0), f15(0), f16(0), f17(0), f18(0), f19(0), f20(0), f21(0), f22(0), f23(0), f24(0), f25(0), f26(0), f27(0), f28(0), f29(0), f30(0), f31(0), f32(0), f33(0), f34(0), f35(0), f36(0), f37(0), f38(0), f39(0), f40(0), f41(0), f42(0), f43(0), f44(0), f45(0), f46(0), f47(0), f48(0), f49(0), f50(0) {}
    static int Fifty::*field(int i)
    {
        static int Fifty::*const f[] = { &Fifty::f1, &Fifty::f2, &Fifty::f3, &Fifty::f4, &Fifty::f5, &Fifty::f6, &Fifty::f7, &Fifty::f8, &Fifty::f9, &Fifty::f10, &Fifty::f11, &Fifty::f12, &Fifty::f13, &Fifty::f14, &Fifty::f15, &Fifty::f16, &Fifty::f17, &Fifty::f18, &Fifty::f19, &Fifty::f20, &Fifty::f21, &Fifty::f22, &Fifty::f23, &Fifty::f24, &Fifty::f25, &Fifty::f26, &Fifty::f27, &Fifty::f28, &Fifty::f29, &Fifty::f30, &Fifty::f31, &Fifty::f32, &Fifty::f33, &Fifty::f34, &Fifty::f35, &Fifty::f36, &Fifty::f37, &Fifty::f38, &Fifty::f39, &Fifty::f40, &Fifty::f41, &Fifty::f42, &Fifty::f43, &Fifty::f44, &Fifty::f45, &Fifty::f46, &Fifty::f47, &Fifty::f48, &Fifty::f49, &Fifty::f50 };
        return f[i];
    }
    CONFIGOR_BIND(V, Fifty, REQUIRED(f1, key_s<C>("f1")), REQUIRED(f2, key_s<C>("f2")), OPTIONAL(f3, key_s<C>("f3")), REQUIRED(f4, key_s<C>("f4")), REQUIRED(f5, key_s<C>("f5")),
                  OPTIONAL(f6, key_s<C>("f6")), REQUIRED(f7, key_s<C>("f7")), REQUIRED(f8, key_s<C>("f8")), OPTIONAL(f9, key_s<C>("f9")), REQUIRED(f10, key_s<C>("f10")),
                  REQUIRED(f11, key_s<C>("f11")), OPTIONAL(f12, key_s<C>("f12")), REQUIRED(f13, key_s<C>("f13")), REQUIRED(f14, key_s<C>("f14")), OPTIONAL(f15, key_s<C>("f15")),
                  REQUIRED(f16, key_s<C>("f16")), REQUIRED(f17, key_s<C>("f17")), OPTIONAL(f18, key_s<C>("f18")), REQUIRED(f19, key_s<C>("f19")), REQUIRED(f20, key_s<C>("f20")),
                  OPTIONAL(f21, key_s<C>("f21")), REQUIRED(f22, key_s<C>("f22")), REQUIRED(f23, key_s<C>("f23")), OPTIONAL(f24, key_s<C>("f24")), REQUIRED(f25, key_s<C>("f25")),
                  REQUIRED(f26, key_s<C>("f26")), OPTIONAL(f27, key_s<C>("f27")), REQUIRED(f28, key_s<C>("f28")), REQUIRED(f29, key_s<C>("f29")), OPTIONAL(f30, key_s<C>("f30")),
                  REQUIRED(f31, key_s<C>("f31")), REQUIRED(f32, key_s<C>("f32")), OPTIONAL(f33, key_s<C>("f33")), REQUIRED(f34, key_s<C>("f34")), REQUIRED(f35, key_s<C>("f35")),
                  OPTIONAL(f36, key_s<C>("f36")), REQUIRED(f37, key_s<C>("f37")), REQUIRED(f38, key_s<C>("f38")), OPTIONAL(f39, key_s<C>("f39")), REQUIRED(f40, key_s<C>("f40")),
                  REQUIRED(f41, key_s<C>("f41")), OPTIONAL(f42, key_s<C>("f42")), REQUIRED(f43, key_s<C>("f43")), REQUIRED(f44, key_s<C>("f44")), OPTIONAL(f45, key_s<C>("f45")),
                  REQUIRED(f46, key_s<C>("f46")), REQUIRED(f47, key_s<C>("f47")), OPTIONAL(f48, key_s<C>("f48")), REQUIRED(f49, key_s<C>("f49")), REQUIRED(f50, key_s<C>("f50")))
};

// fields named by the macro itself; narrow values only
template <class V> struct Plain
{
    bool yes;
    double ratio;
    std::unique_ptr<int> maybe;
    std::array<int, 2> pair;
    std::map<std::string, std::vector<std::string>> table;
    Bound<V> inner;
    Plain() : yes(false), ratio(0), pair() {}
    CONFIGOR_BIND(V, Plain, OPTIONAL(yes), REQUIRED(ratio), REQUIRED(maybe), REQUIRED(pair), OPTIONAL(table), REQUIRED(inner))
};

// a type without a default constructor, converted through its own binder
struct NoDefault
{
    int64_t n;
    explicit NoDefault(int64_t v) : n(v) {}
};
}  // namespace real

namespace std
{
template <> struct hash<real::Hooked> { size_t operator()(const real::Hooked& h) const { return (size_t)h.n * 3 + (size_t)h.form; } };
}  // namespace std

namespace configor
{
template <> class value_binder<real::NoDefault>
{
public:
    template <class V> static void to_value(V& c, const real::NoDefault& t)
    {
        real::user_hook("to_value of a binder");
        c = t.n;
    }
    template <class V> static real::NoDefault from_value(V&& c)
    {
        real::user_hook("from_value of a binder");
        return real::NoDefault(c.template get<int64_t>());
    }
};
}  // namespace configor

namespace real
{
enum Fit { MISMATCH, FITS, UNSPECIFIED };
inline Fit both(Fit a, Fit b)
{
    if (a == UNSPECIFIED || b == UNSPECIFIED) return UNSPECIFIED;  // which error comes first is not judged either
    return a == MISMATCH || b == MISMATCH ? MISMATCH : FITS;
}

template <class V, class T, class = void> struct Cv;

template <class V> struct Cv<V, bool>
{
    static const char* name() { return "bool"; }
    static void gen(bool& t, int) { t = draw(2) != 0; }
    static MV model(bool t) { return MV::boolean(t); }
    static Fit conv(const MV& m, MV& o) { o = m; return m.t == MV::Bool ? FITS : MISMATCH; }
};
template <class V, class T> struct Cv<V, T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
{
    static const char* name() { return sizeof(T) == 8 ? "int64" : sizeof(T) == 4 ? "int" : "small int"; }
    static void gen(T& t, int) { t = (T)model::gen_int(); }
    static MV model(T t) { return MV::integer((int64_t)t); }
    static Fit conv(const MV& m, MV& o)
    {
        o = m;
        if (m.t != MV::Int) return MISMATCH;
        return (int64_t)(T)m.i == m.i ? FITS : UNSPECIFIED;
    }
};
template <class V, class T> struct Cv<V, T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static const char* name() { return "float"; }
    static void gen(T& t, int) { t = (T)((int64_t)draw(2000001) - 1000000) / 64; }
    static MV model(T t) { return MV::floating((double)t); }
    static Fit conv(const MV& m, MV& o)
    {
        o = m;
        if (m.t != MV::Float) return MISMATCH;
        return (double)(T)m.d == m.d ? FITS : UNSPECIFIED;
    }
};
template <class V, class C> struct Cv<V, std::basic_string<C>>
{
    typedef std::basic_string<C> T;
    static const char* name() { return "string"; }
    static void gen(T& t, int)
    {
        model::Gen g;
        U u = model::gen_string(g);
        if (chance(1, 3)) u += U(chance(1, 25) ? 60 + draw(600) : 20 + draw(20), U'l');  // beyond any small-string buffer
        t = KT<C>::enc(u);
    }
    static MV model(const T& t) { return MV::string(KT<C>::dec(t)); }
    static Fit conv(const MV& m, MV& o) { o = m; return m.t == MV::Str ? FITS : MISMATCH; }
};
template <class V, class C> struct Cv<V, StrLike<C>>
{
    typedef StrLike<C> T;
    typedef std::basic_string<C> S;
    static const char* name() { return "string type of the user's own"; }
    static void gen(T& t, int d) { Cv<V, S>::gen(t.s, d); }
    static MV model(const T& t) { return Cv<V, S>::model(t.s); }
    static Fit conv(const MV& m, MV& o) { return Cv<V, S>::conv(m, o); }
};
template <class V> struct Cv<V, Hooked>
{
    static const char* name() { return "hooked"; }
    static void gen(Hooked& t, int) { t.n = model::gen_int(); t.form = (int)draw(3); }
    static MV model(const Hooked& t)
    {
        MV i = MV::integer(t.n);
        if (t.form == 0) return i;
        MV m = t.form == 1 ? MV::array() : MV::object();
        if (t.form == 1) { m.a.push_back(i); m.a.push_back(MV()); }
        else { m.o[key_u("n")] = i; m.o[key_u("opt")] = MV::boolean(true); }
        return m;
    }
    static Fit conv(const MV& m, MV& o)
    {
        const MV* i = &m;
        int form = 0;
        if (m.t == MV::Arr) { form = 1; if (m.a.empty()) return MISMATCH; i = &m.a[0]; }
        else if (m.t == MV::Obj) { form = 2; auto it = m.o.find(key_u("n")); if (it == m.o.end()) return MISMATCH; i = &it->second; }
        if (i->t != MV::Int) return MISMATCH;
        o = model(Hooked(i->i, form));
        return FITS;
    }
};
template <class V> struct Cv<V, Bound<V>>
{
    typedef Bound<V> T;
    typedef typename T::S S;
    static const char* name() { return "bound struct"; }
    static void gen(T& t, int d)
    {
        Cv<V, S>::gen(t.name, d);
        Cv<V, int>::gen(t.n, d);
        t.list.resize(draw(3));
        for (int& x : t.list) Cv<V, int>::gen(x, d);
        t.opt.reset();
        if (draw(2)) { t.opt = std::make_shared<S>(); Cv<V, S>::gen(*t.opt, d); }
    }
    static MV model(const T& t)
    {
        MV m = MV::object();
        m.o[key_u("name")] = Cv<V, S>::model(t.name);
        m.o[key_u("n")] = MV::integer(t.n);
        if (!t.list.empty())
        {
            MV l = MV::array();
            for (int x : t.list) l.a.push_back(MV::integer(x));
            m.o[key_u("list")] = l;
        }
        if (t.opt) m.o[key_u("opt")] = Cv<V, S>::model(*t.opt);
        return m;
    }
    static Fit conv(const MV& m, MV& o)
    {
        if (m.t != MV::Obj) return MISMATCH;
        o = MV::object();
        auto name = m.o.find(key_u("name")), n = m.o.find(key_u("n")), list = m.o.find(key_u("list")), opt = m.o.find(key_u("opt"));
        if (name == m.o.end() || n == m.o.end()) return MISMATCH;
        // a field that does not convert keeps its value
        MV x;
        Fit f = Cv<V, S>::conv(name->second, x);
        o.o[key_u("name")] = f == FITS ? x : MV::string(U());
        f = Cv<V, int>::conv(n->second, x);
        if (f == UNSPECIFIED) return UNSPECIFIED;
        o.o[key_u("n")] = f == FITS ? x : MV::integer(0);
        if (list != m.o.end())
        {
            if (list->second.t != MV::Arr) return UNSPECIFIED;
            for (auto& e : list->second.a) if (Cv<V, int>::conv(e, x) != FITS) return UNSPECIFIED;
            if (!list->second.a.empty()) o.o[key_u("list")] = list->second;
        }
        if (opt != m.o.end())
        {
            if (opt->second.t == MV::Null) {}
            else if (opt->second.t == MV::Str) o.o[key_u("opt")] = opt->second;
        }
        return FITS;
    }
};

// smart pointers
template <class V, class P, class T> struct CvPtr
{
    static const char* name() { return "smart pointer"; }
    static void gen(P& t, int d)
    {
        t.reset();
        if (draw(4) == 0) return;
        t.reset(new T());
        Cv<V, T>::gen(*t, d + 1);
    }
    static MV model(const P& t) { return t ? Cv<V, T>::model(*t) : MV(); }
    static Fit conv(const MV& m, MV& o)
    {
        if (m.t == MV::Null) { o = m; return FITS; }
        return Cv<V, T>::conv(m, o);
    }
};
template <class V, class T> struct Cv<V, std::unique_ptr<T>> : CvPtr<V, std::unique_ptr<T>, T> {};
template <class V, class T> struct Cv<V, std::shared_ptr<T>> : CvPtr<V, std::shared_ptr<T>, T> {};

// sequences
template <class V, class T> Fit conv_elements(const MV& m, MV& o)
{
    o = MV::array();
    if (m.t == MV::Null) return FITS;
    if (m.t == MV::Obj) return m.o.empty() ? UNSPECIFIED : MISMATCH;
    if (m.t != MV::Arr) return MISMATCH;
    Fit f = FITS;
    for (auto& e : m.a)
    {
        MV x;
        f = both(f, Cv<V, T>::conv(e, x));
        o.a.push_back(x);
    }
    return f;
}
inline uint32_t gen_size(int d) { return d > 1 ? draw(3) : chance(1, 30) ? (chance(1, 6) ? 60 + draw(600) : 6 + draw(40)) : draw(5); }
template <class V, class L, class T> struct CvSeq
{
    static const char* name() { return "sequence"; }
    static void gen(L& t, int d)
    {
        t.clear();
        for (uint32_t n = gen_size(d); n; --n) { T x = T(); Cv<V, T>::gen(x, d + 1); t.push_back(std::move(x)); }
    }
    static MV model(const L& t) { MV m = MV::array(); for (const auto& x : t) m.a.push_back(Cv<V, T>::model(x)); return m; }
    static Fit conv(const MV& m, MV& o) { return conv_elements<V, T>(m, o); }
};
template <class V, class T> struct Cv<V, std::vector<T>> : CvSeq<V, std::vector<T>, T> {};
template <class V, class T> struct Cv<V, std::deque<T>> : CvSeq<V, std::deque<T>, T> {};
template <class V, class T> struct Cv<V, std::list<T>> : CvSeq<V, std::list<T>, T> {};
template <class V, class T> struct Cv<V, std::forward_list<T>>
{
    typedef std::forward_list<T> L;
    static const char* name() { return "forward_list"; }
    static void gen(L& t, int d)
    {
        t.clear();
        for (uint32_t n = gen_size(d); n; --n) { T x = T(); Cv<V, T>::gen(x, d + 1); t.push_front(std::move(x)); }
    }
    static MV model(const L& t) { MV m = MV::array(); for (const auto& x : t) m.a.push_back(Cv<V, T>::model(x)); return m; }
    static Fit conv(const MV& m, MV& o) { return conv_elements<V, T>(m, o); }
};
template <class V, class T, size_t N> struct Cv<V, std::array<T, N>>
{
    typedef std::array<T, N> L;
    static const char* name() { return "std::array"; }
    static void gen(L& t, int d) { for (auto& x : t) Cv<V, T>::gen(x, d + 1); }
    static MV model(const L& t) { MV m = MV::array(); for (const auto& x : t) m.a.push_back(Cv<V, T>::model(x)); return m; }
    // the first elements, as many as there are; the others of a fresh array stay as they were
    static Fit conv(const MV& m, MV& o)
    {
        if (m.t == MV::Null || (m.t == MV::Obj && m.o.empty())) { o = m; return UNSPECIFIED; }
        MV c = m;
        if (c.t == MV::Arr && c.a.size() > N) c.a.resize(N);
        const Fit f = conv_elements<V, T>(c, o);
        while (o.a.size() < N) { T t = T(); o.a.push_back(Cv<V, T>::model(t)); }
        return f;
    }
};
template <class T> struct is_std_array : std::false_type {};
template <class T, size_t N> struct is_std_array<std::array<T, N>> : std::true_type {};

template <class V> struct Cv<V, Fifty<V>>
{
    typedef Fifty<V> T;
    static const char* name() { return "struct of fifty fields"; }
    static U key(int i) { char b[8]; snprintf(b, sizeof b, "f%d", i + 1); return key_u(b); }
    static bool optional(int i) { return (i + 1) % 3 == 0; }
    static void gen(T& t, int)
    {
        t = T();
        for (uint32_t n = draw(2) ? 50 : draw(5); n; --n) t.*T::field((int)draw(50)) = (int)draw(1000);
    }
    static MV model(const T& t)
    {
        MV m = MV::object();
        for (int i = 0; i < 50; ++i)
            if (!optional(i) || t.*T::field(i)) m.o[key(i)] = MV::integer(t.*T::field(i));
        return m;
    }
    static Fit conv(const MV& m, MV& o)
    {
        if (m.t != MV::Obj) return MISMATCH;
        o = MV::object();
        Fit f = FITS;
        for (int i = 0; i < 50; ++i)
        {
            auto it = m.o.find(key(i));
            if (it == m.o.end() && !optional(i)) return MISMATCH;
            MV x;
            int64_t v = 0;
            if (it != m.o.end())
            {
                const Fit g = Cv<V, int>::conv(it->second, x);
                if (g == FITS) v = x.i;
                if (g == UNSPECIFIED) f = g;
            }
            if (v || !optional(i)) o.o[key(i)] = MV::integer(v);
        }
        return f;
    }
};
template <class V> struct Cv<V, NoDefault>
{
    static const char* name() { return "type without default constructor"; }
    static void gen(NoDefault& t, int) { t.n = model::gen_int(); }
    static MV model(const NoDefault& t) { return MV::integer(t.n); }
    static Fit conv(const MV& m, MV& o) { o = m; return m.t == MV::Int ? FITS : MISMATCH; }
};
template <class V, class P> struct CvNoDefaultPtr
{
    static const char* name() { return "pointer to a type without default constructor"; }
    static void gen(P& t, int) { t.reset(); if (draw(4)) t.reset(new NoDefault(model::gen_int())); }
    static MV model(const P& t) { return t ? MV::integer(t->n) : MV(); }
    static Fit conv(const MV& m, MV& o) { o = m; return m.t == MV::Null || m.t == MV::Int ? FITS : MISMATCH; }
};
template <class V> struct Cv<V, std::unique_ptr<NoDefault>> : CvNoDefaultPtr<V, std::unique_ptr<NoDefault>> {};
template <class V> struct Cv<V, std::list<NoDefault>>
{
    typedef std::list<NoDefault> T;
    static const char* name() { return "list of a type without default constructor"; }
    static void gen(T& t, int d) { t.clear(); for (uint32_t n = gen_size(d); n; --n) t.push_back(NoDefault(model::gen_int())); }
    static MV model(const T& t) { MV m = MV::array(); for (auto& x : t) m.a.push_back(MV::integer(x.n)); return m; }
    static Fit conv(const MV& m, MV& o) { return conv_elements<V, NoDefault>(m, o); }
};
template <class V, class S> struct Cv<V, std::map<S, NoDefault>>
{
    typedef std::map<S, NoDefault> T;
    static const char* name() { return "map of a type without default constructor"; }
    static void gen(T& t, int d)
    {
        t.clear();
        for (uint32_t n = gen_size(d); n; --n) { S k; Cv<V, S>::gen(k, d); t.emplace(k, NoDefault(model::gen_int())); }
    }
    static MV model(const T& t) { MV m = MV::object(); for (auto& x : t) m.o[KT<typename S::value_type>::dec(x.first)] = MV::integer(x.second.n); return m; }
    static Fit conv(const MV& m, MV& o)
    {
        o = m;
        if (m.t == MV::Null) { o = MV::object(); return FITS; }
        if (m.t == MV::Arr) return m.a.empty() ? UNSPECIFIED : MISMATCH;
        if (m.t != MV::Obj) return MISMATCH;
        for (auto& e : m.o) if (e.second.t != MV::Int) return MISMATCH;
        return FITS;
    }
};
// sets: compared sorted
inline bool mv_less(const MV& a, const MV& b)
{
    if (a.t != b.t) return a.t < b.t;
    if (a.t == MV::Arr) return std::lexicographical_compare(a.a.begin(), a.a.end(), b.a.begin(), b.a.end(), mv_less);
    if (a.t == MV::Obj)
        return std::lexicographical_compare(a.o.begin(), a.o.end(), b.o.begin(), b.o.end(),
                                            [](const std::pair<const U, MV>& x, const std::pair<const U, MV>& y) { return x.first != y.first ? x.first < y.first : mv_less(x.second, y.second); });
    return a.t == MV::Int ? a.i < b.i : a.t == MV::Bool ? a.b < b.b : a.s < b.s;
}
inline void sort_unique(MV& m)
{
    std::sort(m.a.begin(), m.a.end(), mv_less);
    m.a.erase(std::unique(m.a.begin(), m.a.end(), [](const MV& a, const MV& b) { return !mv_less(a, b) && !mv_less(b, a); }), m.a.end());
}
template <class V, class L, class T> struct CvSet
{
    static const char* name() { return "set"; }
    static void gen(L& t, int d)
    {
        t.clear();
        for (uint32_t n = gen_size(d); n; --n) { T x = T(); Cv<V, T>::gen(x, d + 1); t.insert(std::move(x)); }
    }
    static MV model(const L& t) { MV m = MV::array(); for (const auto& x : t) m.a.push_back(Cv<V, T>::model(x)); sort_unique(m); return m; }
    static Fit conv(const MV& m, MV& o) { Fit f = conv_elements<V, T>(m, o); if (f == FITS) sort_unique(o); return f; }
};
template <class V, class T> struct Cv<V, std::set<T>> : CvSet<V, std::set<T>, T> { static const bool set_order = true; };
template <class V, class T> struct Cv<V, std::unordered_set<T>> : CvSet<V, std::unordered_set<T>, T> {};
// maps
template <class V, class L, class S, class T> struct CvMap
{
    typedef typename V::char_type C;
    static const char* name() { return "map"; }
    static void gen(L& t, int d)
    {
        t.clear();
        for (uint32_t n = gen_size(d); n; --n)
        {
            S k;
            Cv<V, S>::gen(k, d);
            T x = T();
            Cv<V, T>::gen(x, d + 1);
            t.emplace(std::move(k), std::move(x));
        }
    }
    static const std::basic_string<C>& chars(const std::basic_string<C>& k) { return k; }
    static const std::basic_string<C>& chars(const StrLike<C>& k) { return k.s; }
    static MV model(const L& t) { MV m = MV::object(); for (const auto& x : t) m.o[KT<C>::dec(chars(x.first))] = Cv<V, T>::model(x.second); return m; }
    static Fit conv(const MV& m, MV& o)
    {
        o = MV::object();
        if (m.t == MV::Null) return FITS;
        if (m.t == MV::Arr) return m.a.empty() ? UNSPECIFIED : MISMATCH;
        if (m.t != MV::Obj) return MISMATCH;
        Fit f = FITS;
        for (auto& e : m.o)
        {
            MV x;
            f = both(f, Cv<V, T>::conv(e.second, x));
            o.o[e.first] = x;
        }
        return f;
    }
};
template <class V, class S, class T> struct Cv<V, std::map<S, T>> : CvMap<V, std::map<S, T>, S, T> {};
template <class V, class S, class T> struct Cv<V, std::unordered_map<S, T>> : CvMap<V, std::unordered_map<S, T>, S, T> {};
template <class V> struct Cv<V, Plain<V>>
{
    typedef Plain<V> T;
    typedef std::map<std::string, std::vector<std::string>> M;
    static const char* name() { return "struct with plain field names"; }
    static void gen(T& t, int d)
    {
        Cv<V, bool>::gen(t.yes, d);
        Cv<V, double>::gen(t.ratio, d);
        Cv<V, std::unique_ptr<int>>::gen(t.maybe, d);
        Cv<V, std::array<int, 2>>::gen(t.pair, d);
        Cv<V, M>::gen(t.table, d + 1);
        Cv<V, Bound<V>>::gen(t.inner, d);
    }
    static MV model(const T& t)
    {
        MV m = MV::object();
        if (t.yes) m.o[key_u("yes")] = MV::boolean(true);
        m.o[key_u("ratio")] = MV::floating(t.ratio);
        m.o[key_u("maybe")] = Cv<V, std::unique_ptr<int>>::model(t.maybe);
        m.o[key_u("pair")] = Cv<V, std::array<int, 2>>::model(t.pair);
        if (!t.table.empty()) m.o[key_u("table")] = Cv<V, M>::model(t.table);
        m.o[key_u("inner")] = Cv<V, Bound<V>>::model(t.inner);
        return m;
    }
    // scalars that do not convert keep their value; other parts that do not are not judged
    static Fit conv(const MV& m, MV& o)
    {
        if (m.t != MV::Obj) return MISMATCH;
        o = MV::object();
        static const char* const required[] = { "ratio", "maybe", "pair", "inner" };
        for (const char* k : required) if (!m.o.count(key_u(k))) return MISMATCH;
        MV x;
        auto it = m.o.find(key_u("yes"));
        if (it != m.o.end() && it->second.t == MV::Bool && it->second.b) o.o[key_u("yes")] = it->second;
        Fit f = Cv<V, double>::conv(m.o.at(key_u("ratio")), x);
        if (f == UNSPECIFIED) return f;
        o.o[key_u("ratio")] = f == FITS ? x : MV::floating(0);
        f = Cv<V, std::unique_ptr<int>>::conv(m.o.at(key_u("maybe")), x);
        if (f == UNSPECIFIED) return f;
        o.o[key_u("maybe")] = f == FITS ? x : MV();
        if (Cv<V, std::array<int, 2>>::conv(m.o.at(key_u("pair")), x) != FITS) return UNSPECIFIED;
        o.o[key_u("pair")] = x;
        it = m.o.find(key_u("table"));
        if (it != m.o.end())
        {
            if (Cv<V, M>::conv(it->second, x) != FITS) return UNSPECIFIED;
            if (!x.o.empty()) o.o[key_u("table")] = x;
        }
        if (Cv<V, Bound<V>>::conv(m.o.at(key_u("inner")), x) != FITS) return UNSPECIFIED;
        o.o[key_u("inner")] = x;
        return FITS;
    }
};
// values themselves
template <class V, class A> struct Cv<V, configor::basic_value<A>>
{
    static const char* name() { return "value"; }
    static void gen(V& t, int) { model::Gen g; g.budget = 5; t = val<V>::build(model::gen_value(g)); }
    static MV model(const V& t) { return val<V>::lift(t); }
    static Fit conv(const MV& m, MV& o) { o = m; return FITS; }
};

template <class T> struct is_setlike : std::false_type {};
template <class T> struct is_setlike<std::set<T>> : std::true_type {};
template <class T> struct is_setlike<std::unordered_set<T>> : std::true_type {};

// a C++ object of one of the supported types, type-erased
template <class J> struct TypedVal
{
    typedef typename J::value V;
    typedef typename V::char_type C;
    virtual ~TypedVal() {}
    virtual const char* name() const = 0;
    virtual bool setlike() const = 0;
    virtual bool merges() const = 0;   // fields absent from the value keep what they had
    virtual void gen() = 0;
    virtual MV   model() const = 0;
    virtual Fit  conv(const MV& m, MV& o) const = 0;   // what reading m into this type gives
    virtual TypedVal* fresh() const = 0;               // another object of the same type, empty
    // object -> value: 0 direct construction, 1 copy construction, 2 assignment, 3 member, 4 emplace_back, 5 push_back
    virtual void to(V& v, int form) const = 0;
    // value -> object: 0 get<T>(), 1 get(object), 2 implicit conversion
    virtual bool from(const V& v, int form) = 0;
    virtual void in(std::basic_istream<C>& is) = 0;
    virtual void out(std::basic_ostream<C>& os) const = 0;
    virtual void parse(const std::basic_string<C>& s) = 0;
    // for callers that know a stream of the right kind only at run time
    void in_any(std::basic_istream<C>& is) { in(is); }
    template <class S> void in_any(S&) {}
    void out_any(std::basic_ostream<C>& os) const { out(os); }
    template <class S> void out_any(S&) const {}
    MV produced(const V& v) const
    {
        MV m = val<V>::lift(v);
        if (setlike() && m.t == MV::Arr) sort_unique(m);
        return m;
    }
};
const uint32_t TYPES = 51;
template <class J> TypedVal<J>* make_typed(uint32_t which);  // typed.cpp
template <class J> std::unique_ptr<TypedVal<J>> gen_typed(int which = -1)
{
    UserScope u;
    std::unique_ptr<TypedVal<J>> t(make_typed<J>(which >= 0 ? (uint32_t)which : draw(TYPES)));
    t->gen();
    return t;
}

}  // namespace real
