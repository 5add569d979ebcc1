// The types of convs.hpp, instantiated; compiled in several parts (SIM_PART,
// SIM_WIDE) so that this can be done in parallel.
#include "convs.hpp"

namespace real
{
namespace
{
template <class T> T blank() { return T(); }
template <> inline NoDefault blank<NoDefault>() { return NoDefault(0); }

template <class J, class T> struct Typed : TypedVal<J>
{
    typedef typename J::value V;
    typedef typename V::char_type C;
    typedef Cv<V, T> K;
    T t;
    Typed() : t(blank<T>()) {}
    const char* name() const override { return K::name(); }
    bool setlike() const override { return is_setlike<T>::value; }
    bool merges() const override { return std::is_same<T, Bound<V>>::value || std::is_same<T, Fifty<V>>::value || std::is_same<T, Plain<V>>::value || is_std_array<T>::value; }
    void gen() override { K::gen(t, 0); }
    MV   model() const override { HookOff off; return K::model(t); }
    Fit  conv(const MV& m, MV& o) const override { return K::conv(m, o); }
    TypedVal<J>* fresh() const override { UserScope u; return new Typed(); }
    void to(V& v, int form) const override
    {
        switch (form)
        {
        case 0: { V x(t); v.swap(x); break; }
        case 1: { V x = t; v.swap(x); break; }
        case 2: v = t; break;
        case 3: v[Keys<C>::name()] = t; break;
        case 4: v.emplace_back(t); break;
        default: v.push_back(t); break;
        }
    }
    bool from(const V& v, int form) override
    {
        switch (form)
        {
        case 0: t = v.template get<T>(); break;
        case 1: return v.get(t);
        default: { T y = v; t = std::move(y); break; }
        }
        return true;
    }
    void in(std::basic_istream<C>& is) override { is >> J::wrap(t); }
    void out(std::basic_ostream<C>& os) const override { os << J::wrap(static_cast<const T&>(t)); }
    void parse(const std::basic_string<C>& s) override { T x = J::parse(s); t = std::move(x); }
};
}  // namespace

#if SIM_WIDE
typedef configor::wjson TJ;
#else
typedef configor::json TJ;
#endif
typedef TJ::value TV;
typedef TV::string_type TS;
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#if SIM_WIDE
#define SIM_PART_FN(k) SIM_CAT(make_w, k)
#else
#define SIM_PART_FN(k) SIM_CAT(make_n, k)
#endif
#define T_(...) return new Typed<TJ, __VA_ARGS__>()

#if SIM_PART == 0
TypedVal<TJ>* SIM_PART_FN(0)(uint32_t i)
{
    switch (i)
    {
    case 0: T_(bool);
    case 1: T_(int);
    case 2: T_(int64_t);
    case 3: T_(uint16_t);
    case 4: T_(double);
    case 5: T_(float);
    case 6: T_(TS);
    case 7: T_(Hooked);
    case 8: T_(Bound<TV>);
    default: T_(std::vector<Bound<TV>>);
    }
}
#elif SIM_PART == 1
TypedVal<TJ>* SIM_PART_FN(1)(uint32_t i)
{
    switch (i)
    {
    case 0: T_(std::unique_ptr<int>);
    case 1: T_(std::shared_ptr<TS>);
    case 2: T_(std::vector<int>);
    case 3: T_(std::vector<TS>);
    case 4: T_(std::deque<double>);
    case 5: T_(std::list<TS>);
    case 6: T_(std::forward_list<Hooked>);
    default: T_(std::set<TS>);
    }
}
#elif SIM_PART == 2
TypedVal<TJ>* SIM_PART_FN(2)(uint32_t i)
{
    switch (i)
    {
    case 0: T_(std::unordered_set<int>);
    case 1: T_(std::map<TS, int>);
    case 2: T_(std::unordered_map<TS, std::vector<TS>>);
    case 3: T_(std::array<TS, 3>);
    case 4: T_(std::vector<std::vector<TS>>);
    case 5: T_(std::map<TS, std::map<TS, std::vector<int>>>);
    case 6: T_(std::vector<std::shared_ptr<TS>>);
    default: T_(std::vector<Hooked>);
    }
}
#elif SIM_PART == 4
TypedVal<TJ>* SIM_PART_FN(4)(uint32_t i)
{
    switch (i)
    {
    case 0: T_(Fifty<TV>);
#if SIM_WIDE
    case 1: T_(std::vector<Fifty<TV>>);
#else
    case 1: T_(Plain<TV>);
#endif
    case 2: T_(std::unique_ptr<NoDefault>);
    case 3: T_(std::list<NoDefault>);
    case 4: T_(std::map<TS, NoDefault>);
    case 5: T_(std::array<std::array<int, 2>, 2>);
    case 6: T_(std::vector<std::array<bool, 3>>);
    default: T_(std::array<Bound<TV>, 2>);
    }
}
#elif SIM_PART == 5
TypedVal<TJ>* SIM_PART_FN(5)(uint32_t i)
{
    switch (i)
    {
    case 0: T_(std::set<Hooked>);
    case 1: T_(std::unordered_set<Hooked>);
    case 2: T_(std::unordered_map<TS, Hooked>);
    case 3: T_(std::array<Hooked, 3>);
    case 4: T_(std::deque<std::list<Hooked>>);
    case 5: T_(std::vector<StrLike<TV::char_type>>);
    case 6: T_(std::map<StrLike<TV::char_type>, Hooked>);
    case 7: T_(NoDefault);
    default: T_(std::unordered_map<TS, std::shared_ptr<Bound<TV>>>);
    }
}
#else
TypedVal<TJ>* SIM_PART_FN(0)(uint32_t);
TypedVal<TJ>* SIM_PART_FN(1)(uint32_t);
TypedVal<TJ>* SIM_PART_FN(2)(uint32_t);
TypedVal<TJ>* SIM_PART_FN(4)(uint32_t);
TypedVal<TJ>* SIM_PART_FN(5)(uint32_t);
template <> TypedVal<TJ>* make_typed<TJ>(uint32_t i)
{
    UserScope u;
    if (i < 10) return SIM_PART_FN(0)(i);
    if (i < 18) return SIM_PART_FN(1)(i - 10);
    if (i < 26) return SIM_PART_FN(2)(i - 18);
    if (i >= 42) return SIM_PART_FN(5)(i - 42);
    if (i >= 34) return SIM_PART_FN(4)(i - 34);
    switch (i - 26)
    {
    case 0: T_(std::map<TS, Hooked>);
    case 1: T_(std::list<std::vector<Hooked>>);
    case 2: T_(std::map<TS, Bound<TV>>);
    case 3: T_(TV::array_type);
    case 4: T_(std::unordered_set<TS>);
    case 5: T_(std::deque<std::unique_ptr<Hooked>>);
    case 6: T_(TV::object_type);
    default: T_(std::shared_ptr<Hooked>);
    }
}
#endif
}  // namespace real
