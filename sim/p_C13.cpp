// C13: conversions are all-or-reported, also when something fails inside.
#include "convs.hpp"
#include "docs.hpp"

const char* const sim::property = "C13";

using namespace real;

namespace
{
// one failure inside the conversion that f performs; f is repeatable
struct Plan
{
    bool     alloc, hook;
    uint64_t at, burst;
    int      kind;
    Plan() : alloc(false), hook(false), at(0), burst(1), kind(0) {}
};

template <class F> Plan plan(F f)
{
    Plan p;
    const uint32_t how = draw(4);
    if (how == 0) return p;
    hookctl() = HookCtl();
    const uint64_t n = count_allocs(f);
    const uint64_t h = hookctl().seen;
    if (how == 1 && h)
    {
        p.hook = true;
        p.at = draw((uint32_t)h);
        p.kind = (int)draw(3);
    }
    else if (n)
    {
        p.alloc = true;
        p.at = draw((uint32_t)n);
        p.burst = chance(1, 4) ? 1000000 : 1;
    }
    return p;
}
template <class F> Kind with_plan(const Plan& p, bool& fired, std::string& what, F f)
{
    hookctl() = HookCtl();
    hookctl().on = p.hook; hookctl().at = p.at; hookctl().kind = p.kind;
    if (p.alloc) sim::alloc_arm(p.at, p.burst);
    Kind k = guarded(f, &what);
    if (p.alloc) { fired = sim::alloc_fired() > 0; sim::alloc_disarm(); }
    else fired = hookctl().fired;
    hookctl() = HookCtl();
    if (fired) sim::nontrivial();
    return k;
}

template <class J> struct Case
{
    typedef typename J::value V;
    typedef typename V::char_type C;

    typedef std::unique_ptr<TypedVal<J>> Tp;

    // C++ -> value
    void to()
    {
        Tp t = gen_typed<J>();
        const MV want = t->model();
        const int form = (int)draw(6);
        MV before_m;
        V  base;
        if (form >= 2)
        {
            model::Gen g;
            g.budget = 4;
            before_m = form == 2 ? model::gen_value(g) : form == 3 ? MV::object() : MV::array();
            base = val<V>::build(before_m);
            if (form == 3) base[Keys<C>::opt()] = 1;
            if (form >= 4) base.push_back(nullptr);
            before_m = val<V>::lift(base);
        }
        Plan p = plan([&] {
            try { LibScope l; V v(base); t->to(v, form); }
            catch (...) { sim::violate("healthy-conversion-fails", "%s to a value", t->name()); }
        });
        V v;
        { LibScope l; v = base; }
        bool fired = false;
        std::string what;
        Kind k = with_plan(p, fired, what, [&] { t->to(v, form); });
        ev("to_value %s form=%d %s -> %s '%s'%s", t->name(), form, model::show(want, 160).c_str(), kind_name(k), what.c_str(), fired ? " fault" : "");
        MV after = t->model();
        if (!model::same(after, want, 0)) sim::violate("source-modified", "to_value of %s changed its source from %s to %s", t->name(), model::show(want).c_str(), model::show(after).c_str());
        MV now = val<V>::lift(v);  // valid whatever happened
        if (k != OK)
        {
            sim::probe("to-value-fails");
            if (!fired) sim::violate("healthy-conversion-fails", "%s %s to a value: %s '%s'", t->name(), model::show(want).c_str(), kind_name(k), what.c_str());
            if (form != 3 && !model::same(now, before_m, 0))
                sim::violate("failed-assignment-changes-target", "%s: %s became %s (%s)", t->name(), model::show(before_m).c_str(), model::show(now).c_str(), kind_name(k));
            return;
        }
        MV got;
        if (form <= 2) got = t->produced(v);
        else if (form == 3) got = t->produced(v.at(Keys<C>::name()));
        else
        {
            if (v.size() != base.size() + 1) sim::violate("wrong-conversion", "push_back of %s: %zu elements, expected %zu", t->name(), v.size(), base.size() + 1);
            got = t->produced(v[v.size() - 1]);
        }
        if (!model::same(got, want, 0))
            sim::violate(fired ? "silent-partial-conversion" : "wrong-conversion", "%s to a value: reported success with %s, expected %s", t->name(), model::show(got).c_str(), model::show(want).c_str());
    }

    // stored values for a type: what it produces, or another element somewhere
    static MV stored(const TypedVal<J>& type)
    {
        Tp t(type.fresh());
        t->gen();
        MV m = t->model();
        switch (draw(4))
        {
        case 0: case 1: break;
        case 2: mutate(m, 0); break;
        default:
            if (draw(3) == 0) { model::Gen g; g.budget = 6; m = model::gen_value(g); }
            else mutate(m, 1);
            break;
        }
        return m;
    }
    static MV odd_one()
    {
        switch (draw(6))
        {
        case 0: return MV();
        case 1: return MV::boolean(true);
        case 2: return MV::integer(5);
        case 3: return MV::floating(1.5);
        case 4: return MV::string(U(1, U'z'));
        default: { MV m = draw(2) ? MV::array() : MV::object(); return m; }
        }
    }
    static void mutate(MV& m, uint32_t depth)
    {
        if (m.t == MV::Arr && !m.a.empty() && chance(1, 4))
        {
            const MV x = m.a[draw((uint32_t)m.a.size())];
            if (draw(2)) m.a.pop_back();
            else for (uint32_t n = 1 + draw(3); n; --n) m.a.push_back(x);
            return;
        }
        if (m.t == MV::Arr && !m.a.empty() && (depth < 3)) { mutate(m.a[draw((uint32_t)m.a.size())], depth + (draw(3) == 0 ? 3 : 1)); return; }
        if (m.t == MV::Obj && !m.o.empty() && depth < 3)
        {
            auto it = m.o.begin();
            std::advance(it, (long)draw((uint32_t)m.o.size()));
            if (draw(3) == 0) m.o.erase(it);
            else mutate(it->second, depth + 1);
            return;
        }
        m = odd_one();
    }

    // value -> C++
    void from()
    {
        Tp target = gen_typed<J>();
        if (draw(2)) target.reset(target->fresh());
        const MV m = stored(*target);
        MV want;
        const Fit fit = target->conv(m, want);
        V v = val<V>::build(m);
        const int form = (int)draw(3);
        if (form == 1 && target->merges()) target.reset(target->fresh());
        const MV old = target->model();
        bool got = true;
        Plan p = plan([&] { Tp x(target->fresh()); try { LibScope l; x->from(v, form); } catch (...) {} });
        bool fired = false;
        std::string what;
        Kind k = with_plan(p, fired, what, [&] { got = target->from(v, form); });
        ev("from_value %s form=%d %s -> %s got=%d '%s'%s", target->name(), form, model::show(m, 160).c_str(), kind_name(k), (int)got, what.c_str(), fired ? " fault" : "");
        MV now = val<V>::lift(v);
        if (!model::same(now, m, 0)) sim::violate("source-modified", "reading a %s changed the value from %s to %s", target->name(), model::show(m).c_str(), model::show(now).c_str());
        MV is = target->model();
        if (k != OK && form != 1 && !model::same(is, old, 0)) sim::violate("failed-get-changes-target", "%s from %s", target->name(), model::show(m).c_str());
        judge("get", form, model::show(m), want, fit, k, got, fired, what, *target, 0);
    }
    void judge(const char* op, int form, const std::string& from, const MV& want, Fit fit, Kind k, bool got, bool fired, const std::string& what, const TypedVal<J>& target, double rel)
    {
        if (k != OK || !got)
        {
            sim::probe("from-value-reports");
            if (!fired && fit == FITS)
                sim::violate("healthy-conversion-fails", "%s form=%d of %s as %s: %s '%s' got=%d", op, form, from.c_str(), target.name(), kind_name(k), what.c_str(), (int)got);
            return;
        }
        if (fit == UNSPECIFIED) return;
        MV is = target.model();
        if (fit == MISMATCH)
            sim::violate("mismatch-not-reported", "%s form=%d of %s as %s reported success with %s", op, form, from.c_str(), target.name(), model::show(is).c_str());
        if (!model::same(is, want, rel))
            sim::violate(fired ? "silent-partial-conversion" : "wrong-conversion", "%s form=%d of %s as %s: reported success with %s, expected %s", op, form, from.c_str(), target.name(), model::show(is).c_str(), model::show(want).c_str());
    }

    // typed streaming: text -> object, object -> text
    void in()
    {
        Tp target = gen_typed<J>();
        MV m = stored(*target);
        MV want;
        Fit fit = target->conv(m, want);
        model::DocStyle st = model::gen_style();
        st.dups = false;
        std::basic_string<C> text = units(model::gen_doc(m, st), E_DEFAULT, C());
        if (!carries(S_CHUNK, text)) return;
        bool damaged = false;
        if (chance(1, 4) && text.size() > 1)
        {
            text.resize(draw((uint32_t)text.size()));
            sim::fault("storage-truncated");
            damaged = true;
            if (model::parse_units(text).ok) return;
        }
        Src<C> proto;
        proto.text = text;
        proto.chunk = 1 + draw(8);
        if (!damaged && chance(1, 4))
        {
            proto.fault.on = true;
            proto.fault.at = draw((uint32_t)text.size() + 1);
            proto.fault.kind = (int)draw(3);
        }
        const MV old = target->model();
        bool bad = false, read_fired = false;
        auto op = [&](TypedVal<J>& x) {
            Src<C> s = proto;
            ChunkSource<C> b(s);
            std::basic_istream<C> is(&b);
            is.unsetf(std::ios_base::skipws);
            try { x.in(is); } catch (...) { read_fired = s.fault.fired > 0; throw; }
            bad = is.fail();
            read_fired = s.fault.fired > 0;
        };
        Plan p = plan([&] { Tp x(target->fresh()); try { LibScope l; op(*x); } catch (...) {} });
        bad = read_fired = false;
        bool fired = false;
        std::string what;
        Kind k = with_plan(p, fired, what, [&] { op(*target); });
        ev(">> %s %s -> %s bad=%d '%s'%s", target->name(), show_units(text, 160).c_str(), kind_name(k), (int)bad, what.c_str(), fired || read_fired ? " fault" : "");
        if (read_fired) sim::nontrivial();
        if (k != OK || bad)
        {
            MV is = target->model();
            sim::probe("typed-stream-in-fails");
            if (!model::same(is, old, 0))
                sim::violate("failed-stream-in-changes-target", "%s from %s (%s '%s'): %s became %s", target->name(), show_units(text).c_str(), kind_name(k), what.c_str(), model::show(old).c_str(), model::show(is).c_str());
        }
        else if (damaged) fit = MISMATCH;
        else if (read_fired) return;  // C02's business: the error may have come after the document
        if (damaged && (k != OK || bad)) return;
        judge(">>", 0, show_units(text), want, fit, k, !bad, fired || read_fired, what, *target, 1e-9);
    }
    void out()
    {
        Tp t = gen_typed<J>();
        const MV want = t->model();
        std::basic_string<C> text;
        bool bad = false;
        auto op = [&] {
            std::basic_ostringstream<C> os;
            os.precision(17);
            t->out(os);
            bad = !os.good();
            UserScope u;
            text = os.str();
        };
        Plan p = plan([&] { try { LibScope l; op(); } catch (...) {} });
        bool fired = false;
        std::string what;
        text.clear();
        bad = false;
        Kind k = with_plan(p, fired, what, op);
        ev("<< %s %s -> %s bad=%d '%s'%s", t->name(), model::show(want, 160).c_str(), kind_name(k), (int)bad, what.c_str(), fired ? " fault" : "");
        MV now = t->model();
        if (!model::same(now, want, 0)) sim::violate("source-modified", "<< of %s", t->name());
        if (k != OK || bad)
        {
            if (!fired) sim::violate("healthy-conversion-fails", "<< of %s %s: %s '%s'", t->name(), model::show(want).c_str(), kind_name(k), what.c_str());
            return;
        }
        model::Ref r = model::parse_units(text);
        MV is = r.v;
        if (t->setlike() && is.t == MV::Arr) sort_unique(is);
        if (!r.ok || (!r.fuzzy && !model::same(is, want, 1e-9)))
            sim::violate(fired ? "silent-partial-conversion" : "wrong-conversion", "<< of %s %s wrote %s", t->name(), model::show(want).c_str(), show_units(text).c_str());
    }
    // J::dump / J::parse on typed data
    void round_trip()
    {
        Tp t = gen_typed<J>(), x(t->fresh());
        const MV want = t->model();
        bool fired = false;
        std::string what;
        auto op = [&] {
            V v;
            t->to(v, 0);
            std::basic_string<C> s = J::template dump<C>(v, { J::serializer::with_precision(17) });
            x->parse(s);
        };
        Plan p = plan([&] { try { LibScope l; op(); } catch (...) {} });
        x.reset(t->fresh());
        Kind k = with_plan(p, fired, what, op);
        ev("round trip %s %s -> %s '%s'", t->name(), model::show(want, 160).c_str(), kind_name(k), what.c_str());
        judge("round trip", 0, model::show(want), want, FITS, k, true, fired, what, *x, 1e-9);
    }

    void run()
    {
        switch (draw(9))
        {
        case 0: case 1: to(); break;
        case 2: case 3: case 4: from(); break;
        case 5: in(); break;
        case 6: out(); break;
        case 7: round_trip(); break;
        default: arrays(); break;
        }
    }

    // C arrays
    void arrays()
    {
        int src[3] = { (int)draw(100), 2, 3 };
        V v;
        bool fired = false;
        std::string what;
        const MV old;
        auto op = [&] { v = src; };
        Plan p = plan([&] { try { LibScope l; V x; x = src; } catch (...) {} });
        Kind k = with_plan(p, fired, what, op);
        ev("C array -> %s", kind_name(k));
        MV now = val<V>::lift(v);
        if (k != OK) { if (!fired || !model::same(now, old, 0)) sim::violate("wrong-conversion", "C array: %s %s", kind_name(k), model::show(now).c_str()); }
        else if (now.t != MV::Arr || now.a.size() != 3 || now.a[0].i != src[0] || now.a[1].i != 2 || now.a[2].i != 3)
            sim::violate(fired ? "silent-partial-conversion" : "wrong-conversion", "C array became %s", model::show(now).c_str());
        // any number of elements: the first ones are taken
        const MV els = [&] { MV x = MV::array(); for (uint32_t n = draw(7); n; --n) x.a.push_back(MV::integer(model::gen_int() % 1000)); if (!x.a.empty() && chance(1, 3)) x.a[draw((uint32_t)x.a.size())] = odd_one(); return x; }();
        V w = val<V>::build(els);
        int dst[3] = { -1, -1, -1 };
        MV head = els, want;
        if (head.a.size() > 3) head.a.resize(3);
        Fit f = conv_elements<V, int>(head, want);
        bool got = false;
        Plan q = plan([&] { try { LibScope l; int d[3]; w.get(d); } catch (...) {} });
        k = with_plan(q, fired, what, [&] { got = w.get(dst); });
        ev("C array of %s <- %s got=%d", model::show(els, 100).c_str(), kind_name(k), (int)got);
        const bool ok = k == OK && got;
        if (f == MISMATCH && ok) sim::violate("mismatch-not-reported", "C array from %s", model::show(els).c_str());
        if (f == FITS && !ok && !fired) sim::violate("healthy-conversion-fails", "C array from %s: %s", model::show(els).c_str(), kind_name(k));
        if (f == FITS && ok)
            for (size_t i = 0; i < 3; ++i)
            {
                const int64_t is = dst[i], should = i < head.a.size() ? head.a[i].i : -1;
                if (is != should) sim::violate(fired ? "silent-partial-conversion" : "wrong-conversion", "C array element %zu is %d, expected %lld", i, dst[i], (long long)should);
            }
    }
};

}  // namespace

void sim::run()
{
    for (uint32_t n = (sim::thorough() ? 6 : 3) + draw(4); n; --n)
    {
        if (draw(3) < 2) Case<configor::json>().run();
        else Case<configor::wjson>().run();
    }
}
