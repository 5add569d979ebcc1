// C01: a dump that reports no error delivered the whole document.
#include "real.hpp"

const char* const sim::property = "C01";

using namespace real;

namespace
{
template <class J, class C> struct Prog
{
    typedef typename J::value V;
    typedef std::basic_string<C> S;

    static DumpReq<C> gen_req(const DumpReq<C>& base)
    {
        DumpReq<C> q = base;
        q.kind = (int)draw(K_KINDS);
        if (sizeof(C) > 1 && q.kind == K_FILE) q.kind = K_ADAPTER;
        q.bulk = draw(2) != 0;
        if (!q.use_options && q.enc == E_DEFAULT && q.kind >= K_OSTREAM) q.api = (int)draw(2);
        return q;
    }

    static S healthy(const V& v, const DumpReq<C>& base)
    {
        Snk<C> s;
        DumpReq<C> q = base;
        q.kind = K_RETURN;
        q.eh = nullptr;
        DumpRes r = Dumper<J, C>::dump(s, v, q);
        if (r.kind != OK) sim::violate("healthy-dump-failed", "dump to a string failed: %s: %s", kind_name(r.kind), r.what.c_str());
        return s.got;
    }

    static void one(const V& v, const DumpReq<C>& base, const S& text)
    {
        Snk<C>          s;
        CountingHandler h;
        DumpReq<C>      q = gen_req(base);
        const bool with_handler = q.api == 0 && chance(1, 3);
        if (with_handler) { q.eh = &h; }
        if (chance(1, 2)) s.buf = 1 + draw(24);
        // what goes wrong
        const uint32_t mode = draw(5);  // 0,1 device; 2 allocation; 3 nothing; 4 the caller's stream is bad from the start
        bool alloc = false;
        if (mode <= 1 && q.kind >= K_OSTREAM && q.kind != K_SSTREAM)
        {
            s.fault.on        = true;
            s.fault.at        = draw((uint32_t)text.size() + 2);
            s.fault.kind      = (int)draw(4);
            s.fault.transient = draw(2) != 0;
        }
        else if (mode == 2)
        {
            alloc = true;
            uint64_t n = count_allocs([&] { Snk<C> t; t.buf = s.buf; CountingHandler h2; DumpReq<C> q2 = q; if (q.eh) q2.eh = &h2; Dumper<J, C>::dump(t, v, q2); });
            if (n == 0) n = 1;
            sim::alloc_arm(draw((uint32_t)n), 1 + draw(3));
        }
        const bool born_bad = mode == 4 && q.kind == K_OSTREAM;
        ev("dump sink=%s api=%d handler=%d buf=%zu fault=%s mode=%u enc=%d", snk_name(q.kind), q.api, with_handler, s.buf, s.fault.str().c_str(), mode, (int)q.enc);
        DumpRes r = born_bad ? null_stream(v, q, s) : Dumper<J, C>::dump(s, v, q);
        if (alloc) { sim::alloc_disarm(); sim::probe(sim::alloc_fired() ? "alloc-failure-during-dump" : "alloc-failure-not-reached"); }
        const bool reported = r.reported(h.n);
        ev("-> %s '%s' bad=%d handler=%d delivered=%zu/%zu", kind_name(r.kind), r.what.c_str(), (int)r.stream_bad, h.n, s.got.size(), text.size());
        if (h.n > 1) sim::violate("handler-called-twice", "the error handler was called %d times", h.n);
        if (s.fault.fired || (alloc && sim::alloc_fired()) || born_bad) { sim::nontrivial(); if (reported) sim::probe("failure-reported"); }
        const bool prefix = s.got.size() <= text.size() && text.compare(0, s.got.size(), s.got) == 0;
        if (!reported && s.got != text)
            sim::violate("silent-loss", "dump to %s reported success but delivered %zu of %zu characters%s: %s | expected %s", snk_name(q.kind), s.got.size(),
                         text.size(), prefix ? "" : " (and different ones)", show_units(s.got, 150).c_str(), show_units(text, 150).c_str());
        if (reported && !s.fault.fired && !(alloc && sim::alloc_fired()) && !born_bad)
            sim::violate("false-alarm", "dump to %s of a healthy sink reported a failure: %s %s", snk_name(q.kind), kind_name(r.kind), r.what.c_str());
        if (!prefix)
            sim::violate("not-a-prefix", "what %s received is no prefix of the healthy text: %s | %s", snk_name(q.kind), show_units(s.got, 150).c_str(), show_units(text, 150).c_str());
    }

    static DumpRes null_stream(const V& v, const DumpReq<C>& q, Snk<C>& s)
    {
        DumpRes r;
        bool bad = false;
        const uint32_t how = draw(3);
        sim::fault("bad-stream-from-the-start");
        r.kind = guarded(
            [&] {
                SinkBuf<C> b(s);
                std::basic_ostream<C> os(how == 0 ? nullptr : &b);
                if (how == 1) os.setstate(std::ios_base::failbit);
                if (how == 2) os.setstate(std::ios_base::badbit);
                Dumper<J, C>::to_stream(os, v, q, bad);
                if (s.buf && how) { UserScope u; os.flush(); bad = !os.good(); }
            },
            &r.what);
        r.stream_bad = bad;
        return r;
    }

    static void run()
    {
        model::Gen g;
        g.budget = sim::thorough() ? 80 : 30;
        g.large  = 150;
        MV m = model::gen_value(g);
        DumpReq<C> base = gen_dump_options<C>(true);
        if (chance(1, 3))
        {
            static const Enc encs[] = { E_AUTO, E_UTF8, E_UTF16, E_UTF32, E_BLOCK, E_MIXED };
            base.enc = encs[draw(6)];
        }
        LibScope l;
        V v = val<V>::build(m);
        UserScope u;
        S text = healthy(v, base);
        ev("value %s", model::show(m).c_str());
        ev_units("text", text);
        // the healthy text is the whole document
        if (base.enc == E_DEFAULT || base.enc == E_AUTO)
        {
            model::Ref ref = model::parse_units(text);
            if (!ref.fuzzy && (!ref.ok || !model::same(ref.v, m, base.fmt ? 1e-9 : 2e-5)))
                sim::violate("wrong-document", "the text of %s does not denote it: %s (%s)", model::show(m).c_str(), show_units(text).c_str(), ref.ok ? model::show(ref.v).c_str() : ref.why.c_str());
        }
        const uint32_t n = text.size() > 5000 ? 2 : 2 + draw(4);
        for (uint32_t i = 0; i < n; ++i) one(v, base, text);
        if (!model::same(val<V>::lift(v), m, 0)) sim::violate("source-modified", "dumping modified the value");
        LibScope l2;
        v = nullptr;
    }
};
}  // namespace

void sim::run()
{
    switch (draw(6))
    {
    case 0: case 1: case 2: Prog<configor::json, char>::run(); break;
    case 3: Prog<configor::wjson, wchar_t>::run(); break;
    case 4: Prog<configor::json, wchar_t>::run(); break;
    default: Prog<configor::wjson, char>::run(); break;
    }
}
