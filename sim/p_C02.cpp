// C02: a read error is never taken for the end of the document.
#include "docs.hpp"

const char* const sim::property = "C02";

using namespace real;

namespace
{
template <class J, class C> struct Prog
{
    typedef typename J::value V;

    static void attempt(const Doc<C>& d, bool judge_healthy)
    {
        Src<C>          s;
        ParseReq<J, C>  q;
        CountingHandler h;
        s.text = d.text;
        q.enc  = d.enc;
        if (chance(1, 3)) q.eh = &h;
        gen_source<J, C>(s, q, 1u << S_UNBUF | 1u << S_CHUNK | 1u << S_ADAPTER | 1u << S_FILE);
        if (q.kind == S_STRING) return;
        if (draw(8))
        {
            s.fault.on        = true;
            // anywhere, or close to the end, where a truncated document may look complete
            const uint32_t n  = (uint32_t)s.text.size();
            s.fault.at        = draw(2) ? draw(n + 1) : n - draw(n < 4 ? n + 1 : 5);
            s.fault.kind      = (int)draw(3);
            s.fault.transient = draw(2) != 0;
        }
        if (q.kind == S_FILE && (q.api == 3 || sizeof(C) > 1)) s.fault.transient = false;
        if (q.kind != S_FILE && q.api == 2 && chance(1, 3)) { q.exc = std::ios_base::badbit; }
        ev("parse %s", show_req(q, s).c_str());
        ParseRes r = Parser<J, C>::parse(s, q);
        const bool reported = r.kind != OK || r.stream_bad || h.n > 0;
        ev("-> %s '%s' bad=%d handler=%d fired=%zu read=%zu/%zu", kind_name(r.kind), r.what.c_str(), (int)r.stream_bad, h.n, s.fault.fired, s.pos, s.text.size());
        if (s.fault.fired)
        {
            sim::nontrivial();
            sim::probe(s.fault.at == s.text.size() ? "error-at-the-very-end" : "error-inside");
            // a pipe's error is only certain to be met if no NUL ends the document before it
            const bool assumed = q.kind == S_FILE && (q.api == 3 || sizeof(C) > 1);
            if (!reported && !(assumed && d.damaged))
                sim::violate("read-error-hidden", "%s: a read error after %zu of %zu units was not reported and the parse yielded %s from %s", show_req(q, s).c_str(), s.fault.at,
                             s.text.size(), model::show(r.v, 200).c_str(), show_units(s.text).c_str());
        }
        else if (judge_healthy)
        {
            if (reported) sim::violate("healthy-read-failed", "%s: %s '%s' for %s", show_req(q, s).c_str(), kind_name(r.kind), r.what.c_str(), show_units(s.text).c_str());
            if (!model::same(r.v, d.m)) sim::violate("healthy-read-wrong", "%s: %s for %s", show_req(q, s).c_str(), model::show(r.v).c_str(), show_units(s.text).c_str());
        }
    }

    static void run()
    {
        model::Gen g;
        g.budget    = sim::thorough() ? 60 : 20;
        g.max_depth = 3;
        g.large     = 200;
        Doc<C> d    = gen_document<C>(g);
        ev_units("doc", d.text);
        if (chance(1, 8)) { damage(d, 1); ev_units("damaged", d.text); }
        const uint32_t n = d.text.size() > 5000 ? 2 : 3 + draw(6);
        for (uint32_t i = 0; i < n; ++i) attempt(d, !d.damaged);
    }
};
}  // namespace

void sim::run()
{
    switch (draw(6))
    {
    case 0: case 1: case 2: Prog<configor::json, char>::run(); break;
    case 3: case 4: Prog<configor::wjson, wchar_t>::run(); break;
    case 5: Prog<configor::json, wchar_t>::run(); break;
    }
}
