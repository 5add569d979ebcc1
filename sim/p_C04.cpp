// C04: an acknowledged save loads back equal; a torn save never loads.
#include "docs.hpp"

const char* const sim::property = "C04";

using namespace real;

namespace
{
// one file of the simulated disk
template <class C> struct File
{
    enum { EMPTY, ACKED, TORN } state;
    std::basic_string<C> content, text;  // text: what the complete document is
    MV   m;
    Enc  enc;
    bool wide_value;                     // E_IGNORE only: saved from wide strings
    File() : state(EMPTY), enc(E_DEFAULT), wide_value(false) {}
};

template <class J> struct Mem
{
    typename J::value v;
    MV   m;
    bool have;
    Mem() : have(false) {}
};

template <class C> struct Disk
{
    File<C> f[3];
    Mem<configor::json>  n;
    Mem<configor::wjson> w;

    Mem<configor::json>&  mem(configor::json*) { return n; }
    Mem<configor::wjson>& mem(configor::wjson*) { return w; }

    template <class J> DumpReq<C> gen_save()
    {
        DumpReq<C> q = gen_dump_options<C>(true);
        q.use_options = true;
        if (!q.fmt) { q.fmt = 1; q.precision = 17; }
        // the serializer writes structure as plain characters: only supersets of ASCII can be loaded
        do q.enc = gen_enc<C>(); while (q.enc == E_BLOCK || q.enc == E_MIXED);
        if (sizeof(C) == sizeof(typename J::value::char_type) && chance(1, 10)) { q.enc = E_IGNORE; q.escape = false; }
        q.kind = (int)draw(K_KINDS);
        if (sizeof(C) > 1 && q.kind == K_FILE) q.kind = K_OSTREAM;
        q.bulk = draw(2) != 0;
        if (q.kind >= K_OSTREAM && chance(1, 4))
        {
            // through operator<<, everything set on the caller's stream
            q.api = 1; q.enc = E_DEFAULT; q.use_options = false; q.set_stream = true;
            static const int wd[] = { 0, 1, 2, 4, 9 };
            q.width = wd[draw(5)];
            if (chance(1, 3)) q.fill = C('\t');
            q.os_precision = 17;
            q.os_float = draw(2) ? std::ios_base::scientific : std::ios_base::fmtflags();
        }
        return q;
    }

    template <class J> void save()
    {
        typedef typename J::value V;
        Mem<J>& me = mem((J*)nullptr);
        File<C>& file = f[draw(3)];
        if (!me.have || draw(3))
        {
            model::Gen g;
            g.budget = sim::thorough() ? 60 : 25;
            g.large  = 150;
            me.m = draw(5) ? model::gen_container(g) : model::gen_value(g);
            LibScope l;
            me.v = val<V>::build(me.m);
            me.have = true;
        }
        else sim::probe("loaded-value-saved-again");
        DumpReq<C> q = gen_save<J>();
        Snk<C> healthy;
        DumpRes r;
        {
            DumpReq<C> p = q;
            if (p.kind != K_OSTREAM && p.kind != K_ADAPTER) p.kind = q.api == 1 ? (int)K_SSTREAM : (int)K_RETURN;
            r = Dumper<J, C>::dump(healthy, me.v, p);
            if (r.reported(0)) sim::violate("healthy-save-failed", "saving %s to %s: %s '%s'", model::show(me.m).c_str(), snk_name(p.kind), kind_name(r.kind), r.what.c_str());
        }
        Snk<C> s;
        if (draw(2)) s.buf = 1 + draw(40);
        CountingHandler h;
        const bool with_handler = q.api == 0 && chance(1, 4);
        if (with_handler) q.eh = &h;
        const uint32_t mode = draw(4);
        if (mode == 1 && q.kind >= K_OSTREAM && q.kind != K_SSTREAM)
        {
            s.fault.on = true;
            s.fault.at = draw((uint32_t)healthy.got.size() + 1);
            s.fault.kind = (int)draw(4);
            s.fault.transient = draw(2) != 0;
        }
        const bool alloc = mode == 2 && chance(1, 2);
        if (alloc) sim::alloc_arm(draw(40), 1 + draw(2));
        r = Dumper<J, C>::dump(s, me.v, q);
        if (alloc) sim::alloc_disarm();
        file.m = me.m; file.enc = q.enc; file.text = healthy.got; file.wide_value = sizeof(typename V::char_type) > 1;
        const bool acked = !r.reported(h.n);
        ev("save file=%d value=%s sink=%s api=%d enc=%d indent=%d escape=%d fmt=%d fault=%s -> %s", (int)(&file - f), model::show(me.m, 120).c_str(), snk_name(q.kind), q.api, (int)q.enc,
           (int)q.indent, (int)q.escape, q.fmt, alloc ? "alloc" : s.fault.str().c_str(), acked ? "acknowledged" : kind_name(r.kind));
        if (acked)
        {
            file.state = File<C>::ACKED;
            file.content = s.got;  // as stored
            sim::probe("save-acknowledged");
            if (chance(1, 3)) crash(file);
        }
        else
        {
            // the application may retry, or leave the half-written file behind
            sim::probe("save-failed");
            file.content = s.got;
            file.state = File<C>::TORN;
            if (chance(1, 3)) crash(file);
        }
        if (!model::same(val<V>::lift(me.v), me.m, 0)) sim::violate("value-changed-by-save", "%s became %s", model::show(me.m).c_str(), model::show(val<V>::lift(me.v)).c_str());
    }

    // power loss before the data reached the disk: a prefix survives, with or without a zero-filled tail
    void crash(File<C>& file)
    {
        if (file.content.empty()) return;
        const size_t n = file.content.size();
        size_t keep = draw(2) ? draw((uint32_t)n) : n - 1 - draw(n < 4 ? (uint32_t)n : 4);
        file.content.resize(keep);
        uint32_t zeros = draw(3) ? 0 : 1 + draw(20);
        file.content.append(zeros, C(0));
        file.state = File<C>::TORN;
        sim::fault(zeros ? "crash-torn-write-zero-tail" : "crash-torn-write");
        ev("crash file=%d keeps %zu of %zu, %u zeros", (int)(&file - f), keep, n, zeros);
    }

    template <class J> void load()
    {
        typedef typename J::value V;
        const uint32_t i = draw(3);
        File<C>& file = f[i];
        if (file.state == File<C>::EMPTY) return;
        if (file.enc == E_IGNORE && file.wide_value != (sizeof(typename V::char_type) > 1)) return;
        Src<C> s;
        ParseReq<J, C> q;
        s.text = file.content;
        q.enc = file.enc;
        CountingHandler h;
        if (chance(1, 4)) q.eh = &h;
        gen_source<J, C>(s, q);
        if (q.kind >= S_UNBUF && !(q.kind == S_FILE && (sizeof(C) > 1 || q.api == 3)) && chance(1, 5))
        {
            s.fault.on = true;
            s.fault.at = draw((uint32_t)s.text.size() + 1);
            s.fault.transient = draw(2) != 0;
        }
        V out;
        prefill(out);
        ParseRes r = Parser<J, C>::parse(s, q, out);
        const bool ok = r.ok() && !h.n;
        ev("load file=%u state=%d %s -> %s %s", i, (int)file.state, show_req(q, s).c_str(), kind_name(r.kind), ok ? "" : r.what.c_str());
        std::basic_string<C> kept = file.content;
        if (ok)
        {
            MV got = val<V>::lift(out);
            sim::probe("load-ok");
            if (file.state == File<C>::TORN && kept != file.text)
            {
                // (a number cut short may still be one)
                if (file.m.t == MV::Arr || file.m.t == MV::Obj || file.m.t == MV::Str)
                    sim::violate("torn-document-loaded", "%s loaded as %s although only %zu of %zu units survived: %s", show_req(q, s).c_str(), model::show(got, 200).c_str(),
                                 kept.size(), file.text.size(), show_units(kept).c_str());
            }
            else
            {
                sim::nontrivial();
                if (!model::same(got, file.m))
                    sim::violate("loaded-value-differs", "%s: saved %s, loaded %s from %s", show_req(q, s).c_str(), model::show(file.m, 300).c_str(), model::show(got, 300).c_str(), show_units(kept).c_str());
                // go on with what was loaded
                Mem<J>& me = mem((J*)nullptr);
                me.m = got;
                LibScope l;
                me.v = std::move(out);
                me.have = true;
            }
        }
        else
        {
            sim::probe("load-failed");
            if (!s.fault.fired && (file.state == File<C>::ACKED || kept == file.text))
                sim::violate("acknowledged-save-does-not-load", "%s: saved %s, loading fails with %s '%s' from %s", show_req(q, s).c_str(), model::show(file.m, 300).c_str(), kind_name(r.kind),
                             r.what.c_str(), show_units(kept).c_str());
            if (file.state == File<C>::TORN) { sim::nontrivial(); sim::probe("torn-document-rejected"); }
        }
        LibScope l;
        out = nullptr;
    }

    void run()
    {
        const uint32_t n = 6 + draw(sim::thorough() ? 30 : 10);
        for (uint32_t k = 0; k < n; ++k)
        {
            const bool wide = draw(3) == 2;
            if (k % 2 == 0) { if (wide) save<configor::wjson>(); else save<configor::json>(); }
            else { if (wide) load<configor::wjson>(); else load<configor::json>(); }
            if (draw(2)) { if (draw(2)) load<configor::wjson>(); else load<configor::json>(); }
        }
    }
};
}  // namespace

void sim::run()
{
    if (draw(3)) { Disk<char> d; d.run(); }
    else { Disk<wchar_t> d; d.run(); }
}
