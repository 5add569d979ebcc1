// C12: parsing always terminates soon after its source ends.
#include "docs.hpp"

const char* const sim::property = "C12";

using namespace real;

namespace
{
const size_t   READS = 64;       // requests after the end, whatever was open
const uint64_t FIXED = 50000;    // steps: a constant ...
const uint64_t EACH  = 2000;     // ... and per unit consumed (building and releasing the value)

U ascii(const std::string& s) { return U(s.begin(), s.end()); }

// text that leaves constructs open, with long runs
U open_text()
{
    static const char* const frag[] = { "/*", "*/", "//", "/", "*", "**", "\n", "\r", "\"", "\\", "\\u", "\\u12", "\\uD83D", "\\uD83D\\u", "[", "]", "{", "}", ",", ":", "-", "+",
                                        "1", "0", "12.", "1e", "1e+", "1.5e-", "t", "tru", "true", "nul", "null", "false", "\"a\"", "\"a\":", "\"k\":1,", "[1,", "{\"a\":[", " ", "\t", "/**/", "//x\n", "0.5" };
    const uint32_t N = sizeof frag / sizeof *frag;
    U t;
    for (uint32_t n = 1 + draw(12); n; --n)
    {
        const uint32_t f = draw(N + 3);
        uint32_t times = draw(5) ? 1 : 1 + draw(sim::thorough() ? 400 : 120);
        if (f < N)
        {
            const U x = ascii(frag[f]);
            for (; times; --times) t += x;
        }
        else if (f == N) t += model::gen_string(model::Gen());
        else if (f == N + 1) t += char32_t(0);
        else t += U(times, char32_t(0x80 + draw(0x3000)));
    }
    return t;
}

template <class J, class C> struct Prog
{
    typedef typename J::value V;
    typedef std::basic_string<C> S;

    struct Case { S text; Enc enc; bool healthy; MV m; };

    static Case gen()
    {
        Case c;
        c.enc = gen_enc<C>();
        c.healthy = false;
        if (draw(3) == 0)
        {
            if (c.enc == E_DEFAULT && chance(1, 6)) c.enc = E_IGNORE;
            c.text = units(open_text(), c.enc, C());
            return c;
        }
        model::Gen g;
        g.budget = sim::thorough() ? 60 : 20;
        g.max_depth = 4;
        c.m = model::gen_value(g);
        U d = model::gen_doc(c.m, model::gen_style());
        if (draw(3) == 0)
        {
            // many comments in a row, some of them open
            U p;
            for (uint32_t n = draw(6); n; --n) p += ascii(draw(2) ? "/* x **/" : "//y\n");
            d = draw(2) ? p + d : d + p;
        }
        if (draw(4) == 0) { const uint32_t depth = chance(1, 30) ? 200 + draw(1800) : 1 + draw(150); U o, e; for (uint32_t i = 0; i < depth; ++i) { o += U'['; e += U']'; } d = o + d + e; MV x = c.m; for (uint32_t i = 0; i < depth; ++i) { MV a = MV::array(); a.a.push_back(std::move(x)); x = std::move(a); } c.m = std::move(x); }
        gen_ignore(c.enc, c.m, d);
        c.text = units(d, c.enc, C());
        switch (draw(4))
        {
        case 0: c.healthy = true; break;
        case 1: c.text.resize(draw((uint32_t)c.text.size() + 1)); break;
        case 2: c.text.resize(draw((uint32_t)c.text.size() + 1)); c.text += units(open_text(), c.enc, C()); break;
        default: for (uint32_t n = 1 + draw(3); n; --n) { sim::fault((std::string("storage-") + damage_once(c.text)).c_str()); } break;
        }
        return c;
    }

    struct Run { Kind kind; std::string what; bool bad; int handled; MV v; bool reported() const { return kind != OK || bad || handled > 0; } };

    // several parses of one source; all but the first find it ended
    static void attempt(const Case& c)
    {
        Src<C>         s;
        ParseReq<J, C> q;
        IgnoringHandler h;
        s.text = c.text;
        q.enc  = c.enc;
        if (chance(1, 3)) q.eh = &h;
        gen_source<J, C>(s, q);
        s.max_after_end = READS;
        if (q.kind >= S_UNBUF && draw(3) == 0)
        {
            const uint32_t n = (uint32_t)s.text.size();
            s.fault.on = true;
            s.fault.at = draw(n + 1);
            s.fault.kind = (int)draw(3);
            s.fault.transient = draw(2) != 0;
            if (q.kind == S_FILE && (q.api == 3 || sizeof(C) > 1)) s.fault.transient = false;
        }
        const uint64_t limit = FIXED + EACH * c.text.size();
        s.strict = q.enc == E_BLOCK || q.enc == E_MIXED ? 0 : limit;
        ev("parse %s", show_req(q, s).c_str());
        ev_units("from", s.text);
        const uint64_t before = sim::steps();
        sim::set_step_budget(limit);
        const int64_t live = sim::lib_live();
        std::vector<Run> runs = all(s, q, h, (draw(3) == 0 ? 2 : 0) + 1);
        const uint64_t used = sim::steps() - before;
        sim::set_step_budget(200000000);
        if (sim::lib_live() != live) sim::violate("leak", "%lld library allocations left", (long long)(sim::lib_live() - live));
        ev("requests %zu, after the end %zu, after any signal %zu, steps %llu of %llu", s.calls, s.after_end, s.signalled, (unsigned long long)used, (unsigned long long)limit);
        for (size_t i = 0; i < runs.size(); ++i) ev("parse %zu -> %s '%s' bad=%d handled=%d", i, kind_name(runs[i].kind), runs[i].what.c_str(), (int)runs[i].bad, runs[i].handled);
        if (s.told) sim::nontrivial();
        if (s.told && runs[0].reported()) sim::probe("ended-inside-a-construct");
        if (s.told) sim::probe(("most-requests-after-signal-" + std::to_string(s.signalled < 4 ? s.signalled : s.signalled < 8 ? 4 : s.signalled < 16 ? 8 : s.signalled < 32 ? 16 : 32) + "+").c_str());
        if (s.seeked) sim::violate("seeks", "%s: the source was asked to seek", show_req(q, s).c_str());
        if (q.kind == S_ADAPTER && runs.size() == 1 && !s.fault.fired && s.calls > s.pos + s.after_end + 2)
            sim::violate("requests", "%zu requests for %zu units and %zu after the end", s.calls, s.pos, s.after_end);
        if (q.kind == S_UNBUF && runs.size() == 1 && s.calls > 4 * (s.pos + 1) + READS) sim::violate("requests", "%zu requests for %zu units", s.calls, s.pos);
        if (!runs[0].reported())
        {
            // each unit was asked for, in order, exactly once
            if (c.healthy && !s.fault.fired && !model::same(runs[0].v, c.m))
                sim::violate("units-lost", "%s: read %s from %s", show_req(q, s).c_str(), model::show(runs[0].v, 200).c_str(), show_units(s.text).c_str());
            if (c.healthy && runs.size() == 1 && (q.kind == S_UNBUF || q.kind == S_ADAPTER) && s.pos != s.text.size())
                sim::violate("units-unread", "%s: a complete document was read up to unit %zu of %zu", show_req(q, s).c_str(), s.pos, s.text.size());
        }
        else if (c.healthy && !s.fault.fired) sim::violate("healthy-read-failed", "%s: %s '%s' for %s", show_req(q, s).c_str(), kind_name(runs[0].kind), runs[0].what.c_str(), show_units(s.text).c_str());
        for (size_t i = 1; i < runs.size(); ++i)
            if (s.ended && !runs[i].reported() && q.kind != S_STRING && q.kind != S_CSTR && ended_before[i])
                sim::violate("value-after-end", "%s: parse %zu of an ended source yields %s", show_req(q, s).c_str(), i, model::show(runs[i].v, 100).c_str());
    }
    static std::vector<bool> ended_before;

    struct IgnoringHandler : configor::error_handler
    {
        int n;
        IgnoringHandler() : n(0) {}
        void handle(std::exception_ptr) override { UserScope u; ++n; seam("error_handler"); }
    };

    template <class F> static Run once(IgnoringHandler& h, F f)
    {
        Run r;
        const int before = h.n;
        r.bad = false;
        {
            V v;
            r.kind = guarded([&] { f(v, r.bad); }, &r.what);
            if (r.kind == OK) r.v = val<V>::lift(v);
            LibScope l;
            v = nullptr;
        }
        r.handled = h.n - before;
        return r;
    }

    static void again(Src<C>& s)
    {
        s.signalled = s.after_end = 0;
        s.told = s.ended;  // after a passing error there is more to come
        sim::set_step_budget(FIXED + EACH * s.text.size());
    }

    static std::vector<Run> all(Src<C>& s, ParseReq<J, C>& q, IgnoringHandler& h, int times)
    {
        std::vector<Run> runs;
        ended_before.assign(times, false);
        std::unique_ptr<std::basic_streambuf<C>> b;
        std::unique_ptr<AdapterSource<C>> a;
        std::unique_ptr<std::basic_istream<C>> is;
        if (q.kind == S_FILE)
        {
            files(s, q, h, times, runs);
            return runs;
        }
        switch (q.kind)
        {
        case S_UNBUF: b.reset(new UnbufSource<C>(s)); break;
        case S_CHUNK: b.reset(new ChunkSource<C>(s)); break;
        case S_ADAPTER: a.reset(new AdapterSource<C>(s)); is.reset(new configor::basic_iadapterstream<C>(*a)); break;
        case S_STREAM: case S_SSTREAM: is.reset(new std::basic_istringstream<C>(s.text)); break;
        default: break;
        }
        if (b) is.reset(new std::basic_istream<C>(b.get()));
        for (int i = 0; i < times; ++i)
        {
            ended_before[i] = s.ended || q.kind == S_SSTREAM || q.kind == S_STREAM;
            if (is && i && draw(2)) is->clear();
            if (i) again(s);
            runs.push_back(once(h, [&](V& v, bool& bad) {
                if (is) Parser<J, C>::from_stream(*is, q, v, bad);
                else if (q.kind == S_STRING) Parser<J, C>::with_options(q, [&](typename Parser<J, C>::Opts o) { J::template parse<C>(v, s.text, o); });
                else Parser<J, C>::with_options(q, [&](typename Parser<J, C>::Opts o) { J::parse(v, s.text.c_str(), o); });
            }));
            // a parse that failed early leaves the rest of the text in a stringstream
            if ((q.kind == S_SSTREAM || q.kind == S_STREAM) && i + 1 < times && runs.back().reported()) break;
        }
        return runs;
    }

    static void files(Src<char>& s, ParseReq<J, char>& q, IgnoringHandler& h, int times, std::vector<Run>& runs)
    {
        FileHandle f;
        if (q.api == 3)
        {
            open_pipe(f, s.text.substr(0, s.fault.on ? s.fault.at : s.text.size()), s.fault.on);
            if (s.fault.on) s.fire();
        }
        else open_cookie(f, s);
        for (int i = 0; i < times; ++i)
        {
            ended_before[i] = s.ended && feof(f.f);
            if (i) again(s);
            runs.push_back(once(h, [&](V& v, bool&) { Parser<J, C>::with_options(q, [&](typename Parser<J, C>::Opts o) { J::template parse<char>(v, f.f, o); }); }));
        }
    }
    static void files(Src<wchar_t>& s, ParseReq<J, wchar_t>& q, IgnoringHandler& h, int, std::vector<Run>& runs)
    {
        runs.push_back(once(h, [&](V& v, bool&) { Parser<J, C>::file(s, q, v, true); }));
    }

    static void run()
    {
        const Case c = gen();
        const uint32_t n = 3 + draw(5);
        for (uint32_t i = 0; i < n; ++i) attempt(c);
    }
};
template <class J, class C> std::vector<bool> Prog<J, C>::ended_before;
}  // namespace

void sim::run()
{
    switch (draw(6))
    {
    case 0: case 1: case 2: Prog<configor::json, char>::run(); break;
    case 3: case 4: Prog<configor::wjson, wchar_t>::run(); break;
    case 5: Prog<configor::json, wchar_t>::run(); break;
    }
}
