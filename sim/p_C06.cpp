// C06: every failure reaches the error handler exactly once.
#include "docs.hpp"

const char* const sim::property = "C06";

using namespace real;

namespace
{
struct ThrowingHandler : configor::error_handler
{
    int n;
    ThrowingHandler() : n(0) {}
    void handle(std::exception_ptr) override { UserScope u; ++n; throw SimRaw{ 7 }; }
};
template <configor::error_policy P> struct Policy : configor::error_handler_with<P>
{
    int n;
    Policy() : n(0) {}
    void handle(std::exception_ptr p) override
    {
        ++n;
        configor::error_handler_with<P>::handle(p);
    }
};

// one operation, repeatable with or without a handler
struct Op
{
    virtual ParseRes run(configor::error_handler* eh) = 0;
    virtual std::string str() = 0;
    virtual ~Op() {}
};

// handlers that live through several operations
struct Handlers
{
    CountingHandler                        counting;
    Policy<configor::error_policy::record> record;
};

void expect(Op& op, const ParseRes& base, Handlers& kept)
{
    const bool fails = base.kind != OK;
    auto bad = [&](const char* cls, const char* policy, const ParseRes& r, int n) {
        sim::violate(cls, "%s: without a handler %s '%s'; with a %s handler %s '%s' and %d call(s)", op.str().c_str(), kind_name(base.kind), base.what.c_str(), policy, kind_name(r.kind),
                     r.what.c_str(), n);
    };
    const uint32_t which = draw(6);
    if (fails) sim::nontrivial();
    switch (which)
    {
    case 0:
    {
        CountingHandler fresh;
        CountingHandler& h = draw(2) ? kept.counting : fresh;
        h.n = 0;
        ParseRes r = op.run(&h);
        ev("counting handler: %s n=%d %s '%s'", kind_name(r.kind), h.n, kind_name(h.kind), h.what.c_str());
        if (h.n != (fails ? 1 : 0)) bad("handler-call-count", "returning", r, h.n);
        if (r.kind != OK) bad("handled-error-thrown", "returning", r, h.n);
        if (fails && h.null) bad("null-error", "returning", r, h.n);
        if (fails && (h.kind != base.kind || h.what != base.what))
            sim::violate("other-error", "%s: without a handler %s '%s', the handler got %s '%s'", op.str().c_str(), kind_name(base.kind), base.what.c_str(), kind_name(h.kind), h.what.c_str());
        break;
    }
    case 1:
    {
        Policy<configor::error_policy::ignore> h;
        ParseRes r = op.run(&h);
        ev("ignore: %s n=%d", kind_name(r.kind), h.n);
        if (r.kind != OK) bad("ignore-throws", "ignoring", r, h.n);
        if (h.n != (fails ? 1 : 0)) bad("handler-call-count", "ignoring", r, h.n);
        break;
    }
    case 2:
    {
        Policy<configor::error_policy::record> fresh;
        Policy<configor::error_policy::record>& h = draw(2) ? kept.record : fresh;
        h.n = 0;
        const std::string was = h.error;
        ParseRes r = op.run(&h);
        ev("record: %s n=%d '%s'", kind_name(r.kind), h.n, h.error.c_str());
        const bool conf = base.kind == DES || base.kind == SER || base.kind == TYPE || base.kind == KEY || base.kind == ITER || base.kind == CONF;
        if (h.n != (fails ? 1 : 0)) bad("handler-call-count", "recording", r, h.n);
        if (!fails && (r.kind != OK || h.error != was)) bad("record-of-nothing", "recording", r, h.n);
        if (fails && conf && (r.kind != OK || h.error != base.what || h.error.empty()))
            sim::violate("wrong-record", "%s: without a handler '%s', recorded '%s' (%s)", op.str().c_str(), base.what.c_str(), h.error.c_str(), kind_name(r.kind));
        // an error of another kind passes through the recording handler
        if (fails && !conf && r.kind != OK && r.kind != base.kind) bad("record-throws-other", "recording", r, h.n);
        break;
    }
    case 3:
    {
        Policy<configor::error_policy::strict> h;
        ParseRes r = op.run(&h);
        ev("strict: %s n=%d '%s'", kind_name(r.kind), h.n, r.what.c_str());
        if (h.n != (fails ? 1 : 0)) bad("handler-call-count", "strict", r, h.n);
        if (r.kind != base.kind || r.what != base.what) bad("strict-differs", "strict", r, h.n);
        break;
    }
    case 4:
    {
        // memory runs out inside: the handler is told, or the failure came before it was known
        CountingHandler h;
        sim::alloc_arm(~0ull, 0);
        op.run(&h);
        const uint64_t n = sim::alloc_disarm();
        if (!n) break;
        h = CountingHandler();
        sim::alloc_arm(draw((uint32_t)n), chance(1, 3) ? 1 + draw(3) : 1);
        ParseRes r = op.run(&h);
        const bool fired = sim::alloc_fired() != 0;
        sim::alloc_disarm();
        if (fired) sim::fault("alloc-fail");
        ev("without memory: %s n=%d %s '%s'", kind_name(r.kind), h.n, kind_name(h.kind), h.what.c_str());
        if (h.n > 1 || (h.n && r.kind != OK)) bad("handler-call-count", "returning (memory short)", r, h.n);
        if (r.kind != OK && r.kind != NOMEM) bad("handled-error-thrown", "returning (memory short)", r, h.n);
        if (r.kind == OK && !h.n && (fails || !model::same(r.v, base.v))) bad("failure-swallowed", "returning (memory short)", r, h.n);
        break;
    }
    default:
    {
        ThrowingHandler h;
        ParseRes r = op.run(&h);
        ev("throwing: %s n=%d", kind_name(r.kind), h.n);
        if (h.n != (fails ? 1 : 0)) bad("handler-call-count", "throwing", r, h.n);
        if (r.kind != (fails ? SIMRAW : OK)) bad("handler-exception-lost", "throwing", r, h.n);
        break;
    }
    }
}

template <class J, class C> struct ParseOp : Op
{
    typedef typename J::value V;
    Src<C>         proto;
    ParseReq<J, C> q;
    ParseRes run(configor::error_handler* eh) override
    {
        Src<C> s = proto;
        ParseReq<J, C> p = q;
        p.eh = eh;
        V out;
        ParseRes r = Parser<J, C>::parse(s, p, out);
        r.v = val<V>::lift(out);  // valid whatever happened
        LibScope l;
        out = nullptr;
        return r;
    }
    std::string str() override { return "parse " + show_req(q, proto) + " of " + show_units(proto.text, 120); }
};

template <class J, class C> struct DumpOp : Op
{
    typedef typename J::value V;
    V          v;
    MV         m;
    Snk<C>     proto;
    DumpReq<C> q;
    ParseRes run(configor::error_handler* eh) override
    {
        Snk<C> s = proto;
        DumpReq<C> p = q;
        p.eh = eh;
        DumpRes d = Dumper<J, C>::dump(s, v, p);
        ParseRes r;
        r.kind = d.kind; r.what = d.what; r.stream_bad = d.stream_bad;
        return r;
    }
    std::string str() override { return std::string("dump ") + snk_name(q.kind) + " fault=" + proto.fault.str() + " enc=" + std::to_string((int)q.enc) + " of " + model::show(m, 120); }
    ~DumpOp() { LibScope l; v = nullptr; }
};

template <class J, class C> void parse_case(Handlers& kept)
{
    ParseOp<J, C> op;
    model::Gen g;
    g.budget = sim::thorough() ? 50 : 12;
    g.large  = 200;
    Doc<C> d = gen_document<C>(g);
    if (chance(1, 6) && d.enc == E_DEFAULT) d.enc = E_THROW;
    const uint32_t mode = draw(5);
    if (mode == 1 || mode == 2) damage(d, 1 + draw(2));
    if (mode == 3 && !d.text.empty() && draw(2)) { d.text[0] = C("\"x\x01}]:,"[draw(7)]); sim::fault("bad-first-character"); }
    op.proto.text = d.text;
    op.q.enc = d.enc;
    CountingHandler dummy;
    op.q.eh = &dummy;  // no operator>>
    gen_source<J, C>(op.proto, op.q);
    op.q.eh = nullptr;
    if (mode >= 3 && op.q.kind >= S_UNBUF)
    {
        op.proto.fault.on = true;
        op.proto.fault.at = chance(1, 3) ? 0 : draw((uint32_t)d.text.size() + 1);
        op.proto.fault.kind = (int)draw(3);
        op.proto.fault.transient = draw(2) != 0 && !(op.q.kind == S_FILE && (sizeof(C) > 1 || op.q.api == 3));
    }
    ParseRes base = op.run(nullptr);
    ev("%s -> %s '%s'", op.str().c_str(), kind_name(base.kind), base.what.c_str());
    sim::probe(base.kind == OK ? "parse-succeeds" : "parse-fails");
    for (uint32_t n = 1 + draw(3); n; --n) expect(op, base, kept);
}

template <class J> void spoil(typename J::value& v, MV& m)
{
    // text that cannot be decoded or encoded
    typedef typename J::value::char_type C;
    sim::fault("unencodable-text");
    std::basic_string<C> s(1, C('a'));
    const uint32_t k = draw(4);
    if (sizeof(C) == 1)
    {
        static const char* const b[] = { "\xff", "\xc3", "\xe4\xb8", "\x80" };
        for (const char* p = b[k]; *p; ++p) s += (C)*p;
    }
    else
    {
        static const uint32_t b[] = { 0x110000, 0x7fffffff, 0x200041, 0xfffffff0 };
        s += (C)b[k];
    }
    if (draw(2)) s += C('b');
    LibScope l;
    if (v.is_array()) v.push_back(s);
    else if (v.is_object()) v[s] = 1;
    else v = s;
    UserScope u;
    m = val<typename J::value>::lift(v);
}

template <class J, class C> void dump_case(Handlers& kept)
{
    DumpOp<J, C> op;
    model::Gen g;
    g.budget = sim::thorough() ? 50 : 12;
    g.large  = 200;
    op.m = model::gen_value(g);
    {
        LibScope l;
        op.v = val<typename J::value>::build(op.m);
    }
    op.q = gen_dump_options<C>(false);
    if (chance(1, 3))
    {
        static const Enc encs[] = { E_AUTO, E_UTF8, E_UTF16, E_UTF32, E_BLOCK, E_THROW };
        op.q.enc = encs[draw(6)];
    }
    op.q.kind = (int)draw(K_KINDS);
    if (sizeof(C) > 1 && op.q.kind == K_FILE) op.q.kind = K_OSTREAM;
    op.q.bulk = draw(2) != 0;
    const uint32_t mode = draw(4);
    if (mode == 1) spoil<J>(op.v, op.m);
    if (mode >= 2 && op.q.kind >= K_OSTREAM && op.q.kind != K_SSTREAM)
    {
        if (draw(2)) op.proto.buf = 1 + draw(8);
        op.proto.fault.on = true;
        op.proto.fault.at = draw(60);
        op.proto.fault.kind = (int)draw(4);
        op.proto.fault.transient = draw(2) != 0;
    }
    ParseRes base = op.run(nullptr);
    ev("%s -> %s '%s'", op.str().c_str(), kind_name(base.kind), base.what.c_str());
    sim::probe(base.kind == OK ? "dump-succeeds" : "dump-fails");
    for (uint32_t n = 1 + draw(3); n; --n) expect(op, base, kept);
}
}  // namespace

void sim::run()
{
    Handlers kept;
    for (uint32_t n = 2 + draw(3); n; --n)
        switch (draw(8))
        {
        case 0: case 1: parse_case<configor::json, char>(kept); break;
        case 2: parse_case<configor::wjson, wchar_t>(kept); break;
        case 3: parse_case<configor::json, wchar_t>(kept); break;
        case 4: case 5: dump_case<configor::json, char>(kept); break;
        case 6: dump_case<configor::wjson, wchar_t>(kept); break;
        default: dump_case<configor::wjson, char>(kept); break;
        }
}
