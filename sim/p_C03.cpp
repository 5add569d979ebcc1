// C03: the result of a parse depends only on the characters.
#include "docs.hpp"

const char* const sim::property = "C03";

using namespace real;

namespace
{
template <class J, class C> struct Prog
{
    static ParseRes read(const std::basic_string<C>& text, Enc enc, bool baseline, std::string& how)
    {
        Src<C>         s;
        ParseReq<J, C> q;
        s.text = text;
        q.enc  = enc;
        if (!baseline) gen_source<J, C>(s, q);
        how = show_req(q, s);
        if (q.kind >= S_STREAM && chance(1, 4))
        {
            q.skip   = 1 + draw(9);
            q.peeked = draw(2) != 0;
            std::basic_string<C> junk;
            for (size_t i = 0; i < q.skip; ++i) junk += C("[1,\"}x/ 9"[draw(9)]);
            s.text = junk + s.text;
            how += " after reading other data";
        }
        ParseRes r = Parser<J, C>::parse(s, q);
        if (!baseline) sim::probe(src_name(q.kind));
        return r;
    }

    static void run()
    {
        model::Gen g;
        g.budget = sim::thorough() ? 60 : 20;
        g.large  = 100;
        g.deep   = true;
        Doc<C> d = gen_document<C>(g);
        if (draw(2))
        {
            damage(d, 1 + draw(2));
            if (chance(1, 3)) { size_t n = d.text.size(); while (d.text.size() < n + 1 + draw(3)) d.text.insert(draw((uint32_t)d.text.size() + 1), 1, C(0)); sim::fault("storage-nul-inserted"); }
            sim::nontrivial();
        }
        ev_units("doc", d.text);
        std::string base_how, how;
        ParseRes base = read(d.text, d.enc, true, base_how);
        ev("base -> %s %s", kind_name(base.kind), base.ok() ? model::show(base.v, 200).c_str() : base.what.c_str());
        const uint32_t n = d.text.size() > 5000 ? 2 : 3 + draw(6);
        for (uint32_t i = 0; i < n; ++i)
        {
            ParseRes r = read(d.text, d.enc, false, how);
            ev("%s -> %s %s", how.c_str(), kind_name(r.kind), r.ok() ? "" : r.what.c_str());
            if (r.ok() != base.ok())
                sim::violate("acceptance-differs", "%s gives %s%s '%s', a string gives %s '%s' for %s", how.c_str(), kind_name(r.kind), r.stream_bad ? " (stream failed)" : "",
                             r.what.c_str(), kind_name(base.kind), base.what.c_str(), show_units(d.text).c_str());
            if (base.ok())
            {
                if (!model::same(r.v, base.v, 0))
                    sim::violate("value-differs", "%s gives %s, a string gives %s for %s", how.c_str(), model::show(r.v, 200).c_str(), model::show(base.v, 200).c_str(), show_units(d.text).c_str());
                if (!d.damaged) sim::nontrivial();
            }
            sim::probe(base.ok() ? "accepted" : "rejected");
        }
    }
};
}  // namespace

void sim::run()
{
    switch (draw(6))
    {
    case 0: case 1: case 2: Prog<configor::json, char>::run(); break;
    case 3: case 4: Prog<configor::wjson, wchar_t>::run(); break;
    case 5: Prog<configor::json, wchar_t>::run(); break;
    }
}
