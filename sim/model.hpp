// Executable reference model: values, documents, and a parser of the accepted
// grammar, written from the documentation and independent of /repo's code.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace model
{

typedef std::u32string U;

struct MV
{
    enum T { Null, Bool, Int, Float, Str, Arr, Obj } t;
    bool    b;
    int64_t i;
    double  d;
    bool    fuzzy;  // float too extreme to be judged
    U       s;
    std::vector<MV> a;
    std::map<U, MV> o;
    MV() : t(Null), b(false), i(0), d(0), fuzzy(false) {}
    static MV boolean(bool v) { MV m; m.t = Bool; m.b = v; return m; }
    static MV integer(int64_t v) { MV m; m.t = Int; m.i = v; return m; }
    static MV floating(double v) { MV m; m.t = Float; m.d = v; return m; }
    static MV string(const U& v) { MV m; m.t = Str; m.s = v; return m; }
    static MV array() { MV m; m.t = Arr; return m; }
    static MV object() { MV m; m.t = Obj; return m; }
};

bool same(const MV& a, const MV& b, double rel = 1e-9);  // floats within rel
std::string show(const MV& m, size_t max = 400);          // for messages
uint64_t digest(const MV& m);
size_t weight(const MV& m);

struct Gen
{
    uint32_t max_depth, max_items, max_str, budget;
    uint32_t large;   // one value in so many is far larger than any buffer (0: none)
    bool     floats, unicode, controls, nul_in_str, ff_safe, deep;
    Gen() : max_depth(4), max_items(5), max_str(10), budget(40), large(0), floats(true), unicode(true), controls(true), nul_in_str(true), ff_safe(true), deep(false) {}
};
MV  gen_value(Gen& g, uint32_t depth = 0);
MV  gen_container(Gen& g);                 // array, object
MV  gen_large(Gen& g, bool container);     // long strings and keys, many elements, deep nesting
U   gen_string(const Gen& g);
uint32_t gen_char(const Gen& g);
int64_t  gen_int();
double   gen_float();

struct DocStyle { bool spaces, comments, trailing, plus, uescapes, dups; };
DocStyle gen_style();
U gen_doc(const MV& m, const DocStyle& st);   // a text that denotes m (duplicate keys: first wins)

std::string  to_utf8(const U& s);
std::wstring to_wide(const U& s);
U from_utf8(const std::string& s);            // malformed bytes become 0x110000+byte
U from_wide(const std::wstring& s);

// what the units denote: code points, ended by an undecodable item (BAD)
const uint32_t BAD = 0xffffffffu;
std::vector<uint32_t> decode_units(const std::string& s);
std::vector<uint32_t> decode_units(const std::wstring& s);

struct Ref { bool ok; bool fuzzy; MV v; std::string why; size_t used; };
Ref parse(const std::vector<uint32_t>& cps);
template <typename S> Ref parse_units(const S& s) { return parse(decode_units(s)); }

}  // namespace model
