// Bridge between the simulator and the real library: every seam (stream buffer,
// C FILE, adapter, encoding, handler) implemented by the simulator.
#pragma once
#include "model.hpp"
#include "simcore.hpp"

#define CONFIGOR_ASSERT(...) \
    ((__VA_ARGS__) ? (void)0 : sim::violate("assert", "CONFIGOR_ASSERT(%s) failed", #__VA_ARGS__))
#include <configor/json.hpp>

#include <cerrno>
#include <clocale>
#include <cstdio>
#include <cstring>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <iomanip>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <unistd.h>

namespace real
{
using model::MV;
using model::U;
using sim::chance;
using sim::draw;
using sim::ev;
using sim::LibScope;
using sim::UserScope;

template <class C> struct KT;
template <> struct KT<char>
{
    typedef configor::json J;
    static std::string enc(const U& s) { return model::to_utf8(s); }
    static U dec(const std::string& s) { return model::from_utf8(s); }
    static const char* name() { return "char"; }
};
template <> struct KT<wchar_t>
{
    typedef configor::wjson J;
    static std::wstring enc(const U& s) { return model::to_wide(s); }
    static U dec(const std::wstring& s) { return model::from_wide(s); }
    static const char* name() { return "wchar_t"; }
};

// ---- values ------------------------------------------------------------------

template <class V> struct val
{
    typedef typename V::char_type C;
    typedef typename V::string_type S;
    // strings may have an allocator of their own
    struct K
    {
        static const std::basic_string<C>& same(const std::basic_string<C>& s) { return s; }
        template <class O> static std::basic_string<C> same(const O& s) { UserScope u; return std::basic_string<C>(s.begin(), s.end()); }
        static U dec(const S& s) { return KT<C>::dec(same(s)); }
        static S enc(const U& s) { return own(KT<C>::enc(s), std::is_same<S, std::basic_string<C>>()); }
        static S own(std::basic_string<C>&& s, std::true_type) { return std::move(s); }
        static S own(std::basic_string<C>&& s, std::false_type) { return S(s.begin(), s.end()); }
    };

    static V build(const MV& m)
    {
        switch (m.t)
        {
        case MV::Null: return V();
        case MV::Bool: return V(m.b);
        case MV::Int: return V((int64_t)m.i);
        case MV::Float: return V(m.d);
        case MV::Str: return V(K::enc(m.s));
        case MV::Arr:
        {
            V v(configor::value_constant::array);
            for (auto& x : m.a) v.push_back(build(x));
            return v;
        }
        case MV::Obj:
        {
            V v(configor::value_constant::object);
            for (auto& x : m.o) v[K::enc(x.first)] = build(x.second);
            return v;
        }
        }
        return V();
    }

    static MV lift(const V& v)
    {
        switch (v.type())
        {
        case configor::value_constant::null: return MV();
        case configor::value_constant::boolean: return MV::boolean(v.data().boolean);
        case configor::value_constant::integer: return MV::integer(v.data().integer);
        case configor::value_constant::floating: return MV::floating(v.data().floating);
        case configor::value_constant::string: return MV::string(K::dec(*v.data().string));
        case configor::value_constant::array:
        {
            MV m = MV::array();
            for (auto& x : *v.data().vector) m.a.push_back(lift(x));
            return m;
        }
        case configor::value_constant::object:
        {
            MV m = MV::object();
            for (auto& x : *v.data().object) m.o.insert(std::make_pair(K::dec(x.first), lift(x.second)));
            return m;
        }
        }
        sim::violate("bad-type-tag", "a value has type tag %d", (int)v.type());
    }
};

// ---- outcomes ------------------------------------------------------------------

enum Kind { OK, DES, SER, TYPE, KEY, ITER, CONF, OOR, NOMEM, IOFAIL, SIMERR, SIMRAW, STDEXC, OTHER };
inline const char* kind_name(Kind k)
{
    static const char* const n[] = { "ok", "deserialization_error", "serialization_error", "type_error", "invalid_key", "invalid_iterator",
                                     "configor_exception", "out_of_range", "bad_alloc", "ios_failure", "sim_error", "sim_raw", "std_exception", "other" };
    return n[k];
}

struct SimError : std::runtime_error { SimError() : std::runtime_error("simulated fault") {} };
struct SimRaw { int x; };

inline Kind classify(std::exception_ptr p, std::string* what = nullptr)
{
    try { std::rethrow_exception(p); }
    catch (const configor::configor_deserialization_error& e) { if (what) *what = e.what(); return DES; }
    catch (const configor::configor_serialization_error& e) { if (what) *what = e.what(); return SER; }
    catch (const configor::configor_type_error& e) { if (what) *what = e.what(); return TYPE; }
    catch (const configor::configor_invalid_key& e) { if (what) *what = e.what(); return KEY; }
    catch (const configor::configor_invalid_iterator& e) { if (what) *what = e.what(); return ITER; }
    catch (const configor::configor_exception& e) { if (what) *what = e.what(); return CONF; }
    catch (const std::out_of_range& e) { if (what) *what = e.what(); return OOR; }
    catch (const std::bad_alloc&) { if (what) *what = "bad_alloc"; return NOMEM; }
    catch (const SimError& e) { if (what) *what = e.what(); return SIMERR; }
    catch (const std::ios_base::failure& e) { if (what) *what = "ios_base::failure"; return IOFAIL; }
    catch (const std::exception& e) { if (what) *what = e.what(); return STDEXC; }
    catch (const SimRaw&) { if (what) *what = "raw"; return SIMRAW; }
    catch (...) { return OTHER; }
}

// runs f as library code
template <class F> Kind guarded(F f, std::string* what = nullptr)
{
    try
    {
        LibScope s;
        f();
        return OK;
    }
    catch (...)
    {
        UserScope u;
        return classify(std::current_exception(), what);
    }
}

// the number of library allocations f makes
template <class F> uint64_t count_allocs(F f)
{
    sim::alloc_arm(~0ull, 0);
    f();
    return sim::alloc_disarm();
}

// ---- hooks run inside every callback of the library into user code ------------------

struct Hook { virtual void at(const char* where) = 0; virtual ~Hook() {} };
inline Hook*& hook() { static thread_local Hook* h = nullptr; return h; }
struct HookScope { Hook* old; explicit HookScope(Hook* h) : old(hook()) { hook() = h; } ~HookScope() { hook() = old; } };
inline void seam(const char* where)
{
    sim::point();
    Hook* h = hook();
    if (h) { HookScope off(nullptr); h->at(where); }
}

inline void throw_fault(int kind)
{
    switch (kind)
    {
    case 1: throw SimRaw{ 1 };
    case 2: throw std::ios_base::failure("simulated read error");
    default: throw SimError();
    }
}

struct Fault
{
    bool   on;
    size_t at;         // units that pass before it
    int    kind;       // sources: 0..2 what is thrown; sinks: 0..2 throw, 3 refuse
    bool   transient;  // fires once, then the device works again
    size_t fired;
    Fault() : on(false), at(0), kind(0), transient(false), fired(0) {}
    bool due(size_t pos) const { return on && pos >= at && !(transient && fired); }
    std::string str() const
    {
        char b[80];
        if (!on) return "none";
        snprintf(b, sizeof b, "%s kind=%d at=%zu", transient ? "transient" : "persistent", kind, at);
        return b;
    }
};

// ---- sources ---------------------------------------------------------------------

template <class C> struct Src
{
    typedef std::basic_string<C> S;
    S      text;
    Fault  fault;
    size_t pos;            // units handed out
    size_t after_end;      // requests after the end or a persistent error was signalled
    size_t chunk;          // largest chunk
    bool   nul_end;        // adapters: end with NUL instead of EOF
    bool   bulk;           // adapters: override the block read
    bool   ended;
    size_t max_after_end;  // a source gives up here
    bool   seeked;
    bool   steady;         // always deliver the largest chunk, without a choice
    size_t calls;          // requests
    size_t signalled;      // requests after the end or any error was signalled
    uint64_t strict;       // not 0: bound what follows a signalled end to this many steps
    bool   told;
    Src() : pos(0), after_end(0), chunk(1), nul_end(false), bulk(false), ended(false), max_after_end(2000), seeked(false), steady(false), calls(0), signalled(0), strict(0), told(false) {}
    size_t next_chunk() const { return steady ? chunk : 1 + draw((uint32_t)chunk); }

    void touch(const char* where)
    {
        seam(where);
        ++calls;
        if (told && ++signalled > max_after_end && strict)
            sim::violate("reads-on", "%s: %zu requests after the source signalled its end or an error", where, signalled);
        if (ended && ++after_end > max_after_end)
            sim::violate("reads-forever", "%s: %zu requests after the end of the source was signalled", where, after_end);
    }
    // the end, an error or the terminating NUL has been signalled
    void tell()
    {
        if (told) return;
        told = true;
        if (strict) sim::set_step_budget(strict);
    }
    void finish() { ended = true; tell(); }
    void fire()
    {
        tell();
        ++fault.fired;
        sim::fault(fault.transient ? "read-error-transient" : "read-error");
        ev("fault read-error %s pos=%zu", fault.str().c_str(), pos);
        if (!fault.transient) ended = true;
    }
    size_t left() const { return text.size() - pos; }
    // units available before the end or the fault
    size_t avail(size_t want) const
    {
        size_t n = left() < want ? left() : want;
        if (fault.on && !(fault.transient && fault.fired) && fault.at >= pos && fault.at - pos < n) n = fault.at - pos;
        return n;
    }
};

template <class C> class UnbufSource : public std::basic_streambuf<C>
{
    typedef std::char_traits<C> T;
    typedef typename T::int_type int_type;
    Src<C>& s;
public:
    explicit UnbufSource(Src<C>& src) : s(src) {}
protected:
    int_type look(const char* w)
    {
        UserScope u;
        s.touch(w);
        if (s.fault.due(s.pos)) { s.fire(); throw_fault(s.fault.kind); }
        if (!s.left()) { s.finish(); return T::eof(); }
        return T::to_int_type(s.text[s.pos]);
    }
    int_type underflow() override { return look("underflow"); }
    int_type uflow() override
    {
        int_type c = look("uflow");
        if (s.left()) ++s.pos;
        return c;
    }
    typename std::basic_streambuf<C>::pos_type seekoff(typename std::basic_streambuf<C>::off_type, std::ios_base::seekdir, std::ios_base::openmode) override { s.seeked = true; return -1; }
};

template <class C> class ChunkSource : public std::basic_streambuf<C>
{
    typedef std::char_traits<C> T;
    typedef typename T::int_type int_type;
    Src<C>& s;
    std::basic_string<C> buf;
public:
    explicit ChunkSource(Src<C>& src) : s(src) {}
protected:
    int_type underflow() override
    {
        UserScope u;
        if (this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        s.touch("underflow");
        if (s.fault.due(s.pos)) { s.fire(); throw_fault(s.fault.kind); }
        if (!s.left()) { s.finish(); return T::eof(); }
        size_t n = s.avail(s.next_chunk());
        buf = s.text.substr(s.pos, n);
        s.pos += n;
        this->setg(&buf[0], &buf[0], &buf[0] + n);
        return T::to_int_type(buf[0]);
    }
};

template <class C> struct AdapterSource : configor::basic_iadapter<C>
{
    Src<C>& s;
    explicit AdapterSource(Src<C>& src) : s(src) {}
    virtual ~AdapterSource() {}
    void read(C* p, size_t n) override
    {
        if (!s.bulk) { configor::basic_iadapter<C>::read(p, n); return; }
        for (size_t i = 0; i < n; ++i)
        {
            p[i] = AdapterSource::read();
            if (s.ended)  // the rest is filled with the end marker
            {
                for (size_t k = i + 1; k < n; ++k) p[k] = p[i];
                return;
            }
        }
    }
    C read() override
    {
        UserScope u;
        s.touch("iadapter::read");
        if (s.fault.due(s.pos)) { s.fire(); throw_fault(s.fault.kind); }
        if (!s.left())
        {
            s.finish();
            return s.nul_end ? C(0) : std::char_traits<C>::to_char_type(std::char_traits<C>::eof());
        }
        if (s.strict && s.text[s.pos] == C(0)) s.tell();  // an adapter may end with NUL
        return s.text[s.pos++];
    }
};

// a FILE over a cookie (char)
inline ssize_t cookie_read(void* c, char* b, size_t n)
{
    UserScope u;
    Src<char>& s = *static_cast<Src<char>*>(c);
    s.touch("FILE read");
    if (s.fault.due(s.pos)) { s.fire(); errno = EIO; return -1; }
    if (!s.left()) { s.finish(); return 0; }
    size_t k = s.next_chunk();
    size_t m = s.avail(k < n ? k : n);
    memcpy(b, s.text.data() + s.pos, m);
    s.pos += m;
    return (ssize_t)m;
}

struct FileHandle
{
    FILE* f;
    int   w;
    FileHandle() : f(nullptr), w(-1) {}
    FileHandle(const FileHandle&) = delete;
    ~FileHandle() { if (f) fclose(f); if (w >= 0) close(w); }
};

inline void open_cookie(FileHandle& h, Src<char>& s)
{
    UserScope u;
    cookie_io_functions_t io = { cookie_read, nullptr, nullptr, nullptr };
    h.f = fopencookie(&s, "r", io);
    switch (s.steady ? 2 : draw(3))
    {
    case 0: setvbuf(h.f, nullptr, _IONBF, 0); break;
    case 1: setvbuf(h.f, nullptr, _IOFBF, 1 + draw(40)); break;
    default: break;
    }
}

// a FILE over a pipe whose writer stays open: reading past the data fails (EAGAIN)
inline void open_pipe(FileHandle& h, const std::string& bytes, bool error_at_end)
{
    UserScope u;
    int fd[2];
    if (pipe(fd) != 0) _exit(3);
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    size_t o = 0;
    while (o < bytes.size())
    {
        ssize_t k = write(fd[1], bytes.data() + o, bytes.size() - o);
        if (k <= 0) _exit(3);
        o += (size_t)k;
    }
    if (error_at_end) h.w = fd[1];
    else close(fd[1]);
    h.f = fdopen(fd[0], "r");
}

enum SrcKind { S_STRING, S_CSTR, S_STREAM, S_SSTREAM, S_UNBUF, S_CHUNK, S_ADAPTER, S_FILE, S_KINDS };
inline const char* src_name(int k)
{
    static const char* const n[] = { "string", "cstring", "istream", "istringstream", "unbuffered-streambuf", "chunked-streambuf", "iadapter", "FILE" };
    return n[k];
}

// ---- encodings ---------------------------------------------------------------------

// six units 'A'..'P' per code point, read in one block
template <class C> struct block_encoding
{
    static void encode(std::basic_ostream<C>& os, uint32_t cp)
    {
        seam("encode");
        C b[6];
        for (int i = 0; i < 6; ++i) b[i] = C('A' + ((cp >> (20 - 4 * i)) & 15));
        if (cp > 0xffffff) os.setstate(std::ios_base::failbit);
        else os.write(b, 6);
    }
    static bool decode(std::basic_istream<C>& is, uint32_t& cp)
    {
        seam("decode");
        C b[6];
        is.read(b, 6);
        if (is.gcount() == 0 && is.eof()) return false;
        return finish(is, b, is.gcount() == 6, cp);
    }
    static bool finish(std::basic_istream<C>& is, const C* b, bool whole, uint32_t& cp)
    {
        cp = 0;
        bool ok = whole;
        for (int i = 0; ok && i < 6; ++i)
        {
            if (b[i] < C('A') || b[i] > C('P')) ok = false;
            else cp = cp << 4 | uint32_t(b[i] - C('A'));
        }
        if (!ok) is.setstate(std::ios_base::failbit);
        return true;
    }
};

// the same units, read with a mix of stream operations
template <class C> struct mixed_encoding
{
    static void encode(std::basic_ostream<C>& os, uint32_t cp)
    {
        block_encoding<C>::encode(os, cp);
    }
    static bool decode(std::basic_istream<C>& is, uint32_t& cp)
    {
        typedef std::char_traits<C> T;
        seam("decode");
        C b[6];
        typename T::int_type c = is.peek();
        if (is.eof()) return false;
        if (!is.good()) { cp = 0xfffffff; return true; }
        b[0] = T::to_char_type(c);
        is.ignore(1);
        is.read(b + 1, 2);
        bool ok = is.gcount() == 2;
        if (ok) { ok = (bool)is.get(b[3]); }
        if (ok) { is.peek(); is.read(b + 4, 1); ok = is.gcount() == 1; }
        if (ok) { ok = (bool)is.get(b[5]); }
        return block_encoding<C>::finish(is, b, ok, cp);
    }
};

// the default encoding, but some character makes it throw
template <class C> struct throwing_encoding
{
    static void encode(std::basic_ostream<C>& os, uint32_t cp)
    {
        seam("encode");
        if (cp == 'q') { sim::fault("encoding-throws"); throw SimError(); }
        configor::encoding::auto_utf<C>::encode(os, cp);
    }
    static bool decode(std::basic_istream<C>& is, uint32_t& cp)
    {
        seam("decode");
        bool r = configor::encoding::auto_utf<C>::decode(is, cp);
        if (r && cp == 'q') { sim::fault("encoding-throws"); throw SimError(); }
        return r;
    }
};

// the default encoding, but some character is refused as a full code page would
template <class C> struct refusing_encoding
{
    static void encode(std::basic_ostream<C>& os, uint32_t cp)
    {
        seam("encode");
        if (cp == 'q') { sim::fault("encoding-refuses"); os.setstate(std::ios_base::failbit); return; }
        configor::encoding::auto_utf<C>::encode(os, cp);
    }
    static bool decode(std::basic_istream<C>& is, uint32_t& cp)
    {
        seam("decode");
        bool r = configor::encoding::auto_utf<C>::decode(is, cp);
        if (r && cp == 'q') { sim::fault("encoding-refuses"); is.setstate(std::ios_base::failbit); }
        return r;
    }
};

template <class C> std::basic_string<C> block_text(const U& s)
{
    std::basic_string<C> o;
    for (size_t i = 0; i < s.size(); ++i)
        for (int k = 0; k < 6; ++k) o += C('A' + ((s[i] >> (20 - 4 * k)) & 15));
    return o;
}

enum Enc { E_DEFAULT, E_AUTO, E_UTF8, E_UTF16, E_UTF32, E_IGNORE, E_BLOCK, E_MIXED, E_THROW, E_REFUSE, E_ENCS };

// units of a text in an encoding
inline std::basic_string<char> units(const U& s, Enc e, char)
{
    if (e == E_BLOCK || e == E_MIXED) return block_text<char>(s);
    if (e == E_IGNORE) { std::string o; for (char32_t c : s) o += (char)c; return o; }
    return model::to_utf8(s);
}
inline std::basic_string<wchar_t> units(const U& s, Enc e, wchar_t)
{
    if (e == E_BLOCK || e == E_MIXED) return block_text<wchar_t>(s);
    if (e == E_UTF8) { std::wstring o; for (char c : model::to_utf8(s)) o += (wchar_t)(unsigned char)c; return o; }
    if (e == E_UTF16)
    {
        std::wstring o;
        for (uint32_t c : s)
        {
            if (c < 0x10000) o += (wchar_t)c;
            else { o += (wchar_t)(0xD800 + ((c - 0x10000) >> 10)); o += (wchar_t)(0xDC00 + ((c - 0x10000) & 0x3ff)); }
        }
        return o;
    }
    return model::to_wide(s);
}

// ---- parsing -----------------------------------------------------------------------

template <class J, class C> struct ParseReq
{
    int     kind;      // SrcKind
    int     api;       // 0 returning, 1 into a value, 2 operator>>
    Enc     enc;
    configor::error_handler* eh;
    bool    use_options;
    bool    noskipws;
    std::ios_base::iostate bits;  // state of the caller's stream beforehand
    std::ios_base::fmtflags extra; // additional flags of the caller's stream
    std::ios_base::iostate exc;    // exception mask of the caller's stream
    size_t  skip;                  // units the caller has read before
    bool    peeked;                // and then looked at the next one
    const typename J::template parser_option<C>* four;  // exactly these options
    ParseReq() : kind(S_STRING), api(0), enc(E_DEFAULT), eh(nullptr), use_options(false), noskipws(true), bits(std::ios_base::goodbit), extra(), exc(std::ios_base::goodbit), skip(0), peeked(false), four(nullptr) {}
};

struct ParseRes
{
    Kind        kind;
    std::string what;
    bool        stream_bad;   // the caller's stream ended up failed
    MV          v;
    bool ok() const { return kind == OK && !stream_bad; }
};

template <class J, class C> struct Parser
{
    typedef typename J::value V;
    typedef typename J::template parser_type<C> P;
    typedef std::initializer_list<typename J::template parser_option<C>> Opts;

    // calls f(options)
    template <class F> static void with_options(const ParseReq<J, C>& q, F f)
    {
        if (q.four) { f(Opts{ q.four[0], q.four[1], q.four[2], q.four[3] }); return; }
        if (!q.use_options && q.enc == E_DEFAULT && !q.eh) { f(Opts{}); return; }
        switch (q.enc)
        {
        case E_DEFAULT: f(Opts{ P::with_error_handler(q.eh) }); break;
        case E_BLOCK: f(Opts{ P::template with_source_encoding<block_encoding>(), P::with_error_handler(q.eh) }); break;
        case E_THROW: f(Opts{ P::template with_source_encoding<throwing_encoding>(), P::with_error_handler(q.eh) }); break;
        case E_MIXED: f(Opts{ P::template with_source_encoding<mixed_encoding>(), P::with_error_handler(q.eh) }); break;
        case E_IGNORE: f(Opts{ P::with_error_handler(q.eh), P::template with_encoding<configor::encoding::ignore>() }); break;
        case E_AUTO: f(Opts{ P::with_error_handler(q.eh), P::template with_encoding<configor::encoding::auto_utf>() }); break;
        default: utf(q, f, std::integral_constant<bool, sizeof(C) == 4>()); break;
        }
    }
    template <class F> static void utf(const ParseReq<J, C>& q, F f, std::true_type)
    {
        switch (q.enc)
        {
        case E_UTF8: f(Opts{ P::template with_source_encoding<configor::encoding::utf8>(), P::with_error_handler(q.eh) }); break;
        case E_UTF16: f(Opts{ P::template with_source_encoding<configor::encoding::utf16>(), P::with_error_handler(q.eh) }); break;
        default: f(Opts{ P::template with_source_encoding<configor::encoding::utf32>(), P::with_error_handler(q.eh) }); break;
        }
    }
    template <class F> static void utf(const ParseReq<J, C>& q, F f, std::false_type)
    {
        f(Opts{ P::template with_source_encoding<configor::encoding::utf8>(), P::with_error_handler(q.eh) });
    }

    static void from_stream(std::basic_istream<C>& is, const ParseReq<J, C>& q, V& out, bool& bad)
    {
        if (q.noskipws) is.unsetf(std::ios_base::skipws);
        is.setf(q.extra);
        if (q.exc) is.exceptions(q.exc);
        {
            UserScope u;
            for (size_t i = 0; i < q.skip; ++i) is.get();
            if (q.peeked && q.skip) { is.peek(); is.clear(); }
        }
        if (q.bits) is.setstate(q.bits);
        if (q.api == 2)
        {
            try { is >> J::wrap(out); } catch (...) { bad = !is.good() && is.fail(); throw; }
            bad = is.fail();
        }
        else if (q.api == 1) with_options(q, [&](Opts o) { J::parse(out, is, o); });
        else with_options(q, [&](Opts o) { out = J::parse(is, o); });
    }

    static void file(Src<char>& s, const ParseReq<J, char>& q, V& out, bool)
    {
        FileHandle h;
        if (q.api == 3)
        {
            open_pipe(h, s.text.substr(0, s.fault.on ? s.fault.at : s.text.size()), s.fault.on);
            if (s.fault.on) { UserScope u; s.fire(); }
        }
        else open_cookie(h, s);
        {
            UserScope u;
            for (size_t i = 0; i < q.skip; ++i) fgetc(h.f);
            if (q.peeked && q.skip) { int c = fgetc(h.f); if (c != EOF) ungetc(c, h.f); }
        }
        if (q.api & 1) with_options(q, [&](Opts o) { J::template parse<char>(out, h.f, o); });
        else with_options(q, [&](Opts o) { out = J::template parse<char>(h.f, o); });
    }
    static void file(Src<wchar_t>& s, const ParseReq<J, wchar_t>& q, V& out, bool)
    {
        FileHandle h;
        {
            UserScope u;
            sim::NoPreempt np;
            const std::string was = setlocale(LC_CTYPE, nullptr);
            setlocale(LC_CTYPE, "C.utf8");
            U t = model::from_wide(s.text);
            if (s.fault.on && s.fault.at < t.size()) t.resize(s.fault.at);
            open_pipe(h, model::to_utf8(t), s.fault.on);
            if (s.fault.on) s.fire();
            fwide(h.f, 1);
            setlocale(LC_CTYPE, was.c_str());
            for (size_t i = 0; i < q.skip; ++i) fgetwc(h.f);
            if (q.peeked && q.skip) { wint_t c = fgetwc(h.f); if (c != WEOF) ungetwc(c, h.f); }
        }
        if (q.api & 1) with_options(q, [&](Opts o) { J::template parse<wchar_t>(out, h.f, o); });
        else with_options(q, [&](Opts o) { out = J::template parse<wchar_t>(h.f, o); });
    }

    // the source stays in s; the value (also a partial one) goes to out
    static ParseRes parse(Src<C>& s, const ParseReq<J, C>& q, V& out)
    {
        ParseRes r;
        r.stream_bad = false;
        bool bad = false;
        r.kind = guarded(
            [&] {
                switch (q.kind)
                {
                case S_STRING:
                    if (q.api & 1) with_options(q, [&](Opts o) { J::template parse<C>(out, s.text, o); });
                    else with_options(q, [&](Opts o) { out = J::template parse<C>(s.text, o); });
                    break;
                case S_CSTR:
                    if (q.api & 1) with_options(q, [&](Opts o) { J::parse(out, s.text.c_str(), o); });
                    else with_options(q, [&](Opts o) { out = J::parse(s.text.c_str(), o); });
                    break;
                case S_STREAM:
                case S_SSTREAM:
                {
                    std::unique_ptr<std::basic_istringstream<C>> is;
                    { UserScope u; is.reset(new std::basic_istringstream<C>(s.text)); }
                    from_stream(*is, q, out, bad);
                    break;
                }
                case S_UNBUF: { UnbufSource<C> b(s); std::basic_istream<C> is(&b); from_stream(is, q, out, bad); break; }
                case S_CHUNK: { ChunkSource<C> b(s); std::basic_istream<C> is(&b); from_stream(is, q, out, bad); break; }
                case S_ADAPTER: { AdapterSource<C> a(s); configor::basic_iadapterstream<C> is(a); from_stream(is, q, out, bad); break; }
                case S_FILE: file(s, q, out, true); break;
                }
            },
            &r.what);
        r.stream_bad = bad;
        return r;
    }
    static ParseRes parse(Src<C>& s, const ParseReq<J, C>& q)
    {
        ParseRes r;
        {
            V out;
            r = parse(s, q, out);
            if (r.kind == OK) r.v = val<V>::lift(out);
            LibScope l;
            out = nullptr;
        }
        return r;
    }
};

// ---- sinks -------------------------------------------------------------------------

template <class C> struct Snk
{
    typedef std::basic_string<C> S;
    S      got;
    Fault  fault;
    size_t buf;       // size of the put area, 0: none
    size_t calls;
    Snk() : buf(0), calls(0) {}
    // takes one unit; false: refused
    bool take(C c)
    {
        if (fault.due(got.size()))
        {
            ++fault.fired;
            sim::fault(fault.transient ? "write-error-transient" : "write-error");
            ev("fault write-error %s pos=%zu", fault.str().c_str(), got.size());
            if (fault.kind < 3) throw_fault(fault.kind);
            return false;
        }
        got.push_back(c);
        return true;
    }
};

template <class C> class SinkBuf : public std::basic_streambuf<C>
{
    typedef std::char_traits<C> T;
    typedef typename T::int_type int_type;
    Snk<C>& s;
    std::basic_string<C> area;
public:
    explicit SinkBuf(Snk<C>& snk) : s(snk)
    {
        if (s.buf) { area.resize(s.buf); this->setp(&area[0], &area[0] + area.size()); }
    }
protected:
    bool flush_area()
    {
        C *b = this->pbase(), *e = this->pptr();
        // what the device has taken is not offered again
        this->setp(&area[0], &area[0] + area.size());
        for (; b != e; ++b)
            if (!s.take(*b)) return false;
        return true;
    }
    int_type overflow(int_type c) override
    {
        UserScope u;
        ++s.calls;
        seam("overflow");
        if (s.buf && !flush_area()) return T::eof();
        if (T::eq_int_type(c, T::eof())) return T::not_eof(c);
        if (s.buf) { *this->pptr() = T::to_char_type(c); this->pbump(1); return c; }
        return s.take(T::to_char_type(c)) ? T::not_eof(c) : T::eof();
    }
    std::streamsize xsputn(const C* p, std::streamsize n) override
    {
        UserScope u;
        ++s.calls;
        seam("xsputn");
        if (s.buf) return std::basic_streambuf<C>::xsputn(p, n);
        std::streamsize i = 0;
        for (; i < n; ++i)
            if (!s.take(p[i])) break;
        return i;
    }
    int sync() override
    {
        UserScope u;
        seam("sync");
        if (s.buf && !flush_area()) return -1;
        return 0;
    }
};

template <class C> struct AdapterSink : configor::basic_oadapter<C>
{
    Snk<C>& s;
    bool    bulk;
    AdapterSink(Snk<C>& snk, bool b) : s(snk), bulk(b) {}
    virtual ~AdapterSink() {}
    void write(const C c) override
    {
        UserScope u;
        ++s.calls;
        seam("oadapter::write");
        if (!s.take(c)) throw SimError();
    }
    void write(const C* p, std::size_t n) override
    {
        if (!bulk) { configor::basic_oadapter<C>::write(p, n); return; }
        UserScope u;
        ++s.calls;
        seam("oadapter::write block");
        for (std::size_t i = 0; i < n; ++i)
            if (!s.take(p[i])) throw SimError();
    }
};

inline ssize_t cookie_write(void* c, const char* b, size_t n)
{
    UserScope u;
    Snk<char>& s = *static_cast<Snk<char>*>(c);
    seam("FILE write");
    size_t i = 0;
    for (; i < n; ++i)
    {
        int k = s.fault.kind;
        s.fault.kind = 3;
        bool ok = s.take(b[i]);
        s.fault.kind = k;
        if (!ok) { errno = ENOSPC; return i ? (ssize_t)i : 0; }
    }
    return (ssize_t)i;
}

enum SnkKind { K_STRING, K_RETURN, K_OSTREAM, K_ADAPTER, K_SSTREAM, K_FILE, K_KINDS };
inline const char* snk_name(int k)
{
    static const char* const n[] = { "string", "returned-string", "ostream", "oadapter", "ostringstream", "stdio-FILE" };
    return n[k];
}

template <class C> struct DumpReq
{
    int  kind, api;          // api: 0 dump(), 1 operator<<
    Enc  enc;
    configor::error_handler* eh;
    bool use_options;
    // options
    uint8_t indent; C indent_char; bool escape; int precision; int fmt;   // fmt: 0 none, 1 general, 2 fixed, 3 scientific
    // knobs of the caller's stream
    int  width; C fill; int os_precision; std::ios_base::fmtflags os_float;
    std::ios_base::fmtflags extra;
    bool bulk;
    bool set_stream;
    const void* four;        // exactly these options (of the Dumper's kind)
    DumpReq() : kind(0), api(0), enc(E_DEFAULT), eh(nullptr), use_options(false), indent(0), indent_char(C(' ')), escape(false), precision(0), fmt(0),
                width(0), fill(C(' ')), os_precision(6), os_float(), extra(), bulk(false), set_stream(false), four(nullptr) {}
};

struct DumpRes { Kind kind; std::string what; bool stream_bad; bool reported(int handler_calls) const { return kind != OK || stream_bad || handler_calls > 0; } };

template <class J, class C> struct Dumper
{
    typedef typename J::value V;
    typedef typename J::template serializer_type<C> W;
    typedef typename J::template serializer_option<C> O;
    typedef std::initializer_list<O> Opts;

    template <class F> static void with_options(const DumpReq<C>& q, F f)
    {
        if (q.four) { const O* o = static_cast<const O*>(q.four); f(Opts{ o[0], o[1], o[2], o[3] }); return; }
        if (!q.use_options && q.enc == E_DEFAULT && !q.eh) { f(Opts{}); return; }
        O ind = q.use_options ? W::with_indent(q.indent, q.indent_char) : O([](W&) {});
        O prec = q.use_options && q.fmt ? W::with_precision(q.precision, q.fmt == 1 ? std::ios_base::fmtflags() : q.fmt == 2 ? std::ios_base::fixed : std::ios_base::scientific) : O([](W&) {});
        O esc = W::with_unicode_escaping(q.escape);
        O eh = W::with_error_handler(q.eh);
        O en = O([](W&) {});
        switch (q.enc)
        {
        case E_DEFAULT: break;
        case E_BLOCK: en = W::template with_target_encoding<block_encoding>(); break;
        case E_THROW: en = W::template with_target_encoding<throwing_encoding>(); break;
        case E_MIXED: en = W::template with_target_encoding<mixed_encoding>(); break;
        case E_IGNORE: en = W::template with_encoding<configor::encoding::ignore>(); break;
        case E_AUTO: en = W::template with_encoding<configor::encoding::auto_utf>(); break;
        default: en = utf(q.enc, std::integral_constant<bool, sizeof(C) == 4>()); break;
        }
        f(Opts{ ind, prec, esc, eh, en });
    }
    static O utf(Enc e, std::true_type)
    {
        switch (e)
        {
        case E_UTF8: return W::template with_target_encoding<configor::encoding::utf8>();
        case E_UTF16: return W::template with_target_encoding<configor::encoding::utf16>();
        default: return W::template with_target_encoding<configor::encoding::utf32>();
        }
    }
    static O utf(Enc, std::false_type) { return W::template with_target_encoding<configor::encoding::utf8>(); }

    static void to_stream(std::basic_ostream<C>& os, const V& v, const DumpReq<C>& q, bool& bad)
    {
        if (q.set_stream)
        {
            os.width(q.width);
            os.fill(q.fill);
            os.precision(q.os_precision);
            os.setf(q.os_float, std::ios_base::floatfield);
            os.setf(q.extra);
        }
        try
        {
            if (q.api == 1) os << J::wrap(v);
            else with_options(q, [&](Opts o) { J::dump(os, v, o); });
        }
        catch (...) { bad = !os.good(); throw; }
        bad = !os.good();
    }

    static void file(Snk<char>& s, const V& v, const DumpReq<char>& q, bool& bad)
    {
        FILE* f;
        {
            UserScope u;
            cookie_io_functions_t io = { nullptr, cookie_write, nullptr, nullptr };
            f = fopencookie(&s, "w", io);
            if (s.buf) setvbuf(f, nullptr, _IOFBF, s.buf);
            else setvbuf(f, nullptr, _IONBF, 0);
        }
        try
        {
            __gnu_cxx::stdio_sync_filebuf<char> b(f);
            std::ostream os(&b);
            to_stream(os, v, q, bad);
        }
        catch (...) { fclose(f); throw; }
        if (fclose(f) != 0) bad = true;  // what any caller must check
    }
    static void file(Snk<wchar_t>&, const V&, const DumpReq<wchar_t>&, bool&) {}

    // only streams over a put area are flushed here, as their owner would
    static DumpRes dump(Snk<C>& s, const V& v, const DumpReq<C>& q)
    {
        DumpRes r;
        bool bad = false;
        r.kind = guarded(
            [&] {
                switch (q.kind)
                {
                case K_STRING: with_options(q, [&](Opts o) { J::template dump<C>(s.got, v, o); }); break;
                case K_RETURN: with_options(q, [&](Opts o) { s.got = J::template dump<C>(v, o); }); break;
                case K_OSTREAM:
                {
                    SinkBuf<C> b(s);
                    std::basic_ostream<C> os(&b);
                    to_stream(os, v, q, bad);
                    if (s.buf) { UserScope u; os.flush(); bad = !os.good(); }
                    break;
                }
                case K_ADAPTER:
                {
                    AdapterSink<C> a(s, q.bulk);
                    configor::basic_oadapterstream<C> os(a);
                    to_stream(os, v, q, bad);
                    break;
                }
                case K_SSTREAM:
                {
                    std::basic_ostringstream<C> os;
                    to_stream(os, v, q, bad);
                    UserScope u;
                    s.got = os.str();
                    break;
                }
                case K_FILE: file(s, v, q, bad); break;
                }
            },
            &r.what);
        r.stream_bad = bad;
        return r;
    }
};

template <class C> DumpReq<C> gen_dump_options(bool lossless)
{
    DumpReq<C> q;
    if (draw(2))
    {
        q.use_options = true;
        static const uint8_t ind[] = { 0, 0, 1, 2, 4, 8 };
        q.indent = ind[draw(6)];
        if (chance(1, 3)) q.indent_char = C('\t');
        q.escape = draw(2) != 0;
        q.fmt = (int)draw(4);
        q.precision = lossless ? (q.fmt == 2 ? 10 : 17) : (int)draw(12);
    }
    return q;
}

// a handler that counts
struct CountingHandler : configor::error_handler
{
    int n; Kind kind; std::string what; bool null;
    CountingHandler() : n(0), kind(OK), null(false) {}
    void handle(std::exception_ptr p) override
    {
        UserScope u;
        ++n;
        if (!p) null = true;
        else kind = classify(p, &what);
        seam("error_handler");
    }
};

template <class C> std::string show_units(const std::basic_string<C>& s, size_t max = 200)
{
    std::string o;
    char b[16];
    for (size_t i = 0; i < s.size() && o.size() < max; ++i)
    {
        unsigned long c = (unsigned long)(typename std::make_unsigned<C>::type)s[i];
        if (c >= 0x20 && c < 0x7f && c != '\\') o += (char)c;
        else { snprintf(b, sizeof b, sizeof(C) == 1 ? "\\x%02lx" : "\\{%lx}", c); o += b; }
    }
    if (o.size() >= max) o += "...";
    return o;
}
template <class C> void ev_units(const char* what, const std::basic_string<C>& s)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < s.size(); ++i) { h ^= (uint64_t)s[i]; h *= 1099511628211ull; }
    ev("%s[%zu] %s #%llx", what, s.size(), show_units(s).c_str(), (unsigned long long)h);
}

}  // namespace real
