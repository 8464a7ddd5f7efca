// C11: streaming.  Oracle: streaming the held object directly to an
// identically prepared stream.
#include "state.hpp"
#include <sstream>
#include <iomanip>
#include <locale>
#include <boost/variant/recursive_variant.hpp>
namespace sx {
using pbt::P; using pbt::Source;
enum { K_OUT = 1024 };
struct Boom { int t; };
inline const void*& seen() { static const void* p; return p; }
inline int& seen_n() { static int n; return n; }
// inserter behaviours: 0 formatted, 1 changes flags and fill, 2 sets failbit, 3 throws midway, 4 reads iword and locale, 5 consumes the width
template <int Mode> struct Ins { int v; tk::CM<20 + Mode> t; explicit Ins(int x = 0) : v(x), t(tk::Raw(), x) {}
    template <class C, class T> friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& o, const Ins& x) {
        seen() = &x; ++seen_n();
        switch (Mode) {
        case 0: o << x.v; break;
        case 1: o << x.v; o.setf(x.v & 1 ? std::ios_base::hex : std::ios_base::oct, std::ios_base::basefield); o.fill(o.widen('#')); o.precision(3); break;
        case 2: o << x.v; if (x.v & 1) o.setstate(std::ios_base::failbit); break;
        case 3: o << o.widen('<'); if (x.v % 3 == 0) { Boom b = { x.v }; throw b; } o << x.v << o.widen('>'); break;
        case 4: o << o.iword(0) << o.widen('/') << x.v; ++o.iword(0); break;
        case 5: { std::streamsize w = o.width(0); o << (long)w << o.widen(':') << x.v; o.width(x.v & 7); break; }
        }
        return o;
    } };
}
template <int M> struct VT<sx::Ins<M> > { typedef sx::Ins<M> T;
    enum { tracked = 0, ntcopy = 0, ntmove = 0, ntdef = 0, allocs = 0, copyable = 1, movable = 1, blank = 0, ntma = 0 };
    static void construct(void* p, int v) { new (p) T(v); } static int canon(int v) { return v; } static int read(const T& t) { return t.v; } static void set(T& t, int v) { t.v = v; t.t.set(v); }
    static unsigned serial(const T&) { return 0; } static bool moved(int) { return true; } static int defval() { return 0; } };
namespace sx {
typedef boost::variant<int, std::string> Inner;
struct CharStr { const char* p; };
}
template <> struct VT<sx::Inner> { typedef sx::Inner T;
    enum { tracked = 0, ntcopy = 0, ntmove = 1, ntdef = 1, allocs = 1, copyable = 1, movable = 1, blank = 0, ntma = 1 };
    static void construct(void* p, int v) { new (p) T(); set(*static_cast<T*>(p), v); } static int canon(int v) { return v; }
    static int read(const T& t) { return t.which() == 0 ? boost::get<int>(t) : std::atoi(boost::get<std::string>(t).c_str()); }
    static void set(T& t, int v) { if (v & 1) t = v; else { char b[16]; std::snprintf(b, 16, "%d", v); t = std::string(b); } }
    static unsigned serial(const T&) { return 0; } static bool moved(int) { return true; } static int defval() { return 0; } };
template <> struct VT<bool> : VTPod<bool> { static void construct(void* p, int v) { new (p) bool(canon(v)); } static int canon(int v) { return v & 1; } static int read(const bool& t) { return t; } static void set(bool& t, int v) { t = v & 1; } static int defval() { return 0; } };
template <> struct VT<const char*> : VTPod<const char*> { static const char* tab(int v) { static const char* t[4] = { "", "abc", "x y", "longer text here" }; return t[v & 3]; } static void construct(void* p, int v) { new (p) const char*(tab(v)); } static int canon(int v) { return v & 3; } static int read(const char* const& t) { for (int i = 0; i < 4; ++i) if (t == tab(i)) return i; return -9; } static void set(const char*& t, int v) { t = tab(v); } static int defval() { return 0; } };
template <> struct VT<wchar_t> : VTPod<wchar_t> { static void construct(void* p, int v) { new (p) wchar_t(L'a' + canon(v)); } static int canon(int v) { return v & 15; } static int read(const wchar_t& t) { return t - L'a'; } static void set(wchar_t& t, int v) { t = wchar_t(L'a' + canon(v)); } static int defval() { return 0; } };
template <> struct VT<void*> : VTPod<void*> { static void construct(void* p, int v) { new (p) (void*)((void*)(intptr_t)canon(v)); } static int canon(int v) { return v & 0xff; } static int read(void* const& t) { return (int)(intptr_t)t; } static void set(void*& t, int v) { t = (void*)(intptr_t)canon(v); } static int defval() { return 0; } };
namespace sx {
template <class C> struct Punct : std::numpunct<C> { protected: C do_decimal_point() const { return C(','); } C do_thousands_sep() const { return C('.'); } std::string do_grouping() const { return "\2"; } std::basic_string<C> do_truename() const { C t[] = { C('j'), C('a'), 0 }; return t; } };
// a buffer that accepts a limited number of characters
template <class C> struct Buf : std::basic_stringbuf<C> { long left; Buf() : left(1 << 30) {}
    typedef std::basic_stringbuf<C> base; typedef typename base::int_type I;
    I overflow(I c) { return left-- > 0 ? base::overflow(c) : std::char_traits<C>::eof(); }
    std::streamsize xsputn(const C* p, std::streamsize n) { std::streamsize k = n < left ? n : left; left -= k; return base::xsputn(p, k); } };
struct Prep { unsigned flags; int width, prec, fill, exc, state, limit, loc, iw; };
inline Prep prep(Source& s) {
    Prep p = { 0, 0, 6, ' ', 0, 0, -1, 0, 0 };
    if (s.flip()) { p.flags = s.below(4096); p.width = s.below(24); p.prec = s.below(12); p.fill = s.below(2) ? ' ' : '*'; }
    if (s.below(6) == 0) p.exc = 1 + s.below(7);
    if (s.below(8) == 0) p.state = 1 + s.below(7);
    if (s.below(6) == 0) p.limit = s.below(6);
    p.loc = s.below(4) == 0; p.iw = s.below(5); return p;
}
template <class C> struct Out {
    Buf<C> buf; std::basic_ostream<C> o; bool threw_ios, threw_boom; int boom; std::basic_ostream<C>* ret;
    explicit Out(const Prep& p) : o(&buf), threw_ios(false), threw_boom(false), boom(0), ret(0) {
        static const std::ios_base::fmtflags F[12] = { std::ios_base::hex, std::ios_base::oct, std::ios_base::left, std::ios_base::right, std::ios_base::internal, std::ios_base::showbase, std::ios_base::showpos, std::ios_base::uppercase, std::ios_base::boolalpha, std::ios_base::scientific, std::ios_base::fixed, std::ios_base::showpoint };
        for (int i = 0; i < 12; ++i) if (p.flags >> i & 1) { if (i < 2) o.setf(F[i], std::ios_base::basefield); else if (i < 5) o.setf(F[i], std::ios_base::adjustfield); else o.setf(F[i]); }
        if (p.loc) o.imbue(std::locale(std::locale::classic(), new Punct<C>));
        o.width(p.width); o.precision(p.prec); o.fill(C(p.fill)); o.iword(0) = p.iw;
        if (p.limit >= 0) buf.left = p.limit;
        static const std::ios_base::iostate B[3] = { std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit };
        for (int i = 0; i < 3; ++i) if (p.state >> i & 1) o.setstate(B[i]);
        for (int i = 0; i < 3; ++i) if (p.exc >> i & 1 && !(o.rdstate() & B[i])) o.exceptions(o.exceptions() | B[i]);
    }
    template <class T> void put(const T& t) {
        try { ret = &(o << t); } catch (const std::ios_base::failure&) { threw_ios = true; } catch (const Boom& b) { threw_boom = true; boom = b.t; }
    }
};
template <class C> struct Compare { static void go(Out<C>& a, Out<C>& b, const char* what) {
    CHECK(P(11), a.buf.str() == b.buf.str(), what << ": characters differ");
    CHECK(P(11), a.o.flags() == b.o.flags() && a.o.width() == b.o.width() && a.o.precision() == b.o.precision() && a.o.fill() == b.o.fill(), what << ": formatting state differs");
    CHECK(P(11), a.o.rdstate() == b.o.rdstate() && a.o.exceptions() == b.o.exceptions(), what << ": stream state differs");
    CHECK(P(11), a.o.iword(0) == b.o.iword(0), what << ": iword differs");
    CHECK(P(11), a.threw_ios == b.threw_ios && a.threw_boom == b.threw_boom && a.boom == b.boom, what << ": exception behaviour differs");
    CHECK(P(11), (a.ret == &a.o) == (b.ret == &b.o) && (a.ret == &a.o || a.threw_ios || a.threw_boom), what << ": does not return its stream");
} };
template <class C> struct Direct : boost::static_visitor<> { Out<C>* o; template <class T> void operator()(const T& t) const { o->put(t); } };
template <class C, class V, class... E> struct Runner {
    typedef Builder<V, E...> BD;
    static void run(Source& s) {
        tk::reset(); int n = 0;
        do {
            int k = s.below(sizeof...(E)); Var<V, BD> x(s, k, s.below(3) ? some_val(s) : (int)s.below(70000) * 31 - 1000000); Prep p = prep(s);
            TRACE("  stream (" << k << "," << x.val << " " << x.how << ") flags=" << p.flags << " width=" << p.width << " prec=" << p.prec << " exc=" << p.exc << " state=" << p.state << " limit=" << p.limit << " loc=" << p.loc);
            Out<C> a(p), b(p); seen() = 0; seen_n() = 0;
            a.put(x.cv());
            const void* sn = seen(); int ns = seen_n(); seen_n() = 0;
            Direct<C> d; d.o = &b; typedef typename Raw<V>::type dummy; (void)sizeof(dummy);
            direct(x.cv(), d);
            CHECK(P(11), ns == seen_n() && (ns == 0 || sn == seen()), "the content's inserter was called " << ns << " times, or not on the held object");
            Compare<C>::go(a, b, "first value");
            // what follows on the same stream must agree too
            if (!a.threw_ios && s.flip()) { a.put(x.cv()); direct(x.cv(), d); Compare<C>::go(a, b, "second value"); a.put(1234567); b.put(1234567); Compare<C>::go(a, b, "later output"); }
            CHECK(P(11), x.intact(), "streaming changed the variant");
            if (p.flags || p.exc || p.state || p.limit >= 0 || p.loc) pbt::nontrivial();
            if (a.threw_boom) pbt::label("inserter threw"); if (a.threw_ios) pbt::label("stream threw"); if (p.limit >= 0) pbt::label("buffer limit");
        } while (s.more() && ++n < 10);
    }
    template <class Q> struct Raw { typedef int type; };
    // the held object, found without the library's printing code
    static void direct(const V& x, const Direct<C>& d) { typedef void (*F)(const V&, const Direct<C>&); static const F f[] = { &one<typename Pub<E>::type>... }; f[x.which()](x, d); }
    template <class T> static void one(const V& x, const Direct<C>& d) { emit(*boost::get<T>(&x), d); }
    template <class T> static void emit(const T& t, const Direct<C>& d) { d(t); }
    static void emit(const Inner& t, const Direct<C>& d) { if (t.which() == 0) d(boost::get<int>(t)); else d(boost::get<std::string>(t)); }
};
}
#define STREAM_CASES(tag, CH, ...) \
    static void tag##_run(pbt::Source& s) { sx::Runner<CH, boost::variant<__VA_ARGS__>, __VA_ARGS__>::run(s); } \
    PBT_CASE(#tag, tag##_run, 10, pbt::P(11))
using namespace sx;
