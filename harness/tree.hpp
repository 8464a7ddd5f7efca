// C14: recursive variants against a plain tree model.
#ifndef VERIF_TREE_HPP
#define VERIF_TREE_HPP
#include "values.hpp"
#include <boost/variant/recursive_variant.hpp>
#include <boost/functional/hash.hpp>
#include <map>
#include <memory>
#include <unordered_set>

namespace tr {
using pbt::P; using pbt::Source;

struct Node {
    int kind, val; std::vector<Node> kids;
    Node(int k = 0, int v = 0) : kind(k), val(v) {}
    bool operator==(const Node& o) const { return kind == o.kind && val == o.val && kids == o.kids; }
    int size() const { int n = 1; for (const Node& k : kids) n += k.size(); return n; }
};
inline std::string show(const Node& n) { std::ostringstream o; o << n.kind << ':' << n.val; if (!n.kids.empty()) { o << '('; for (const Node& k : n.kids) o << show(k) << ' '; o << ')'; } return o.str().substr(0, 400); }

// == first: comparing a deep tree with < in both directions at every level is exponential
template <class I> bool lex(I a, I ae, I b, I be) { for (; a != ae && b != be; ++a, ++b) if (!(*a == *b)) return *a < *b; return a == ae && b != be; }
// user templates holding the variant itself
template <class T> struct Pair2 {
    T a, b; tk::CM<9> tag;
    Pair2() {}
    Pair2(const T& x, const T& y, int v) : a(x), b(y), tag(tk::Raw(), v) {}
    friend bool operator==(const Pair2& x, const Pair2& y) { return x.tag == y.tag && x.a == y.a && x.b == y.b; }
    friend bool operator<(const Pair2& x, const Pair2& y) { if (!(x.tag == y.tag)) return x.tag < y.tag; if (!(x.a == y.a)) return x.a < y.a; return x.b < y.b; }
    friend std::size_t hash_value(const Pair2& x) { std::size_t h = 17; boost::hash_combine(h, x.tag.value()); boost::hash_combine(h, x.a); boost::hash_combine(h, x.b); return h; }
    friend std::ostream& operator<<(std::ostream& o, const Pair2& x) { return o << '<' << x.tag.value() << ' ' << x.a << ' ' << x.b << '>'; }
};
template <class T> struct Seq {
    std::vector<T> v;
    friend bool operator==(const Seq& x, const Seq& y) { return x.v == y.v; }
    friend bool operator<(const Seq& x, const Seq& y) { return lex(x.v.begin(), x.v.end(), y.v.begin(), y.v.end()); }
    friend std::size_t hash_value(const Seq& x) { return boost::hash_range(x.v.begin(), x.v.end()); }
    friend std::ostream& operator<<(std::ostream& o, const Seq& x) { o << '['; for (const T& t : x.v) o << t << ' '; return o << ']'; }
};
// a keyed container: children in key order 0..n-1
template <class T> struct Dict {
    std::map<int, T> m;
    friend bool operator==(const Dict& x, const Dict& y) { return x.m == y.m; }
    friend bool operator<(const Dict& x, const Dict& y) { return lex(x.m.begin(), x.m.end(), y.m.begin(), y.m.end()); }
    friend std::size_t hash_value(const Dict& x) { std::size_t h = 3; for (typename std::map<int, T>::const_iterator i = x.m.begin(); i != x.m.end(); ++i) boost::hash_combine(h, i->second); return h; }
    friend std::ostream& operator<<(std::ostream& o, const Dict& x) { o << '{'; for (typename std::map<int, T>::const_iterator i = x.m.begin(); i != x.m.end(); ++i) o << i->second << ' '; return o << '}'; }
};

// per bounded type: leaf or interior, how to build, read and descend.  R: the variant.
template <class R, class T> struct Part {          // leaf
    enum { leaf = 1, arity = 0 };
    static void build(std::vector<Node> const&, int v, void* p) { VT<T>::construct(p, v); }
    static void read(const T& t, Node& n) { n.val = VT<T>::read(t); }
    static void kids(T&, std::vector<R*>&) {}
    static int canon(int v) { return VT<T>::canon(v); }
    static bool lt(const Node& a, const Node& b) { return a.val < b.val; }
    static bool ntdef() { return VT<T>::ntdef != 0; }
};
template <class R> struct Part<R, std::string> {   // -1: empty (moved from)
    enum { leaf = 1, arity = 0 };
    static std::string str(int v) { return v == -1 ? std::string() : VT<std::string>::str(v); }
    static void build(std::vector<Node> const&, int v, void* p) { new (p) std::string(str(v)); }
    static void read(const std::string& t, Node& n) { n.val = VT<std::string>::read(t); }
    static void kids(std::string&, std::vector<R*>&) {}
    static int canon(int v) { return v; }
    static bool lt(const Node& a, const Node& b) { return str(a.val) < str(b.val); }
    static bool ntdef() { return true; }
};
template <class R> struct Ops;                     // specialised per variant through TREE
template <class R> Node model(const R& r);
template <class R> R make(const Node& n);
template <class R> bool less(const Node& a, const Node& b);
template <class R> bool less_seq(const std::vector<Node>& a, const std::vector<Node>& b) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (!(a[i] == b[i])) return less<R>(a[i], b[i]);
    return a.size() < b.size();
}
template <class R> struct Part<R, std::vector<R> > {
    enum { leaf = 0, arity = -1 };
    static void build(std::vector<Node> const& k, int, void* p) { std::vector<R>* v = new (p) std::vector<R>; for (const Node& n : k) v->push_back(make<R>(n)); }
    static void read(const std::vector<R>& t, Node& n) { for (const R& r : t) n.kids.push_back(model(r)); }
    static void kids(std::vector<R>& t, std::vector<R*>& o) { for (R& r : t) o.push_back(&r); }
    static int canon(int) { return 0; }
    static bool lt(const Node& a, const Node& b) { return less_seq<R>(a.kids, b.kids); }
    static bool ntdef() { return false; }
};
template <class R> struct Part<R, Seq<R> > {
    enum { leaf = 0, arity = -1 };
    static void build(std::vector<Node> const& k, int, void* p) { Seq<R>* v = new (p) Seq<R>; for (const Node& n : k) v->v.push_back(make<R>(n)); }
    static void read(const Seq<R>& t, Node& n) { for (const R& r : t.v) n.kids.push_back(model(r)); }
    static void kids(Seq<R>& t, std::vector<R*>& o) { for (R& r : t.v) o.push_back(&r); }
    static int canon(int) { return 0; }
    static bool lt(const Node& a, const Node& b) { return less_seq<R>(a.kids, b.kids); }
    static bool ntdef() { return false; }
};
template <class R> struct Part<R, Dict<R> > {
    enum { leaf = 0, arity = -1 };
    static void build(std::vector<Node> const& k, int, void* p) { Dict<R>* v = new (p) Dict<R>; for (size_t i = 0; i < k.size(); ++i) v->m.insert(std::make_pair((int)i, make<R>(k[i]))); }
    static void read(const Dict<R>& t, Node& n) { for (typename std::map<int, R>::const_iterator i = t.m.begin(); i != t.m.end(); ++i) n.kids.push_back(model(i->second)); }
    static void kids(Dict<R>& t, std::vector<R*>& o) { for (typename std::map<int, R>::iterator i = t.m.begin(); i != t.m.end(); ++i) o.push_back(&i->second); }
    static int canon(int) { return 0; }
    static bool lt(const Node& a, const Node& b) { return less_seq<R>(a.kids, b.kids); }
    static bool ntdef() { return false; }
};
template <class R> struct Part<R, Pair2<R> > {
    enum { leaf = 0, arity = 2 };
    static void build(std::vector<Node> const& k, int v, void* p) { new (p) Pair2<R>(make<R>(k[0]), make<R>(k[1]), v); }
    static void read(const Pair2<R>& t, Node& n) { n.val = t.tag.value(); n.kids.push_back(model(t.a)); n.kids.push_back(model(t.b)); }
    static void kids(Pair2<R>& t, std::vector<R*>& o) { o.push_back(&t.a); o.push_back(&t.b); }
    static int canon(int v) { return v; }
    static bool lt(const Node& a, const Node& b) { if (a.val != b.val) return a.val < b.val; return less_seq<R>(a.kids, b.kids); }
    static bool ntdef() { return false; }
};

// V: variant; E...: its public bounded types in order
template <class V, class... E> struct TreeOps {
    enum { N = sizeof...(E) };
    template <class T> struct One {
        struct Obj { typename std::aligned_storage<sizeof(T), alignof(T)>::type m; bool ok; Obj() : ok(false) {} ~Obj() { if (ok) ref().~T(); } T& ref() { return *reinterpret_cast<T*>(&m); } };
        static V make(const Node& n) { Obj o; Part<V, T>::build(n.kids, n.val, &o.m); o.ok = true; return V(const_cast<const T&>(o.ref())); }
        // assigns a freshly built content object; faults are armed by the caller's hook around the assignment only
        static void assign(V& v, const Node& n, bool rv, void (*before)(void*), void (*after)(void*), void* x) {
            Obj o; Part<V, T>::build(n.kids, n.val, &o.m); o.ok = true;
            before(x);
            try { if (rv) v = std::move(o.ref()); else v = const_cast<const T&>(o.ref()); } catch (...) { after(x); throw; }
            after(x);
        }
        static void set(V& v, int val) { SetIf<Part<V, T>::leaf != 0, T>::f(boost::get<T>(v), val); }
    };
    template <bool L, class T> struct SetIf { static void f(T& t, int v) { VT<T>::set(t, v); } };
    template <class T> struct SetIf<false, T> { static void f(T&, int) {} };
    static V make(const Node& n) { typedef V (*F)(const Node&); static const F f[] = { &One<E>::make... }; return f[n.kind](n); }
    static void assign(V& v, const Node& n, bool rv, void (*b)(void*), void (*a)(void*), void* x) { typedef void (*F)(V&, const Node&, bool, void (*)(void*), void (*)(void*), void*); static const F f[] = { &One<E>::assign... }; f[n.kind](v, n, rv, b, a, x); }
    static void set(V& v, int k, int val) { typedef void (*F)(V&, int); static const F f[] = { &One<E>::set... }; f[k](v, val); }
    static bool leaf(int k) { static const bool f[] = { Part<V, E>::leaf != 0 ... }; return f[k]; }
    static int arity(int k) { static const int f[] = { int(Part<V, E>::arity)... }; return f[k]; }
    static int canon(int k, int v) { typedef int (*F)(int); static const F f[] = { &Part<V, E>::canon... }; return f[k](v); }
    static bool lt(int k, const Node& a, const Node& b) { typedef bool (*F)(const Node&, const Node&); static const F f[] = { &Part<V, E>::lt... }; return f[k](a, b); }
    static bool ntdef(int k) { typedef bool (*F)(); static const F f[] = { &Part<V, E>::ntdef... }; return f[k](); }
    static const char* name() { return "tree"; }
    struct Reader : boost::static_visitor<Node> { template <class T> Node operator()(const T& t) const { Node n(IndexOf<T, E...>::value, 0); Part<V, T>::read(t, n); return n; } };
    struct Kids : boost::static_visitor<void> { std::vector<V*>* o; template <class T> void operator()(T& t) const { Part<V, T>::kids(t, *o); } };
    struct Count : boost::static_visitor<int> { template <class T> int operator()(const T& t) const { Node n; std::vector<V*> k; Part<V, T>::kids(const_cast<T&>(t), k); int c = 1; for (V* p : k) c += boost::apply_visitor(Count(), *p); return c; } };
    // structural equality by binary visitation
    struct Same : boost::static_visitor<bool> {
        template <class T, class U> bool operator()(const T&, const U&) const { return false; }
        template <class T> bool operator()(const T& a, const T& b) const { return eq(a, b, std::integral_constant<bool, Part<V, T>::leaf != 0>()); }
        template <class T> bool eq(const T& a, const T& b, std::true_type) const { return a == b; }
        template <class T> bool eq(const T& a, const T& b, std::false_type) const {
            Node x, y; std::vector<V*> k, l; Part<V, T>::kids(const_cast<T&>(a), k); Part<V, T>::kids(const_cast<T&>(b), l);
            if (k.size() != l.size()) return false;
            for (size_t i = 0; i < k.size(); ++i) if (!boost::apply_visitor(Same(), *k[i], const_cast<const V&>(*l[i]))) return false;
            Part<V, T>::read(a, x); Part<V, T>::read(b, y); return x.val == y.val;
        }
    };
};
template <class R> Node model(const R& r) {
    Node n = boost::apply_visitor(typename Ops<R>::Reader(), r);
    CHECK(P(14) | P(1), n.kind == r.which(), "visiting a tree node reaches alternative " << n.kind << " but which() is " << r.which());
    return n;
}
template <class R> R make(const Node& n) { return Ops<R>::make(n); }
template <class R> bool less(const Node& a, const Node& b) { if (a.kind != b.kind) return a.kind < b.kind; return Ops<R>::lt(a.kind, a, b); }

template <class R> struct Machine {
    enum { K = 3 };
    typedef Ops<R> O;
    Source& s; std::unique_ptr<char[]> mem[K]; void* p[K]; bool alive[K]; Node m[K]; int n_failed, n_ops, maxsize;
    explicit Machine(Source& src) : s(src), n_failed(0), n_ops(0), maxsize(0) { for (int i = 0; i < K; ++i) { p[i] = std::malloc(sizeof(R)); std::memset(p[i], 0xCB, sizeof(R)); alive[i] = false; } }
    R& v(int i) { return *static_cast<R*>(p[i]); }
    int val() { int a = s.below(12); return a < 9 ? a : 1000 + a; }
    Node gen(int depth, int& budget) {
        int k = s.below(O::N);
        if (depth <= 0 || budget <= 0) for (int q = 0; q < O::N && !O::leaf(k); ++q) k = (k + 1) % O::N;
        --budget; Node n(k, O::canon(k, val()));
        if (!O::leaf(k)) { int c = O::arity(k) < 0 ? s.below(4) : O::arity(k); for (int i = 0; i < c; ++i) n.kids.push_back(gen(depth - 1, budget)); }
        return n;
    }
    Node some() {
        if (s.below(48) == 47) {      // a deep chain
            int d = 20 + s.below(130); Node n(0, 0); { int b = 1; n = gen(0, b); }
            int in = -1; for (int k = 0; k < O::N; ++k) if (!O::leaf(k)) { in = k; if (s.flip()) break; }
            while (d--) { Node q(in, O::canon(in, d % 7)); q.kids.push_back(std::move(n)); if (O::arity(in) == 2) { int b = 1; q.kids.push_back(gen(0, b)); } n = std::move(q); }
            pbt::label("deep tree"); return n;
        }
        int b = 14; return gen(1 + s.below(5), b);
    }
    int pick() { int i = s.below(K); for (int k = 0; k < K; ++k) if (alive[(i + k) % K]) return (i + k) % K; return -1; }

    bool armed_wanted; long cd; int kinds; int live0;
    void plan_fault() { armed_wanted = s.below(3) == 2; static const int ks[] = { tk::K_ANY, tk::K_COPY, tk::K_ALLOC, tk::K_COPY | tk::K_MOVE | tk::K_CASSIGN }; kinds = ks[s.below(4)]; cd = 1 + s.below(12); }
    static void before(void* x) { Machine* m = static_cast<Machine*>(x); if (m->armed_wanted) tk::arm(m->cd, m->kinds, false); }
    static void after(void*) { tk::disarm(); }
    template <class F> bool op(F f) {     // true: it threw
        int tok = tk::st().token; bool threw = false;
        try { f(); } catch (const tk::Injected& e) { threw = true; CHECK(P(14) | P(3), e.token == tok + 1, "a different exception reached the caller"); } catch (const std::bad_alloc&) { threw = true; CHECK(P(14) | P(3), tk::st().fired_kind == tk::K_ALLOC, "bad_alloc without a failed allocation"); }
        tk::disarm();
        CHECK(P(14) | P(3), threw == (tk::st().token != tok), "an exception was swallowed or invented");
        if (threw) { ++n_failed; pbt::label("failed tree operation"); TRACE("    -> failed at point " << cd); }
        return threw;
    }
    template <class F> bool faulty(F f) { plan_fault(); return op([&] { before(this); f(); }); }

    void verify() {
        for (int i = 0; i < K; ++i) if (alive[i]) {
            Node n = model(v(i));
            CHECK(P(14), n == m[i], "tree " << i << " is " << show(n) << ", model " << show(m[i]));
            int z = n.size(); if (z > maxsize) maxsize = z;
        }
    }
    void kill(int i) { if (alive[i]) { v(i).~R(); alive[i] = false; std::memset(p[i], 0xCB, sizeof(R)); } }

    // random descent; model and real side by side
    R* descend(int i, Node*& n) {
        R* r = &v(i); n = &m[i];
        while (s.chance(3, 4)) {
            std::vector<R*> k; typename O::Kids kv; kv.o = &k; boost::apply_visitor(kv, *r);
            CHECK(P(14), k.size() == n->kids.size(), "a node has " << k.size() << " children, model " << n->kids.size());
            if (k.empty()) break;
            size_t q = s.below((uint32_t)k.size()); r = k[q]; n = &n->kids[q];
        }
        return r;
    }
    // after a failed assignment to *r (model node *n, incoming kind k)
    void failed_assign(R& r, Node& n, int k) {
        Node now = model(r);
        if (n.kind == k) CHECK(P(14) | P(3), now.kind == k, "a failed assignment of the same alternative changed it to " << now.kind);
        else CHECK(P(14) | P(3), now == n || O::ntdef(now.kind), "after a failed assignment the tree is " << show(now) << ", it was " << show(n));
        n = now;
    }
    void reread(int i, int kind) { Node now = model(v(i)); CHECK(P(14), now.kind == kind, "a source of a move changed its alternative from " << kind << " to " << now.kind); m[i] = now; }

    void step() {
        int op_ = s.below(14); int i = s.below(K), j;
        if (op_ <= 2) {
            if (op_ == 0 || (j = pick()) < 0) {
                kill(i); Node n = some(); TRACE("  tree" << i << " <- " << show(n));
                new (p[i]) R(make<R>(n)); alive[i] = true; m[i] = n; return;
            }
            if (i == j) i = (i + 1) % K;
            kill(i); bool mv = op_ == 2; Node b = m[j]; live0 = tk::st().n; long nl = pbt::g_new_live;
            TRACE("  tree" << i << " <- " << (mv ? "move" : "copy") << " of tree" << j);
            bool f = faulty([&] { if (mv) new (p[i]) R(std::move(v(j))); else new (p[i]) R(const_cast<const R&>(v(j))); });
            if (f) { if (!mv) CHECK(P(14) | P(4), tk::st().n == live0 && pbt::g_new_live == nl, "a failed tree copy leaked"); else reread(j, b.kind); std::memset(p[i], 0xCB, sizeof(R)); }
            else { alive[i] = true; m[i] = b; if (mv) { reread(j, b.kind); CHECK(P(14) | P(16), true, ""); } }
            return;
        }
        i = pick(); if (i < 0) { Node n = some(); new (p[0]) R(make<R>(n)); alive[0] = true; m[0] = n; return; }
        j = pick();
        switch (op_) {
        case 3: case 4: {        // whole-tree assignment
            if (i == j) return; bool mv = op_ == 4; Node b = m[j], a = m[i];
            TRACE("  tree" << i << " = " << (mv ? "move of " : "") << "tree" << j);
            bool f = faulty([&] { if (mv) v(i) = std::move(v(j)); else v(i) = const_cast<const R&>(v(j)); });
            if (f) { failed_assign(v(i), m[i], b.kind); if (mv) reread(j, b.kind); }
            else { m[i] = b; if (mv) reread(j, b.kind); }
            break; }
        case 5: { if (i == j) return; TRACE("  swap(tree" << i << ", tree" << j << ")"); Node a = m[i], b = m[j]; bool f = faulty([&] { if (s.flip()) v(i).swap(v(j)); else { using std::swap; swap(v(i), v(j)); } });
            if (!f) std::swap(m[i], m[j]); else { m[i] = model(v(i)); m[j] = model(v(j)); } break; }
        case 6: case 7: {        // graft into a node of tree i
            Node* n; R* r = descend(i, n); int how = s.below(5); int budget = 6; Node fresh = gen(2, budget);
            if (i == j && how < 3 && how > 0) how = 3;
            if (how == 0) { R t(const_cast<const R&>(v(j))); Node b = m[j]; if (m[i].size() + b.size() > 400) return; TRACE("  node of tree" << i << " = copy of tree" << j); bool f = faulty([&] { *r = const_cast<const R&>(t); }); if (f) failed_assign(*r, *n, b.kind); else *n = b; }
            else if (how == 1) { Node b = m[j]; if (m[i].size() + b.size() > 400) return; TRACE("  node of tree" << i << " = move of tree" << j); bool f = faulty([&] { *r = std::move(v(j)); }); if (f) failed_assign(*r, *n, b.kind); else *n = b; reread(j, b.kind); }
            else if (how == 2) { TRACE("  swap node of tree" << i << " with tree" << j); if (m[i].size() + m[j].size() > 400) return; bool f = faulty([&] { r->swap(v(j)); }); if (!f) std::swap(*n, m[j]); else { *n = model(*r); m[j] = model(v(j)); } }
            else { bool rv = how == 4; TRACE("  node of tree" << i << " = content " << show(fresh) << (rv ? " (rvalue)" : "")); plan_fault(); bool f = op([&] { O::assign(*r, fresh, rv, &before, &after, this); }); if (f) failed_assign(*r, *n, fresh.kind); else *n = fresh; }
            break; }
        case 8: case 9: {        // extract a subtree of tree j into tree i
            if (i == j) return; bool mv = op_ == 9; Node* n; R* r = descend(j, n); Node b = *n;
            TRACE("  tree" << i << " = " << (mv ? "move of " : "") << "subtree of tree" << j << " " << show(b));
            bool f = faulty([&] { if (mv) v(i) = std::move(*r); else v(i) = const_cast<const R&>(*r); });
            if (f) failed_assign(v(i), m[i], b.kind); else m[i] = b;
            if (mv) { Node now = model(*r); CHECK(P(14), now.kind == b.kind, "a moved-from subtree changed its alternative"); *n = now; }
            break; }
        case 10: { Node* n; R* r = descend(i, n); if (O::leaf(n->kind)) { int x = O::canon(n->kind, val()); TRACE("  leaf of tree" << i << " set to " << x); O::set(*r, n->kind, x); n->val = x; } break; }
        case 11: {               // observers
            const R& a = v(i); const R& b = v(j); bool eq = m[i] == m[j], lt = less<R>(m[i], m[j]);
            TRACE("  observe tree" << i << " and tree" << j);
            CHECK(P(14) | P(9), (a == b) == eq && (a != b) == !eq, "== of trees " << show(m[i]) << " and " << show(m[j]) << " gives " << (a == b));
            CHECK(P(14) | P(9), (a < b) == lt, "< of trees " << show(m[i]) << " and " << show(m[j]) << " gives " << (a < b));
            CHECK(P(14), boost::apply_visitor(typename O::Same(), a, b) == eq, "binary visitation of two trees");
            CHECK(P(14), boost::apply_visitor(typename O::Count(), a) == m[i].size(), "a counting visitor found " << boost::apply_visitor(typename O::Count(), a) << " nodes of " << m[i].size());
            R c(a); CHECK(P(14) | P(9), c == a, "a copy differs from its source"); CHECK(P(14) | P(10), boost::hash<R>()(c) == boost::hash<R>()(a), "equal trees hash differently");
            R f(make<R>(m[i])); CHECK(P(14) | P(10), boost::hash<R>()(f) == boost::hash<R>()(a) && f == a, "a tree rebuilt from its parts is not equal or hashes differently");
            std::ostringstream o1, o2; o1 << a; o2 << f; CHECK(P(14) | P(11), o1.str() == o2.str() && o1.str() == text(m[i]), "a tree prints as " << o1.str().substr(0, 200) << ", expected " << text(m[i]).substr(0, 200));
            break; }
        case 12: { int z = s.below(K); if (z != i) { TRACE("  destroy tree" << z); kill(z); } break; }
        case 13: {               // trees in containers
            std::vector<R> c; std::vector<Node> md; int n = 1 + s.below(5);
            TRACE("  std::vector of trees");
            for (int q = 0; q < n; ++q) { int z = pick(); size_t at = s.below((uint32_t)c.size() + 1); c.insert(c.begin() + at, v(z)); md.insert(md.begin() + at, m[z]); }
            for (int q = 0; q < n; ++q) CHECK(P(14), model(c[q]) == md[q], "a tree in a std::vector is " << show(model(c[q])) << ", expected " << show(md[q]));
            break; }
        }
    }
    static std::string text(const Node& n) { return O::text(n); }
    void run() {
        tk::reset();
        { Node n = some(); TRACE("  tree0 <- " << show(n)); new (p[0]) R(make<R>(n)); alive[0] = true; m[0] = n; }
        { Node n = some(); TRACE("  tree1 <- " << show(n)); new (p[1]) R(make<R>(n)); alive[1] = true; m[1] = n; }
        verify();
        while (s.more() && n_ops < 30) { ++n_ops; step(); verify(); }
        for (int i = 0; i < K; ++i) { kill(i); std::free(p[i]); }
        CHECK(P(14) | P(4), tk::st().n == 0, tk::st().n << " tree leaves never destroyed");
        if (maxsize >= 4 && n_ops > 2) pbt::nontrivial();
    }
};
} // namespace tr

// how a node prints: leaf text and brackets per alternative
#define TREE_TEXT_BEGIN static std::string text(const tr::Node& n) { std::ostringstream o; std::string in; for (size_t i = 0; i < n.kids.size(); ++i) in += text(n.kids[i]) + " "; switch (n.kind) {
#define TREE_TEXT_END } return o.str(); }
#define TREE_CASE(tag, R) static void tag##_run(pbt::Source& s) { tr::Machine<R> m(s); m.run(); } \
    PBT_CASE(#tag ".tree", tag##_run, 10, pbt::P(14) | pbt::P(4))
#endif
