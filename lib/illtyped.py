"""C26: generated pairs of well-typed and ill-typed uses.  Every ill-typed
member is compiled alone and must be rejected; the well-typed members are
compiled together and must be accepted.  Nothing is run."""
import concurrent.futures as cf
import os, random
from vlib import CONFIGS, CheckError, Violation, HARN, INC, NCPU, base_env, run, tree_compiles

PLAIN = ['int', 'std::string', 'std::vector<int>', 'double', 'char', 'unsigned long']
OPS = ['==', '!=', '<', '>', '<=', '>=']
QUAL = ['', 'strict_', 'relaxed_']

def unwrap(t):
    return t[len('boost::recursive_wrapper<'):-1].strip() if t.startswith('boost::recursive_wrapper<') else t

class P:
    """one pair: kind, text of the list, well (list of function bodies), ill (list of bodies)"""
    def __init__(self, kind, types, well, ill, form=0):
        self.kind, self.types, self.well, self.ill, self.form = kind, types, well, ill, form

def vtype(types, form=0):
    l = ', '.join(types)
    if form == 1:
        return 'boost::make_variant_over<boost::mpl::vector<%s> >::type' % l
    if form == 2:
        return 'boost::make_recursive_variant<%s>::type' % l
    return 'boost::variant<%s>' % l

class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def lst(self, lo=1, hi=7, extra=(), wrap=True, plain=True):
        """distinct unrelated types: no conversions between them except among plain arithmetic types"""
        r = self.r
        n = r.randint(lo, hi)
        ks = r.sample(range(12), min(12, n + 1))
        l = ['it::A<%d>' % k for k in ks[:n]]
        if wrap and r.random() < 0.3:
            i = r.randrange(len(l))
            l[i] = 'boost::recursive_wrapper<%s >' % l[i]
        if plain and r.random() < 0.4:
            l[r.randrange(len(l))] = r.choice(['std::string', 'std::vector<int>', 'it::A<11>*', 'int'])
        for e in extra:
            l.insert(r.randrange(len(l) + 1), e)
        return l

    def foreign(self, types):
        """a type convertible to none of them and equal to none"""
        u = [unwrap(t) for t in types]
        c = ['it::A<%d>' % k for k in range(20, 24)] + ['it::A<%d>' % k for k in range(12)] + ['it::Der1<1>', 'it::NoOut<1>', 'std::pair<int, it::A<0> >']
        c += ['const it::A<%d>*' % k for k in range(3)] if 'std::string' not in u else []
        c = [x for x in c if x not in u]
        return self.r.choice(c)

    def near(self, types):
        """a type related to a bounded one but not bounded: for get"""
        u = [unwrap(t) for t in types]
        c = []
        for t in u:
            c += [t + '*' if not t.endswith('*') else t[:-1], 'std::vector<%s >' % t, 'std::pair<%s, %s >' % (t, t), 'const %s*' % t]
        c += ['it::Base', 'it::SubA<%d>' % self.r.randrange(12), 'long', 'char', 'float', 'unsigned', 'bool', self.foreign(types), 'boost::blank']
        c = [x for x in c if x not in u]
        return self.r.choice(c)

    def decls(self, types, form=0):
        return 'typedef %s V; ' % vtype(types, form)

    def form(self, types):
        return self.r.choice([0, 0, 0, 1, 2])

    # --- the kinds -----------------------------------------------------
    def get(self):
        r = self.r
        t = self.lst(); f = self.form(t); F = self.near(t); B = unwrap(r.choice(t))
        d = self.decls(t, f)
        q = r.choice(['', 'strict_'])
        use = r.choice(['(void)boost::%sget<%s >(*a);', '(void)boost::%sget<%s >(a);', '(void)boost::%sget<%s >(*c);', '(void)boost::%sget<%s >(c);', '(void)boost::%sget<%s >(std::move(*a));'])
        well = [d + use % (q, B), d + use % ('relaxed_', F), d + use % ('relaxed_', B), d + use % (q, B + ' const') if 'std::move' not in use else d + ';']
        return P('get', t, well, [d + use % (q, F)], f)

    def polyget(self):
        r = self.r
        t = self.lst(1, 4, plain=False, wrap=False) if r.random() < 0.8 else []
        cls = r.sample(['it::Der<1>', 'it::Der1<1>', 'it::Der1<2>', 'it::Der2<1>', 'it::VDer<1>', 'it::Base'], r.randint(1, 3))
        t = t + cls
        r.shuffle(t)
        base = {'it::Der<1>': ['it::Base', 'it::Base2'], 'it::Der1<1>': ['it::Base'], 'it::Der1<2>': ['it::Base'], 'it::Der2<1>': ['it::Base2'], 'it::VDer<1>': ['it::VBase'], 'it::Base': []}
        ok = set(t)
        for c in cls:
            ok |= set(base[c])
        F = r.choice([x for x in ['it::Base', 'it::Base2', 'it::VBase', 'it::Unrel', 'it::Der<1>', 'it::Der1<1>', 'it::Der<2>', 'it::SubDer1', 'it::A<20>'] if x not in ok])
        B = r.choice(sorted(ok))
        q = r.choice(['', 'strict_'])
        use = r.choice(['(void)boost::polymorphic_%sget<%s >(*a);', '(void)boost::polymorphic_%sget<%s >(a);', '(void)boost::polymorphic_%sget<%s >(*c);', '(void)boost::polymorphic_%sget<%s >(c);'])
        d = self.decls(t)
        return P('polymorphic_get', t, [d + use % (q, B), d + use % ('relaxed_', F), d + use % (q, B + ' const')], [d + use % (q, F)])

    def convert(self):
        r = self.r
        t = self.lst(); f = self.form(t); F = self.foreign(t); B = unwrap(r.choice(t))
        d = self.decls(t, f)
        src = r.choice(['it::mk<%s >()', 'it::lv<%s >()', 'it::clv<%s >()'])
        use = r.choice(['V v(%s);', 'V v = %s;', '*a = %s;', 'it::take<V>(%s);', 'std::vector<V> v; v.push_back(%s);', 'V v = V(%s); (void)v;', 'V v = static_cast<V>(%s);'])
        return P('convert', t, [d + use % (src % B)], [d + use % (src % F)], f)

    def explicit(self):
        t = self.lst(plain=False, wrap=False)
        d = self.decls(t)
        k = t[self.r.randrange(len(t))]
        use = self.r.choice(['V v = %s;', '*a = %s;', 'it::take<V>(%s);'])
        return P('explicit', t, [d + use % (k + '((char*)0)')], [d + use % '(char*)0'])

    def compare(self):
        r = self.r
        t = self.lst(); f = self.form(t)
        d = self.decls(t, f)
        op = r.choice(OPS)
        x = r.choice(['it::clv<%s >()' % self.foreign(t), 'it::clv<%s >()' % unwrap(r.choice(t)), '5', '"x"', 'it::clv<boost::variant<it::A<20>, it::A<21> > >()'])
        return P('compare', t, [d + '(void)bool(*a %s *b); (void)bool(*c %s *a); (void)bool(*a %s V(*c));' % (op, op, op)], [d + '(void)(*a %s %s);' % (op, x)], f)

    def const(self):
        r = self.r
        t = self.lst(); f = self.form(t); B = unwrap(r.choice(t))
        d = self.decls(t, f)
        q = r.choice(QUAL)
        c = [('*%s = it::clv<{B} >();', 1), ('*%s = it::mk<{B} >();', 1), ('*%s = *b;', 1), ('*%s = V();', 1), ('%s->swap(*b);', 1), ('boost::swap(*%s, *b);', 1), ('swap(*%s, *b);', 1), ('b->swap(*%s);', 1),
             ('{B}& x = boost::{q}get<{B} >(*%s); (void)x;', 1), ('{B}* x = boost::{q}get<{B} >(%s); (void)x;', 1), ('boost::{q}get<{B} >(*%s) = it::clv<{B} >();', 1),
             ('{B}&& x = boost::{q}get<{B} >(std::move(*%s)); (void)x;', 1), ('{B}& x = boost::polymorphic_{q}get<{B} >(*%s); (void)x;', 2)]
        s, need = r.choice(c)
        s = s.replace('{B}', B).replace('{q}', q)
        return P('const', t, [d + s % 'a'], [d + s % 'c'], f)

    def overloads(self, types, skip=None, par='const %s&', const=' const', ret='void'):
        body = 'return;' if ret == 'void' else 'return %s();' % ret
        return ' '.join('%s operator()(%s)%s { %s }' % (ret, par % unwrap(t), const, body) for i, t in enumerate(types) if i != skip)

    def visit(self):
        r = self.r
        t = self.lst(plain=False); f = self.form(t)
        if len(t) < 2:
            t = t + ['it::A<13>']
        miss = r.randrange(len(t))
        par = r.choice(['const %s&', '%s&', '%s', '%s&&'])
        st = r.choice([' : boost::static_visitor<>', ' : boost::static_visitor<void>', ' { typedef void result_type; enum { e }; //'])
        ret = 'void'
        if r.random() < 0.4:
            ret = 'int'
            st = ' : boost::static_visitor<int>'
        elif st.endswith('//'):
            st = ''
        arg = {'const %s&': r.choice(['*a', '*c', 'std::move(*a)']), '%s&': '*a', '%s': r.choice(['*a', '*c', 'std::move(*a)']), '%s&&': 'std::move(*a)'}[par]
        use = r.choice(['(void)0, boost::apply_visitor(vis, %s);', 'boost::apply_visitor(vis)(%s);', '(%s).apply_visitor(vis);', 'boost::apply_visitor(vis_t(), %s);'])
        if 'apply_visitor(vis)' in use and 'move' in arg:
            use = 'boost::apply_visitor(vis, %s);'
        if '(%s).apply' in use and 'move' in arg:
            use = 'boost::apply_visitor(vis, %s);'
        if st == '' :
            st = ' : boost::static_visitor<>'
        d = self.decls(t, f)
        g = lambda skip: 'struct vis_t%s { %s }; ' % (st, self.overloads(t, skip, par, ret=ret))
        return P('visit', t, [(d, g(None), 'const vis_t vis = vis_t(); (void)vis; ' + use % arg)], [(d, g(miss), 'const vis_t vis = vis_t(); (void)vis; ' + use % arg)], f)

    def visit2(self):
        """binary and N-ary: one combination missing"""
        r = self.r
        n = r.choice([2, 2, 2, 3])
        ls = [self.lst(1, 3, plain=False) for _ in range(n)]
        combos = [[]]
        for l in ls:
            combos = [c + [unwrap(t)] for c in combos for t in l]
        if len(combos) < 2:
            return self.visit2()
        miss = r.randrange(len(combos))
        g = lambda skip: 'struct vis_t : boost::static_visitor<int> { %s }; ' % ' '.join('int operator()(%s) const { return 1; }' % ', '.join('const %s&' % x for x in c) for i, c in enumerate(combos) if i != skip)
        vs = ', '.join('it::%s<%s >()' % (r.choice(['lv', 'clv', 'mk']) if n == 2 else r.choice(['lv', 'clv']), vtype(l)) for l in ls)
        use = r.choice(['boost::apply_visitor(vis, %s);', 'boost::apply_visitor(vis_t(), %s);'] + (['boost::apply_visitor(vis)(%s);'] if n == 2 and 'mk<' not in vs else []))
        return P('visit%d' % n, [vtype(l) for l in ls], [('', g(None), 'const vis_t vis = vis_t(); (void)vis; ' + use % vs)], [('', g(miss), 'const vis_t vis = vis_t(); (void)vis; ' + use % vs)])

    def visitcat(self):
        """parameter category and visitor constness"""
        r = self.r
        t = self.lst(plain=False); f = self.form(t)
        d = self.decls(t, f)
        i = r.randrange(len(t))
        def g(par, const=' const'):
            return 'struct vis_t : boost::static_visitor<> { %s %s }; ' % (self.overloads(t, i), 'void operator()(%s)%s {}' % (par % unwrap(t[i]), const))
        k = r.randrange(4)
        v = 'vis_t vis = vis_t(); const vis_t cvis = vis_t(); (void)vis; (void)cvis; '
        ap = 'boost::apply_visitor(%s, %s);'
        if k == 0:      # T& from an rvalue
            a = r.choice(['it::mk<V>()', 'std::move(*a)'])
            return P('visit T& on an rvalue', t, [(d, g('%s&'), v + ap % ('cvis', '*a')), (d, g('%s&&'), v + ap % ('cvis', a)), (d, g('const %s&'), v + ap % ('cvis', a))], [(d, g('%s&'), v + ap % ('cvis', a))], f)
        if k == 1:      # T&& from an lvalue
            a = r.choice(['*a', '*c'])
            return P('visit T&& on an lvalue', t, [(d, g('%s&&'), v + ap % ('cvis', 'std::move(*a)'))], [(d, g('%s&&'), v + ap % ('cvis', a))], f)
        if k == 2:      # T& from const
            return P('visit T& on const', t, [(d, g('%s&'), v + ap % ('cvis', '*a'))], [(d, g('%s&'), v + ap % ('cvis', '*c'))], f)
        return P('non-const visitor through const', t, [(d, g('const %s&', ''), v + ap % ('vis', r.choice(['*a', '*c'])))], [(d, g('const %s&', ''), v + ap % ('cvis', r.choice(['*a', '*c'])))], f)

    def result(self):
        """a call whose result does not convert to result_type"""
        r = self.r
        t = self.lst(plain=False); i = r.randrange(len(t))
        d = self.decls(t)
        g = lambda bad: 'struct vis_t : boost::static_visitor<it::A<30> > { %s %s operator()(const %s&) const { return %s(); } }; ' % (self.overloads(t, i, ret='it::A<30>'), bad, unwrap(t[i]), bad)
        return P('result', t, [(d, g('it::A<30>'), 'boost::apply_visitor(vis_t(), *c);'), (d, g('it::ToA<30>'), 'boost::apply_visitor(vis_t(), *c);')], [(d, g('it::A<31>'), 'boost::apply_visitor(vis_t(), *c);')])

    def moveonly(self):
        r = self.r
        t = self.lst(extra=['it::MoveOnly<1>'], wrap=False, plain=False)
        d = self.decls(t)
        c = [('V v(%s); (void)v;', '*a', 'std::move(*a)'), ('V v(%s); (void)v;', '*c', 'std::move(*a)'), ('*b = %s;', '*a', 'std::move(*a)'), ('*b = %s;', '*c', 'std::move(*a)'),
             ('*b = %s;', 'it::clv<it::MoveOnly<1> >()', 'it::mk<it::MoveOnly<1> >()'), ('V v(%s);', 'it::clv<it::MoveOnly<1> >()', 'it::mk<it::MoveOnly<1> >()'), ('it::take<V>(%s);', '*a', 'std::move(*a)')]
        s, bad, good = r.choice(c)
        return P('move-only', t, [d + s % good], [d + s % bad])

    def missing(self):
        """an operation a bounded type does not have"""
        r = self.r
        k = r.choice(['eq', 'less', 'out', 'hash'])
        X = {'eq': 'it::NoEq<1>', 'less': 'it::NoLess<1>', 'out': 'it::NoOut<1>', 'hash': 'it::NoOut<1>'}[k]
        t = self.lst(extra=[X], plain=False)
        d = self.decls(t); u = [x for x in t if x != X] or ['int']
        use = {'eq': ['(void)(*a == *b);', '(void)(*a != *b);'], 'less': ['(void)(*a < *b);', '(void)(*a > *b);', '(void)(*a <= *b);', '(void)(*a >= *b);'],
               'out': ['std::ostringstream o; o << *c;'], 'hash': ['(void)boost::hash<V>()(*c);', '(void)hash_value(*c);']}[k]
        other = {'eq': '(void)(*a < *b);', 'less': '(void)(*a == *b);', 'out': 'V v(*a); v.swap(*b);', 'hash': 'V v(*a); v = *b;'}[k]
        s = r.choice(use)
        return P('missing ' + k, t, [self.decls(u) + s, d + other], [d + s])

    def ambiguous(self):
        r = self.r
        t, src = r.choice([(['int', 'double'], 'long'), (['char', 'double'], 'int'), (['float', 'double'], 'long'), (['int', 'unsigned'], 'long'), (['it::FromF<1>', 'it::FromF<2>'], 'it::A<20>'), (['int', 'long', 'double'], 'unsigned')])
        t = list(t); ok = t[0]
        t += self.lst(0, 3, plain=False, wrap=False) if r.random() < 0.5 else []
        r.shuffle(t)
        d = self.decls(t)
        use = r.choice(['V v(%s); (void)v;', '*a = %s;', 'V v = %s;', 'it::take<V>(%s);'])
        s = r.choice(['it::mk<%s >()', 'it::clv<%s >()'])
        return P('ambiguous', t, [d + use % (s % ok)], [d + use % (s % src)])

    def narrow(self):
        """from a variant with an alternative that converts to nothing here; swap of different variants"""
        r = self.r
        t = self.lst(plain=False, wrap=False)
        bad = t + [self.foreign(t)]
        if r.random() < 0.5:
            r.shuffle(bad)
        good = r.sample(t, r.randint(1, len(t)))
        W, G = vtype(bad), vtype(good)
        d = self.decls(t)
        src = r.choice(['it::mk<%s >()', 'it::lv<%s >()', 'it::clv<%s >()'])
        use = r.choice(['V v(%s); (void)v;', 'V v = %s;', '*a = %s;', 'it::take<V>(%s);'])
        return P('variant to variant', t, [d + use % (src % G)], [d + use % (src % W)])

    def swapother(self):
        t = self.lst(); W = vtype(t + ['it::A<19>']); d = self.decls(t)
        s = self.r.choice(['a->swap(it::lv<%s >());', 'swap(*a, it::lv<%s >());', 'boost::swap(*a, it::lv<%s >());'])
        return P('swap different variants', t, [d + s % 'V'], [d + s % W])

    def nodefault(self):
        t = self.lst(extra=[], wrap=False, plain=False)
        s = self.r.choice(['V v; (void)v;', 'V v = V(); (void)v;', 'V* p = new V; delete p;'])
        return P('default construct', t, [self.decls(t + ['it::NoDef<1>']) + s], [self.decls(['it::NoDef<1>'] + t) + s])

    def rvalueget(self):
        r = self.r
        t = self.lst(); f = self.form(t); B = unwrap(r.choice(t)); q = r.choice(QUAL)
        d = self.decls(t, f)
        src = r.choice(['it::mk<V>()', 'std::move(*a)'])
        return P('get from an rvalue', t, [d + '%s&& x = boost::%sget<%s >(%s); (void)x;' % (B, q, B, src), d + '%s const& x = boost::%sget<%s >(%s); (void)x;' % (B, q, B, src)],
                 [d + '%s& x = boost::%sget<%s >(%s); (void)x;' % (B, q, B, src)], f)

    def refalt(self):
        """reference alternatives bind to non-const lvalues only"""
        r = self.r
        t = [x + '&' for x in self.lst(1, 5, plain=False, wrap=False)]
        B = r.choice(t)[:-1]
        use = r.choice(['V v(%s); (void)v;', 'V v = %s;', 'it::take<V>(%s);'])
        return P('reference alternative', t, [(self.decls(t), '', NOPRE + use % ('it::lv<%s >()' % B))],
                 [(self.decls(t), '', NOPRE + use % (r.choice(['it::mk<%s >()', 'it::clv<%s >()']) % B))])

    def lambda_(self):
        t = self.lst(2, 6, plain=False); f = self.form(t); d = self.decls(t, f)
        a = self.r.choice(['*a', '*c'])
        ret = self.r.choice(['', 'return 1;'])
        good = self.decls([t[0]]) + 'boost::apply_visitor([](const %s&) { %s }, %s);' % (unwrap(t[0]), ret, a)
        return P('lambda', t, [good], [d + 'boost::apply_visitor([](const %s&) { %s }, %s);' % (unwrap(self.r.choice(t)), ret, a)], f)

    def traits(self):
        """only well-typed members: what the traits answer"""
        r = self.r
        t = self.lst(); f = self.form(t); F = self.foreign(t); B = unwrap(r.choice(t))
        d = self.decls(t, f)
        w = []
        for q in ('', '&', ' const&', '&&', ' const'):
            w += ['!std::is_constructible<V, %s %s>::value' % (F, q), '!std::is_convertible<%s %s, V>::value' % (F, q)]
            w += ['std::is_constructible<V, %s %s>::value' % (B, q), 'std::is_convertible<%s %s, V>::value' % (B, q)]
            w += ['!std::is_assignable<V&, %s %s>::value' % (F, q), 'std::is_assignable<V&, %s %s>::value' % (B, q), '!std::is_assignable<const V&, %s %s>::value' % (B, q)]
        w += ['!std::is_assignable<const V&, V>::value', '!std::is_assignable<const V&, const V&>::value', 'std::is_copy_constructible<V>::value', 'std::is_copy_assignable<V>::value', 'std::is_destructible<V>::value']
        bt = [x for x in t if unwrap(x) == x]
        if f == 0 and len(bt) == len(t) and not any(x in ('int', 'std::string', 'std::vector<int>') for x in t):
            W, G = vtype(t + [F]), vtype(r.sample(t, r.randint(1, len(t))))
            for q in ('', '&', ' const&', '&&'):
                w += ['!std::is_constructible<V, %s %s>::value' % (W, q), '!std::is_convertible<%s %s, V>::value' % (W, q), 'std::is_constructible<V, %s %s>::value' % (G, q), 'std::is_assignable<V&, %s %s>::value' % (G, q)]
        r.shuffle(w)
        return P('traits', t, [d + ' '.join('static_assert(%s, "x");' % x for x in w)], [], f)

KINDS = ['get', 'get', 'polyget', 'convert', 'convert', 'explicit', 'compare', 'compare', 'const', 'const', 'visit', 'visit', 'visit2', 'visitcat', 'result', 'moveonly', 'missing', 'ambiguous', 'narrow', 'swapother', 'nodefault', 'rvalueget', 'refalt', 'lambda_', 'traits']

def function(body, n):
    pre = ''
    if isinstance(body, tuple):
        d, pre, body = body
        return 'namespace n%d { %s %s inline void f() { %s %s } }\n' % (n, d, pre, PRE if 'typedef' in d and NOPRE not in body else '', body)
    i = body.index('; ') + 2
    return 'namespace n%d { %s inline void f() { %s %s } }\n' % (n, body[:i], PRE, body[i:])

NOPRE = '/*no pre*/ '
PRE = 'V* a = it::p<V>(); V* b = it::p<V>(); const V* c = it::p<V>(); (void)a; (void)b; (void)c;'

class Compiler:
    """syntax-only compilation against a precompiled header"""
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.cxx, self.flags = CONFIGS[cfg]
        self.dir = '%s/pch-%s' % (ctx.tmp, cfg)
        os.makedirs(self.dir, exist_ok=True)
        clang = 'clang' in self.cxx
        out = self.dir + ('/illtyped.pch' if clang else '/illtyped.hpp.gch')
        cmd = [self.cxx] + self.flags.split() + ['-w', '-I' + INC, '-I' + HARN, '-x', 'c++-header', HARN + '/illtyped.hpp', '-o', out]
        rc, log = run(cmd, timeout=300, env=base_env())
        if rc:
            if 'error:' not in log:
                raise CheckError('precompiled header: ' + log[-2000:])
            ctx.compile_violation('harness illtyped.hpp [%s]' % cfg, self.cxx, self.flags, cmd, log)
        self.inc = ['-include-pch', out] if clang else ['-I' + self.dir, '-I' + HARN, '-include', 'illtyped.hpp']

    def accepts(self, text, name):
        """-> (accepted, log)"""
        src = '%s/%s.cpp' % (self.dir, name)
        with open(src, 'w') as f:
            f.write(text)
        cmd = [self.cxx] + self.flags.split() + ['-w', '-I' + INC] + self.inc + ['-fsyntax-only', src]
        rc, log = run(cmd, timeout=300, env=base_env())
        if rc and 'error:' not in log:
            rc, log = run(cmd, timeout=300, env=base_env())
            if rc and 'error:' not in log:
                raise CheckError('compiler failure: ' + log[-2000:])
        return rc == 0, log

def report(ctx, cfg, kind, msg, text, log):
    cxx, flags = CONFIGS[cfg]
    ok, tout = tree_compiles(cxx, flags)
    if not ok:
        raise CheckError('the headers do not compile at all: ' + tout[-1500:])
    p = ctx.replay_path('typing')
    with open(p, 'w') as f:
        f.write('kind: typing\nproperty: %s\nconfig: %s\nexpect: %s\nmessage: %s\nsource:\n%s\n/*\n%s\n*/\n' % (ctx.prop, cfg, kind, msg, text, log[:6000].replace('*/', '* /')))
    raise Violation(msg, p)

def c26(ctx):
    n = 400 if ctx.quick else 2500
    cfgs = ['san', 'g17', 'g11m'] if ctx.quick else ['san', 'g17', 'c11', 'g20', 'g11m', 'c20']
    tot = ill = 0
    labels, samples = {}, []
    for ci, cfg in enumerate(cfgs):
        g = Gen(ctx.seed * 1000 + ci)
        ps = []
        order = [k for k in KINDS if k != 'lambda_' or 'c++11' not in CONFIGS[cfg][1]]
        for i in range(n):
            ps.append(getattr(g, order[i % len(order)])())
        comp = Compiler(ctx, cfg)
        wells = [(p, w) for p in ps for w in p.well]
        ills = [(p, w) for p in ps for w in p.ill]
        blocks = [wells[i:i + 12] for i in range(0, len(wells), 12)]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fw = [ex.submit(comp.accepts, ''.join(function(w, k) for k, (p, w) in enumerate(b)), 'w%d' % bi) for bi, b in enumerate(blocks)]
            fi = [ex.submit(comp.accepts, function(w, 0), 'i%d' % k) for k, (p, w) in enumerate(ills)]
            rw, ri = [f.result() for f in fw], [f.result() for f in fi]
        for b, (ok, log) in zip(blocks, rw):
            if ok:
                continue
            for p, w in b:
                ok1, log1 = comp.accepts(function(w, 0), 'one')
                if not ok1:
                    e = [l for l in log1.splitlines() if 'error:' in l]
                    report(ctx, cfg, 'accept', 'a well-typed use (%s) over <%s> is rejected: %s' % (p.kind, ', '.join(p.types), e[0][-250:] if e else ''), function(w, 0), log1)
            print('note: a block of well-typed uses is rejected only as a whole: ' + log[:300])
        for (p, w), (ok, log) in zip(ills, ri):
            if ok:
                report(ctx, cfg, 'reject', 'an ill-typed use (%s) over <%s> compiles' % (p.kind, ', '.join(p.types)), function(w, 0), log)
        tot += len(wells) + len(ills)
        ill += len(ills)
        for p in ps:
            labels[p.kind] = labels.get(p.kind, 0) + 1
        samples += [function(w, 0).strip() for p, w in ills[:3]]
    ctx.add(tot, ill, samples, what='well-typed and ill-typed uses compiled', labels=labels)

def replay(ctx, path, t, f):
    src = t.split('\nsource:\n', 1)[1]
    ok, log = Compiler(ctx, f['config']).accepts(src, 'replay')
    bad = ok == (f['expect'] == 'reject')
    print(log[:3000])
    print('accepted' if ok else 'rejected', '- expected:', f['expect'])
    return 1 if bad else 0
