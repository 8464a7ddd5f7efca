"""Generated programs: a random C++ program is the test case.  Each program
holds many independent cases with an id; a failing case is re-generated alone
and its type lists are shrunk while it still fails."""
import concurrent.futures as cf
import os, random, re
from vlib import CONFIGS, CheckError, Violation, HARN, INC, NCPU, base_env, run

class Case:
    """kind-specific parts: .code(id) -> C++ statement(s) in main; .smaller() -> iterable of smaller cases."""
    def code(self, cid):
        raise NotImplementedError
    def decl(self, cid):
        return ''
    def smaller(self):
        return []
    def text(self):
        return self.code('case')

def source(header, cases, seed, rounds):
    o = ['#include "%s"' % header, 'using namespace cv;']
    for n, c in enumerate(cases):
        d = c.decl('c%d' % n)
        if d:
            o.append(d)
    o.append('int main(int argc, char** argv) { unsigned long long seed = argc > 1 ? std::strtoull(argv[1], 0, 10) : %d; int rounds = argc > 2 ? std::atoi(argv[2]) : %d; (void)seed; (void)rounds;' % (seed, rounds))
    for n, c in enumerate(cases):
        o.append('  ' + c.code('c%d' % n))
    o.append('  std::printf("SUMMARY %ld %ld %ld %ld\\n", rep().evals, rep().cases, rep().decided, rep().skipped); return 0; }')
    return '\n'.join(o) + '\n'

def compile_run(ctx, cfg, header, cases, seed, rounds, name, timeout=120):
    """-> (status, text): ok / compile / fail / crash"""
    cxx, flags = CONFIGS[cfg]
    src, exe = '%s/%s.cpp' % (ctx.tmp, name), '%s/%s.exe' % (ctx.tmp, name)
    with open(src, 'w') as f:
        f.write(source(header, cases, seed, rounds))
    cmd = [cxx] + flags.split() + ['-w', '-I' + INC, '-I' + HARN, src, '-o', exe, '-lpthread']
    rc, out = run(cmd, timeout=700, env=base_env())
    if rc != 0:
        if 'error:' not in out:
            raise CheckError('compiler failure on a generated program: ' + out[-2000:])
        return 'compile', ' '.join(cmd) + '\n' + out
    rc, out = run([exe, str(seed), str(rounds)], timeout=timeout, env=base_env())
    try:
        os.remove(exe)
    except OSError:
        pass
    if rc == 0 and 'SUMMARY ' in out:
        return 'ok', out
    if rc == 1 and 'FAIL ' in out:
        return 'fail', out
    return 'crash', 'exit status %s\n%s' % (rc, out)

def shrink(ctx, cfg, header, case, seed, rounds, kind, limit=25):
    tries, progress = 0, True
    while progress and tries < limit:
        progress = False
        cand = list(case.smaller())[:8]
        if not cand:
            break
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda nc: compile_run(ctx, cfg, header, [nc[1]], seed, rounds, 'shr%d' % nc[0]), enumerate(cand)))
        tries += len(cand)
        for c, (st, _) in zip(cand, rs):
            if st == kind:
                case, progress = c, True
                break
    return case

def run_programs(ctx, header, groups, seed, rounds, what):
    """groups: [(cfg, [cases])].  Raises Violation on the first failing case (shrunk)."""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda g: compile_run(ctx, g[1][0], header, g[1][1], seed, rounds, 'prog%d' % g[0], timeout=300), enumerate(groups)))
    ev = dec = skip = n = 0
    for (cfg, cases), (st, out) in zip(groups, rs):
        if st == 'ok':
            a = [int(x) for x in re.search(r'SUMMARY (\d+) (\d+) (\d+) (\d+)', out).groups()]
            ev += a[0]; n += a[1]; dec += a[2]; skip += a[3]
            continue
        m = re.search(r'FAIL c(\d+) (.*)', out) if st == 'fail' else None
        bad = None
        if m:
            bad = cases[int(m.group(1))]
            msg = m.group(2)
        else:                                   # find the case alone
            with cf.ThreadPoolExecutor(NCPU) as ex:
                rr = list(ex.map(lambda nc: compile_run(ctx, cfg, header, [nc[1]], seed, rounds, 'one%d' % nc[0]), enumerate(cases)))
            for c, (s2, o2) in zip(cases, rr):
                if s2 != 'ok':
                    bad, st, out = c, s2, o2
                    break
            if bad is None:
                # the program fails only as a whole
                again, o2 = compile_run(ctx, cfg, header, cases, seed, rounds, 'again')
                if again == 'ok':
                    print('note: a program failure did not reproduce: ' + out[-300:])
                    continue
                bad, st, out = cases[0], again, o2
            m2 = re.search(r'FAIL c(\d+) (.*)', out)
            if st == 'compile':
                from vlib import tree_compiles
                ok, tout = tree_compiles(*CONFIGS[cfg])
                if not ok:
                    raise CheckError('the headers do not compile at all: ' + tout[-1500:])
                e = [l for l in out.splitlines() if 'error:' in l]
                msg = 'a well-formed use does not compile: ' + (e[0][-300:] if e else '')
            else:
                msg = m2.group(2) if m2 else 'the program crashed: ' + out[-400:].replace('\n', ' ')
        small = shrink(ctx, cfg, header, bad, seed, rounds, st)
        s2, o2 = compile_run(ctx, cfg, header, [small], seed, rounds, 'final')
        if s2 != st:
            small = bad
        m3 = re.search(r'FAIL c(\d+) (.*)', o2) if s2 == 'fail' else None
        if m3:
            msg = m3.group(2)
        p = ctx.replay_path('program')
        with open(p, 'w') as f:
            f.write('kind: program\nproperty: %s\nconfig: %s\nseed: %d\nrounds: %d\nmessage: %s\ncase: %s\nsource:\n%s' % (ctx.prop, cfg, seed, rounds, msg, small.text(), source(header, [small], seed, rounds)))
        raise Violation('%s [%s]' % (msg, small.text()), p)
    ctx.add(ev, dec, [c.text() for _, cs in groups[:3] for c in cs[:2]], what=what, labels={'programs': len(groups), 'cases': n, 'decided by the oracle': dec, 'undecided, skipped': skip})

def replay_program(ctx, path, text):
    cfg = re.search(r'^config: (\S+)', text, re.M).group(1)
    seed = re.search(r'^seed: (\d+)', text, re.M).group(1)
    rounds = re.search(r'^rounds: (\d+)', text, re.M).group(1)
    src = text[text.index('\nsource:\n') + 9:]
    f, exe = ctx.tmp + '/replay.cpp', ctx.tmp + '/replay.exe'
    with open(f, 'w') as o:
        o.write(src)
    cxx, flags = CONFIGS[cfg]
    rc, out = run([cxx] + flags.split() + ['-w', '-I' + INC, '-I' + HARN, f, '-o', exe, '-lpthread'], timeout=700, env=base_env())
    if rc:
        print(out[-4000:])
        return 1
    rc, out = run([exe, seed, rounds], timeout=300, env=base_env())
    print(out[-4000:])
    return 0 if rc == 0 and 'SUMMARY' in out else 1

# ------------------------------------------------------------------ C12
ARITH = 'bool char Sc Uc short Us int Ui long Ul Ll Ull float double Ld wchar_t char16_t E1 E2 S1'.split()
PTRS = 'Ccp Chp Vp Cvp Ip Cip Bp Cbp Dp Nul Fn Mp'.split()
CLS = 'std::string Base Derived D2 Other FromInt FromLong FromDbl FromStr FromBase FromBaseRV ExplInt FromAny FromOther Vec Func boost::blank Up'.split()
SRC = 'ToInt ToStr ToBase ToDerRef ToPtr ToMany ToNC ToRV Incr'.split()
# operands that are interesting for a bounded type
NEAR = {'std::string': ['Ccp', 'Chp', 'Lit', 'ToStr', 'ToPtr'], 'Base': ['Derived', 'D2', 'int', 'ToBase', 'ToDerRef', 'E1'], 'Derived': ['D2', 'int', 'ToDerRef'], 'FromInt': ['int', 'short', 'E1', 'bool', 'double'],
        'FromLong': ['int', 'long', 'Ui'], 'FromDbl': ['float', 'double', 'int'], 'FromStr': ['Lit', 'Ccp', 'std::string'], 'FromBase': ['Base', 'Derived', 'D2'], 'FromBaseRV': ['Base', 'Derived'],
        'FromOther': ['Other'], 'Bp': ['Dp', 'Nul'], 'Cbp': ['Bp', 'Dp', 'Nul'], 'Vp': ['Ip', 'Bp', 'Nul', 'Arr'], 'Cvp': ['Cip', 'Ip', 'Ccp', 'Arr', 'Lit'], 'Cip': ['Ip', 'Arr'], 'Ip': ['Arr', 'Nul'], 'Ccp': ['Chp', 'Lit', 'ToPtr', 'Nul'],
        'bool': ['Ip', 'Ccp', 'Lit', 'Nul', 'int', 'Bp'], 'int': ['short', 'char', 'E1', 'bool', 'ToInt', 'ToMany', 'ToNC', 'ToRV', 'long', 'double', 'S1'], 'double': ['float', 'int', 'ToMany', 'ToRV', 'Ld'], 'long': ['int', 'ToNC', 'ToInt', 'Ui'],
        'Fn': ['FunRef', 'Nul'], 'Func': ['FunRef', 'Fn'], 'FromAny': ['Other', 'Vec', 'int', 'std::string', 'Incr'], 'Up': ['Nul'], 'Vec': ['int'], 'Ul': ['Ui', 'int'], 'float': ['double', 'int'], 'Ui': ['Us', 'E2', 'int'], 'Ld': ['float', 'double'], 'short': ['char', 'ToMany'], 'char': ['int', 'E2'], 'Ll': ['long', 'int']}

class Conv(Case):
    def __init__(self, types, op):
        self.types, self.op = types, op
    def code(self, cid):
        return 'conv_case<%s, List<%s> >("%s", seed, rounds);' % (self.op, ', '.join(self.types), cid)
    def text(self):
        return 'operand %s into variant<%s>' % (self.op, ', '.join(self.types))
    def smaller(self):
        for i in range(len(self.types)):
            if len(self.types) > 1:
                yield Conv(self.types[:i] + self.types[i + 1:], self.op)

def wrapop(r, t):
    if t in ('Lit', 'Arr', 'FunRef'):
        return t
    return '%s<%s>' % (r.choice(['Lv', 'Cl', 'Rv', 'Rv', 'Cr']), t)

def gen_list(r, n, pool):
    ts = []
    while len(ts) < n:
        t = r.choice(pool)
        if t not in ts:
            ts.append(t)
    return ts

def gen_conv(r, per):
    """one type list, several operands"""
    k = r.randrange(6)
    pool = ARITH if k == 0 else PTRS + ['bool', 'std::string', 'int'] if k == 1 else CLS if k == 2 else ARITH + PTRS + CLS
    ts = gen_list(r, r.choice([1, 2, 2, 3, 3, 4, 5, 7]), pool)
    real = [('boost::recursive_wrapper<%s >' % t if t in CLS and t != 'Up' and r.random() < 0.12 else t) for t in ts]
    ops = []
    for _ in range(per):
        q = r.random()
        if q < 0.6:
            near = NEAR.get(r.choice(ts), [])
            t = r.choice(near) if near else r.choice(ARITH)
        elif q < 0.75:
            t = r.choice(ts)
        else:
            t = r.choice(ARITH + PTRS + CLS + SRC + ['Lit', 'Arr', 'FunRef'])
        o = wrapop(r, t)
        if o not in ops:
            ops.append(o)
    return [Conv(real, o) for o in ops]

def c12(ctx):
    r = random.Random(ctx.seed * 1000003 + 12)
    cfgs = ['g17', 'san', 'c20', 'g11m', 'g17', 'c11', 'g20', 'san'] * 5 if ctx.quick else ['g17', 'san', 'c20', 'g11m', 'gsan', 'c11', 'g20', 'g14'] * 8
    lists, per = (12, 12) if ctx.quick else (16, 14)
    groups = []
    for cfg in cfgs:
        cs = []
        for _ in range(lists):
            cs += gen_conv(r, per)
        groups.append((cfg, cs))
    # every pair of (held type, operand type) among many types at once
    for i, cfg in enumerate(['g17', 'c11', 'g20', 'san'] * (1 if ctx.quick else 3)):
        pool = ARITH if i % 2 == 0 else [t for t in PTRS + CLS if t not in ('Nul', 'FromAny', 'Up')]
        ts = gen_list(r, min(18, len(pool)), pool)
        groups.append((cfg, [Conv(ts, '%s<%s>' % (r.choice(['Lv', 'Cl', 'Rv']), t)) for t in ts]))
    run_programs(ctx, 'conv.hpp', groups, ctx.seed, 20 if ctx.quick else 60, 'converting construction and assignment')

# ------------------------------------------------------------------ C13
WIDER = {'short': ['int', 'long', 'double', 'FromInt'], 'char': ['int', 'FromInt'], 'int': ['long', 'double', 'FromInt', 'FromLong', 'Ll'], 'bool': ['int'], 'float': ['double', 'Ld', 'FromDbl'], 'Derived': ['Base', 'FromBase'], 'D2': ['Derived', 'Base'],
         'Base': ['FromBase', 'FromBaseRV'], 'Ccp': ['std::string', 'FromStr', 'bool', 'Cvp'], 'Chp': ['Ccp', 'std::string'], 'std::string': ['FromStr', 'FromAny'], 'Other': ['FromOther', 'FromAny'], 'Dp': ['Bp', 'Cbp', 'Vp'], 'Bp': ['Cbp', 'Cvp'],
         'Ip': ['Cip', 'Vp', 'bool'], 'ToInt': ['int', 'long'], 'ToStr': ['std::string'], 'ToBase': ['Base'], 'E1': ['int', 'FromInt'], 'Fn': ['Func', 'bool'], 'Vec': ['FromAny'], 'ToMany': ['short', 'double']}
COPYABLE = [t for t in ARITH + PTRS + CLS if t != 'Up']

class VV(Case):
    def __init__(self, s, d):
        self.s, self.d = s, d
    def code(self, cid):
        return 'vv_case<List<%s>, List<%s> >("%s", seed, rounds);' % (', '.join(self.s), ', '.join(self.d), cid)
    def text(self):
        return 'variant<%s> from variant<%s>' % (', '.join(self.d), ', '.join(self.s))
    def smaller(self):
        for i in range(len(self.s)):
            if len(self.s) > 1:
                yield VV(self.s[:i] + self.s[i + 1:], self.d)
        for i in range(len(self.d)):
            if len(self.d) > 1:
                yield VV(self.s, self.d[:i] + self.d[i + 1:])

class Nest(Case):
    def __init__(self, s, d, p, w):
        self.s, self.d, self.p, self.w = s, d, p, w
    def code(self, cid):
        inner = 'boost::variant<%s >' % ', '.join(self.s)
        if self.w:
            inner = 'boost::recursive_wrapper<%s >' % inner
        d = self.d[:self.p] + [inner] + self.d[self.p:]
        return 'nest_case<List<%s>, List<%s>, %d>("%s", seed, rounds);' % (', '.join(self.s), ', '.join(d), self.p, cid)
    def text(self):
        return 'inner variant<%s>%s at position %d of outer variant<%s>' % (', '.join(self.s), ' (in a recursive_wrapper)' if self.w else '', self.p, ', '.join(self.d))
    def smaller(self):
        for i in range(len(self.s)):
            if len(self.s) > 1:
                yield Nest(self.s[:i] + self.s[i + 1:], self.d, self.p, self.w)
        for i in range(len(self.d)):
            if self.w and self.d[i] in self.s:
                continue
            yield Nest(self.s, self.d[:i] + self.d[i + 1:], self.p - (1 if i < self.p else 0), self.w)

def gen_vv(r):
    if r.random() < 0.25:
        pool = [t for t in COPYABLE if t not in ('FromAny', 'Nul')]
        s = gen_list(r, r.choice([1, 2, 3, 4]), pool)
        d = gen_list(r, r.choice([0, 1, 2, 3]), pool)
        w = r.random() < 0.4
        if w:       # accepted from a wrapped inner variant only when each of its types could be taken by itself
            d += [t for t in s if t not in d]
            r.shuffle(d)
        return Nest(s, d, r.randrange(len(d) + 1), w)
    pool = COPYABLE + ['ToInt', 'ToStr', 'ToBase', 'ToMany']
    s = gen_list(r, r.choice([1, 2, 2, 3, 3, 4]), pool if r.random() < 0.4 else sorted(WIDER))
    d = []
    for t in s:
        u = t if r.random() < 0.5 or t not in WIDER else r.choice(WIDER[t])
        if u not in d:
            d.append(u)
    for t in gen_list(r, r.choice([0, 1, 1, 2, 3]), COPYABLE):
        if t not in d:
            d.append(t)
    r.shuffle(d)
    w = [t for t in s if t in d and t in CLS and r.random() < 0.15]
    fix = lambda l: ['boost::recursive_wrapper<%s >' % t if t in w else t for t in l]
    return VV(fix(s), fix(d))

def c13_programs(ctx):
    r = random.Random(ctx.seed * 1000003 + 13)
    cfgs = ['g17', 'san', 'c20', 'g11m', 'g17', 'c11', 'g20', 'san'] * 2 if ctx.quick else ['g17', 'san', 'c20', 'g11m', 'gsan', 'c11', 'g20', 'g14'] * 8
    groups = [(cfg, [gen_vv(r) for _ in range(28 if ctx.quick else 40)]) for cfg in cfgs]
    run_programs(ctx, 'vvconv.hpp', groups, ctx.seed, 12 if ctx.quick else 40, 'conversion between variant types')

# ------------------------------------------------------------------ C25
class TX:
    """A type expression: op, children.  emit(x) writes it with the placeholder spelled x."""
    def __init__(self, op, *kids):
        self.op, self.kids = op, kids
    def emit(self, x):
        if self.op == 'R':
            return x
        if self.op == 'rec':                       # a recursive variant of its own: its placeholder is its own
            return 'boost::make_recursive_variant<%s>::type' % ', '.join(k.emit('R') for k in self.kids)
        if self.op == 'over':
            return 'boost::make_variant_over<boost::mpl::vector<%s > >::type' % ', '.join(k.emit(x) for k in self.kids)
        if not self.kids:
            return self.op
        return '%s<%s >' % (self.op, ', '.join(k.emit(x) for k in self.kids))
    def has(self, ops):
        return self.op in ops or (self.op != 'rec' and any(k.has(ops) for k in self.kids))
    def rec(self):
        return self.has(['R'])
    def smaller(self):
        for k in self.kids:
            if self.op != 'rec':
                yield k
        for i, k in enumerate(self.kids):
            for s in k.smaller():
                yield TX(self.op, *(self.kids[:i] + (s,) + self.kids[i + 1:]))

LEAVES = ['int', 'double', 'std::string', 'Leaf']
CVS = ['Const', 'Volatile', 'ConstVolatile']
def gen_tx(r, depth, where='top'):
    """where: top (a bounded type), arg (template argument), mem (template argument stored by value), ptr (pointee), fn (parameter or result)"""
    p = r.random()
    if depth <= 0 or (where != 'top' and p < 0.35):
        return TX('R') if where != 'top' and r.random() < 0.65 else TX(r.choice(LEAVES))
    k = r.choice(['seq'] * 4 + ['Box', 'Two', 'Five', 'Pack', 'Pack', 'pair', 'map', 'kmap', 'tuple', 'shared', 'set', 'ptr', 'ptr', 'fn', 'var', 'const', 'const', 'ref', 'rec', 'Two1'])
    d = depth - 1
    if k == 'seq':
        return TX(r.choice(['std::vector', 'std::list', 'std::deque', 'std::vector']), gen_tx(r, d, 'mem'))
    if k == 'Box':
        return TX('Box', gen_tx(r, d, 'mem'))
    if k == 'Two1':
        return TX('Two', gen_tx(r, d, 'mem'))
    if k == 'Two':
        return TX('Two', gen_tx(r, d, 'mem'), gen_tx(r, d, 'mem'))
    if k == 'Five':
        return TX('Five', *[gen_tx(r, d - 1, 'mem') for _ in range(5)])
    if k == 'Pack':
        return TX('Pack', *[gen_tx(r, d - r.randint(0, 1), 'arg') for _ in range(r.randint(1, 7))])
    if k == 'pair':
        return TX('std::pair', gen_tx(r, d, 'mem'), gen_tx(r, d, 'mem'))
    if k == 'map':
        return TX('std::map', TX('std::string'), gen_tx(r, d, 'mem'))
    if k == 'kmap':
        return TX('std::map', gen_tx(r, d, 'key'), gen_tx(r, d, 'mem'))
    if k == 'tuple':
        return TX('std::tuple', *[gen_tx(r, d - 1, 'mem') for _ in range(r.randint(1, 6))])
    if k == 'shared':
        return TX('std::shared_ptr', gen_tx(r, d, 'mem'))
    if k == 'set':
        return TX('std::set', gen_tx(r, d, 'key'))
    if k == 'ptr':
        e = gen_tx(r, d, 'ptr')
        t = TX('Ptr', e)
        return TX(r.choice(CVS), t) if where in ('ptr', 'arg') and r.random() < 0.4 else t
    if k == 'fn':
        t = TX('Fn', gen_tx(r, d, 'fn'), *[gen_tx(r, d, 'fn') for _ in range(r.randint(0, 6))])
        return TX(r.choice(CVS), t) if where in ('ptr', 'arg') and r.random() < 0.4 else t
    if k == 'var':
        kids = [TX('int')] + [gen_tx(r, d - 1, 'mem') for _ in range(r.randint(0, 3))]
        return TX('boost::variant', *uniq(kids))
    if k == 'rec':
        return TX('rec', *uniq([TX('int'), TX('std::vector', TX('R'))] + [gen_tx(r, d - 1, 'top') for _ in range(r.randint(0, 1))]))
    if k == 'const' and where in ('ptr', 'arg'):
        e = gen_tx(r, d, 'mem')
        return TX(r.choice(CVS), e) if e.op not in CVS + ['Ref'] else e
    if k == 'ref' and where in ('arg', 'fn'):
        e = gen_tx(r, d, 'mem')
        return TX('Ref', TX('Const', e) if r.random() < 0.5 else e)
    return gen_tx(r, d, where)

def uniq(kids):
    seen, out = set(), []
    for k in kids:
        e = k.emit('V')
        if e not in seen:
            seen.add(e)
            out.append(k)
    return out

class Subst(Case):
    def __init__(self, tx, over=False):
        self.tx, self.over = tx, over
    def runtime(self, t):
        # values: nothing that needs an order, a stored const, or an embedded variant built from a variant
        return not t.has(['boost::variant', 'over', 'Ref', 'Const', 'Volatile', 'ConstVolatile', 'std::set', 'rec']) and not any(k.op == 'std::map' and k.kids[0].op != 'std::string' for k in walk(t))
    def code(self, cid):
        return 'run_%s("%s", rounds);' % (cid, cid)
    def decl(self, cid):
        ts = ', '.join(t.emit('R') for t in self.tx)
        v = 'boost::make_recursive_variant_over<boost::mpl::%s<%s > >::type' % (self.over, ts) if self.over else 'boost::make_recursive_variant<%s >::type' % ts
        o = ['typedef %s V_%s;' % (v, cid), 'static void run_%s(const char* id, int rounds) { typedef V_%s V; ++rep().cases; ++rep().decided; (void)rounds;' % (cid, cid)]
        bound = lambda i: 'boost::mpl::at_c<V::types, %d>::type' % i
        o.append('  types_are<V, %s >(id);' % ', '.join(bound(i) if t.op == 'over' else t.emit('V') for i, t in enumerate(self.tx)))
        for i, t in enumerate(self.tx):         # an embedded variant over a sequence has no unique spelling
            if t.op == 'over':
                o.append('  types_are<%s, %s >(id);' % (bound(i), ', '.join(k.emit('V') for k in t.kids)))
        # g++ cannot work out the exception specifications of some pairs and tuples of the variant
        ok = not any(k.op in ('std::pair', 'std::tuple') for t in self.tx for k in walk(t))
        for i, t in enumerate(self.tx):
            if ok and self.runtime(t) and 'int' in [u.emit('V') for u in self.tx]:
                o.append('  value<V, %s >(id, %d, rounds);' % (t.emit('V'), i))
        o.append('}')
        return '\n'.join(o)
    def text(self):
        return 'make_recursive_variant%s<%s>' % ('_over' if self.over else '', ', '.join(t.emit('R') for t in self.tx))
    def smaller(self):
        for i in range(len(self.tx)):
            if len(self.tx) > 1 and self.tx[i].op != 'int':
                yield Subst(self.tx[:i] + self.tx[i + 1:], self.over)
        for i, t in enumerate(self.tx):
            for s in t.smaller():
                if s.op not in ('R', 'Const', 'Ref', 'Volatile', 'ConstVolatile') and s.emit('V') not in [u.emit('V') for u in self.tx]:
                    yield Subst(self.tx[:i] + [s] + self.tx[i + 1:], self.over)

def walk(t):
    yield t
    for k in t.kids:
        for x in walk(k):
            yield x

def gen_subst(r):
    kids = [TX('int')] + [gen_tx(r, r.choice([1, 2, 2, 3, 4]), 'top') for _ in range(r.randint(1, 5))]
    if r.random() < 0.15:
        kids.append(TX('over', *uniq([TX('int')] + [gen_tx(r, 2, 'mem') for _ in range(r.randint(1, 3))])))
        # completing the embedded variant while the outer one is incomplete must not need traits of the latter
        kids = [TX(k.op, *[x for x in k.kids if x.op != 'R']) if k.op == 'over' else k for k in kids if not k.has(['std::pair', 'std::tuple'])]
        if not any(k.op == 'int' for k in kids):
            kids.append(TX('int'))
    r.shuffle(kids)
    return Subst(uniq(kids), r.choice([False, False, False, 'vector', 'list']))

def c25(ctx):
    r = random.Random(ctx.seed * 1000003 + 25)
    cfgs = ['g17', 'san', 'c20', 'g11m', 'g17', 'c11', 'g20', 'san'] * (2 if ctx.quick else 8)
    groups = [(cfg, [gen_subst(r) for _ in range(32)]) for cfg in cfgs]
    run_programs(ctx, 'subst.hpp', groups, ctx.seed, 6, 'substitution of the recursion placeholder')

# ---- C19: layout ---------------------------------------------------------
class LayoutCase(Case):
    def __init__(self, ts, form):
        self.ts, self.form = ts, form
    def code(self, cid):
        ts = ', '.join(self.ts)
        if self.form in ('rec', 'reccell'):
            cell = self.form == 'reccell'
            return '{ typedef boost::make_recursive_variant<%s, boost::recursive_variant_*%s >::type V; Layout<V, %s, V*%s >::run("%s", seed, rounds); }' % (ts, ', Cell<boost::recursive_variant_>' if cell else '', ts, ', boost::recursive_wrapper<Cell<V> >' if cell else '', cid)
        v = 'boost::variant<%s >' % ts if self.form == 'plain' else 'boost::make_variant_over<boost::mpl::%s<%s > >::type' % (self.form, ts)
        return '{ typedef %s V; Layout<V, %s >::run("%s", seed, rounds); }' % (v, ts, cid)
    def text(self):
        return '%s<%s>' % (self.form, ', '.join(self.ts))
    def smaller(self):
        for i in range(len(self.ts)):
            if len(self.ts) > 1:
                yield LayoutCase(self.ts[:i] + self.ts[i + 1:], self.form)

# no long double: gcc 13 itself loses the padding bytes 10..15 of a buffer it once used as one (x87 store in SRA)
def gen_layout(r, new17):
    n = r.randint(1, 7)
    big = r.choice([8, 16, 64, 128])
    ts, plain = [], ['char', 'short', 'int', 'long', 'double', 'float', 'bool']
    fl = r.choice([[0], [0, 2], [0, 1], [0, 1, 2], [1]])
    if 1 in fl and not new17:
        big = min(big, 16)  # the heap backup goes through operator new, which honours no more before C++17
    for i in range(n):
        k = r.random()
        if k < 0.2 and plain:
            ts.append(plain.pop(r.randrange(len(plain))))
        elif k < 0.27:
            ts.append('Empty<%d>' % i)
        else:
            a = r.choice([x for x in (1, 1, 2, 4, 8, 16, 32, 64, 128) if x <= big])
            t = 'L<%d, %d, %d, %d>' % (i, r.choice([1, 2, 3, 5, 8, 13, 24, 31, 64, 65, 100, 255]), a, r.choice(fl))
            ts.append('boost::recursive_wrapper<%s >' % t if k > 0.95 and a <= 16 else t)
    return LayoutCase(ts, r.choice(['plain', 'plain', 'vector', 'list', 'rec', 'reccell']))

def c19_programs(ctx):
    r = random.Random(ctx.seed * 1000003 + 19)
    cfgs = ['g17', 'san', 'g11m', 'c20', 'gm32', 'g20', 'gsan', 'c11'] * (1 if ctx.quick else 8)
    groups = [(cfg, [gen_layout(r, cfg in ('g17', 'c20', 'g20', 'gsan')) for _ in range(40)]) for cfg in cfgs]
    run_programs(ctx, 'layout.hpp', groups, ctx.seed, 30, 'generated layouts')
