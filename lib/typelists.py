"""Harness sources over generated lists of bounded types.  A list is a list of
(spec) strings; the source is compiled, linked with the engine and searched
like any other harness, and on failure the list itself is shrunk."""
import concurrent.futures as cf
import os, random, re
from vlib import CONFIGS, CheckError, Violation, HARN, INC, NCPU, base_env, run, read

FLAGS_M = ['0', 'tk::NTMOVE', 'tk::NTCOPY', 'tk::NTMOVE|tk::NTMA', 'tk::NTCOPY|tk::NTMOVE', 'tk::NTMA', 'tk::NTALL&~tk::NTDEF']
FLAGS_O = ['0', 'tk::NTCOPY', 'tk::NTCA', 'tk::NTCOPY|tk::NTCA']
PLAIN = ['int', 'char', 'double', 'std::string', 'std::vector<int>', 'boost::blank']

def tracked(r, i, fallback=0.0, layouts=0.2, move_only=0.0):
    kind = 'MO' if r.random() < move_only else r.choice(['CM'] * 5 + ['CO'] * 3 + ['SW'])
    f = r.choice(FLAGS_O if kind == 'CO' else FLAGS_M)
    if r.random() < fallback:
        f += '|tk::NTDEF'
    t = 'tk::%s<%d, %s' % (kind, i, f)
    wrap = r.random() < 0.12 and kind != 'MO'
    if r.random() < layouts:
        # before C++17 new ignores alignments above 16: keep those to types that are never put on the heap
        heap = wrap or not ('NTMOVE' in f or 'NTCOPY' in f or 'NTALL' in f)
        t += ', %d, %d' % (r.choice([1, 3, 7, 17, 40, 90]), r.choice([8, 8, 16] if heap else [8, 8, 16, 32, 64]))
    t += '>'
    return 'boost::recursive_wrapper<%s >' % t if wrap else t

def tiny(t):
    return re.sub(r'(tk::\w\w<\d+, [^,>]*)(, \d+, \d+)?>', r'\1, 0, 1>', t)

def gen_types(r, n, blank=False, **k):
    fb = r.choice([0, 0, 0.15, 0.5])
    plain = r.choice([0, 0, 0.3])
    pool = [t for t in PLAIN if blank or t != 'boost::blank'] if fb else []      # blank has no hash
    out = []
    for i in range(n):
        if pool and r.random() < plain:
            t = pool.pop(r.randrange(len(pool)))
        else:
            t = tracked(r, i + 1, fallback=fb, **k)
        out.append(t)
    if r.random() < 0.15:
        # small throughout: one-byte alternatives, smaller and less aligned than the backup pointer
        out = [tiny(t) for t in out if t in ('char', 'boost::blank') or 'tk::' in t] or ['tk::CO<1, 0, 0, 1>']
    # a move-only type whose move may throw is assignable only in the presence of a fallback type
    if not any(t in PLAIN or ('NTDEF' in t and '~tk::NTDEF' not in t and 'recursive' not in t) for t in out):
        out = [re.sub(r'(tk::MO<\d+, )(?:0\b)?(?=(tk)?)', lambda m: m.group(1) + ('tk::NTMOVE|' if m.group(2) else 'tk::NTMOVE'), t) if t.startswith('tk::MO') else t for t in out]
    return out

def origin(r, n):
    o = ['Front', 'Back', 'Wrapped'] + (['Joint'] * 2 if n > 1 else []) + (['plain'] * 3 if n <= 20 else [])
    return r.choice(o)

def seq(how, cut, ts, ns='ov'):
    if how == 'Joint':
        return '%s::Joint<%s::Front<%s >, %s::Back<%s > >::type' % (ns, ns, ', '.join(ts[:cut]), ns, ', '.join(ts[cut:]))
    return '%s::%s<%s >::type' % (ns, how, ', '.join(ts))

class Over:
    """over.hpp on one list"""
    case = 'over'
    def __init__(self, ts, how, cut):
        self.ts, self.how, self.cut = ts, how, max(1, min(cut, len(ts) - 1)) if len(ts) > 1 else 0
    def key(self):
        return '%s of %d types: %s' % (self.how, len(self.ts), ', '.join(self.ts))
    def variant(self):
        return 'boost::variant<%s >' % ', '.join(self.ts) if self.how == 'plain' else 'boost::make_variant_over<%s>::type' % seq(self.how if len(self.ts) > 1 or self.how != 'Joint' else 'Front', self.cut, self.ts)
    def source(self):
        return '#include "over.hpp"\n#define TS %s\ntypedef %s V;\nOVER_CASES(V, TS);\n' % (', '.join(self.ts), self.variant())
    def smaller(self):
        n = len(self.ts)
        for k in (n // 2, n // 4, 1):
            if 0 < k < n:
                for i in range(0, n, k):
                    yield self.__class__(self.ts[:i] + self.ts[i + k:], self.how, self.cut - (k if i < self.cut else 0))

class Core(Over):
    """the core.hpp histories on one list"""
    case = 'gen'
    def source(self):
        return '#include "core.hpp"\nusing namespace tk;\ntypedef %s V;\nCORE_CASES(gen, V, %s);\n' % (self.variant(), ', '.join(self.ts))

class Long(Over):
    """long.hpp: tags 0..n-1 with a flavour each"""
    case = 'long'
    def source(self):
        n = len(self.ts)
        ts = ['lg::T<%d, %s>' % (i, f) for i, f in enumerate(self.ts)]
        sel = sorted(({i for i, f in enumerate(self.ts) if f != '0'} | {n - 1}))
        return ('%s#include "long.hpp"\ntypedef boost::make_variant_over<%s>::type V;\ntypedef lg::Long<V, lg::TL<%s>, lg::TL<%s> > L;\n'
                'static void lrun(pbt::Source& s) { L::run(s); }\nstatic void lsweep(pbt::Source& s) { L::sweep(s); }\n'
                'PBT_CASE("long.run", lrun, 40, pbt::ALL); PBT_CASE("long.sweep", lsweep, 1, pbt::ALL);\n') % (
                '#define LG_BIG\n' if n > 48 else '', seq(self.how if n > 1 or self.how != 'Joint' else 'Front', self.cut, ts, 'lg'), ', '.join(ts), ', '.join(ts[i] for i in sel))
    def key(self):
        return '%s of %d tag types' % (self.how, len(self.ts))

def gen_over(r, lo, hi):
    n = r.randint(lo, hi)
    return Over(gen_types(r, n), origin(r, n), r.randint(1, max(1, n - 1)))

def gen_core(r, lo, hi):
    n = r.randint(lo, hi)
    return Core(gen_types(r, n, blank=True, move_only=r.choice([0, 0, 0.3])), 'plain', 1)

def gen_long(r, lo, hi):
    n = r.randint(lo, hi)
    ts = ['0'] * n
    for i in {n - 1, r.randrange(n), r.choice([19, 20, 21, n // 2]) % n, r.randrange(n)}:
        ts[i] = '1'
    if r.random() < 0.4:
        ts[r.randrange(n)] = '2'
    return Long(ts, r.choice(['Front', 'Back', 'Joint']), r.randint(1, n - 1))

def build_one(ctx, cfg, g, name, engine, extra=''):
    cxx, flags = CONFIGS[cfg]
    src, exe = '%s/%s.cpp' % (ctx.tmp, name), '%s/%s.bin' % (ctx.tmp, name)
    with open(src, 'w') as f:
        f.write(g.source())
    cmd = [cxx] + (flags + ' ' + extra).split() + ['-w', '-ftemplate-depth=4000', '-I' + INC, '-I' + HARN, src, engine, '-o', exe, '-lpthread']
    rc, out = run(cmd, timeout=850, env=base_env())
    if rc and 'error:' not in out:
        rc, out = run(cmd, timeout=850, env=base_env())
    return exe, rc, out, cmd

def search(ctx, items):
    """items: [(cfg, generated list, cases, time_s)].  Builds all, searches each, shrinks the list of a failing one."""
    eng = {c: ctx.obj(c, 'engine') for c in dict.fromkeys(c for c, *_ in items)}
    # biggest first
    order = sorted(range(len(items)), key=lambda i: -len(items[i][1].ts))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fut = {i: ex.submit(build_one, ctx, items[i][0], items[i][1], 'gen%d' % i, eng[items[i][0]]) for i in order}
        built = {i: f.result() for i, f in fut.items()}
    for i, (cfg, g, cases, t) in enumerate(items):
        exe, rc, out, cmd = built[i]
        if rc:
            if 'error:' not in out:
                raise CheckError('compiler failure on a generated type list: ' + out[-2000:])
            small = shrink(ctx, cfg, eng[cfg], g, lambda e, rc: rc != 0)
            p = write_source(ctx, cfg, small, 'compile')
            from vlib import tree_compiles
            ok, tout = tree_compiles(*CONFIGS[cfg])
            if not ok:
                raise CheckError('the headers do not compile at all: ' + tout[-1500:])
            e = [l for l in out.splitlines() if 'error:' in l]
            raise Violation('a variant over a well-formed list does not compile [%s]: %s' % (small.key(), e[0][-300:]), p)
        try:
            d = ctx.pbt(exe, cfg, cases, time_s=t, tag='gen%d' % i)
            d['what'] = g.key()
        except Violation as v:
            seen = {}
            def still(e, rc):
                if rc:
                    return False
                try:
                    ctx.pbt(e, cfg, 20000, time_s=10, tag='shr', jobs=2)
                except (Violation, CheckError) as w:
                    return isinstance(w, Violation)
                return False
            small = shrink(ctx, cfg, eng[cfg], g, still, serial=True)
            if small is not g:
                exe, rc, out, cmd = build_one(ctx, cfg, small, 'small', eng[cfg])
                try:
                    ctx.pbt(exe, cfg, 40000, time_s=20, tag='gen%d' % i)
                except Violation as w:
                    v = w
                else:
                    small = g
            with open(v.replay, 'a') as f:
                f.write('list: %s\ngenerated source:\n%s' % (small.key(), small.source()))
            raise Violation('%s [%s]' % (v.message, small.key()), v.replay)
        os.remove(exe)

def shrink(ctx, cfg, engine, g, fails, serial=False, budget=24):
    while budget > 0 and len(g.ts) > 1:
        cand = list(g.smaller())[:NCPU]
        if not cand:
            break
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(lambda nc: build_one(ctx, cfg, nc[1], 's%d' % nc[0], engine), enumerate(cand)))
        budget -= len(cand)
        for c, (e, rc, out, cmd) in zip(cand, rs):
            if fails(e, rc):
                g = c
                break
        else:
            break
    return g

def write_source(ctx, cfg, g, tag):
    p = ctx.replay_path(tag)
    with open(p, 'w') as f:
        f.write('kind: source\nproperty: %s\nconfig: %s\nlist: %s\ngenerated source:\n%s' % (ctx.prop, cfg, g.key(), g.source()))
    return p

def replay(ctx, path, text, cfg):
    class G:
        ts = []
        def source(self):
            return text[text.index('\ngenerated source:\n') + 19:]
    exe, rc, out, cmd = build_one(ctx, cfg, G(), 'replay', ctx.obj(cfg, 'engine'))
    if rc:
        print(out[-4000:])
        return 1
    if text.startswith('kind: source'):
        return 0
    rc, out = run([exe, '--prop', ctx.prop, '--replay', path, '--tmp', ctx.tmp], env=base_env())
    print(out)
    return rc

def rng(ctx, salt):
    return random.Random(ctx.seed * 1000003 + salt)

def c18(ctx):
    r = rng(ctx, 18)
    items = []
    if ctx.quick:
        for cfg in ['san', 'g17', 'lim3', 'gm32', 'g11m', 'san', 'g20', 'lim3']:
            items.append((cfg, gen_over(r, 1, 10), 60000 if cfg == 'san' else 150000, 15))
        items.append(('g17', gen_over(r, 19, 23), 150000, 15))
        for cfg in ['g17', 'san', 'gm32']:
            items.append((cfg, gen_long(r, 21, 44), 40000, 15))
        items.append(('g11m', gen_long(r, 129, 136), 40000, 15))
        items.append(('san', gen_long(r, 61, 90), 40000, 15))
    else:
        for rep in range(3):
            for cfg in ['san', 'g17', 'lim3', 'gm32', 'g11m', 'san11', 'g20', 'gsan', 'c20', 'c23']:
                items.append((cfg, gen_over(r, 1, 14), 600000, 60))
                items.append((cfg, gen_long(r, 20, 48), 400000, 60))
            for cfg in ['g17', 'san', 'gm32', 'lim3']:
                items.append((cfg, gen_over(r, 17, 28), 600000, 60))
            for cfg in ['g11m', 'gm32', 'san', 'lim3']:
                items.append((cfg, gen_long(r, 49, 150), 400000, 60))
    search(ctx, items)
