import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')      # development only
INC = REPO + '/include'
HARN = ROOT + '/harness'
NCPU = min(8, os.cpu_count() or 4)
SAN = '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer'

# name -> (compiler, flags)
CONFIGS = {
    'san':    ('clang++', '-std=c++14 -O0 ' + SAN),
    'san11':  ('clang++', '-std=c++11 -O0 ' + SAN),
    'san17':  ('clang++', '-std=c++17 -O1 ' + SAN),
    'gsan':   ('g++', '-std=c++17 -O1 ' + SAN),
    'gsan14': ('g++', '-std=c++14 -O0 ' + SAN),
    'g17':    ('g++', '-std=c++17 -O1'),
    'g14':    ('g++', '-std=c++14 -O1'),
    'g11m':   ('g++', '-std=c++11 -O1 -DBOOST_VARIANT_MINIMIZE_SIZE'),
    'g20':    ('g++', '-std=c++20 -O2 -DNDEBUG'),
    'c20':    ('clang++', '-std=c++20 -O1'),
    'c11':    ('clang++', '-std=c++11 -O1'),
    'c23':    ('clang++', '-std=c++23 -O2 -DNDEBUG'),
    'lim3':   ('clang++', '-std=c++17 -O1 -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=3'),
    'gm32':   ('g++', '-std=c++14 -O2 -DBOOST_VARIANT_MINIMIZE_SIZE -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=2'),
    'relax':  ('g++', '-std=c++17 -O1 -DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT'),
    'tsan':   ('clang++', '-std=c++17 -O1 -fsanitize=thread'),
    'msan':   ('clang++', '-std=c++17 -O1 -fsanitize=memory -fno-omit-frame-pointer'),
}

class CheckError(Exception):
    pass

class Violation(Exception):
    def __init__(self, message, replay):
        self.message, self.replay = message, replay

def sha(b):
    return hashlib.sha256(b).hexdigest()

def read(p):
    with open(p, 'rb') as f:
        return f.read()

def run(cmd, timeout=600, env=None, cwd=None, stdin=None):
    """(rc, output); rc -9 on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -9, out.decode('utf-8', 'replace') + '\n[timeout]'

def base_env():
    e = dict(os.environ)
    for k in ('CPATH', 'CPLUS_INCLUDE_PATH', 'C_INCLUDE_PATH'):
        e.pop(k, None)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:report_signal_unsafe=0'
    e['LC_ALL'] = 'C'
    return e

_probe = {}
def tree_compiles(cxx, flags):
    """Does a minimal well-formed user of the headers compile with these flags?"""
    k = (cxx, flags)
    if k not in _probe:
        d = tempfile.mkdtemp(prefix='vprobe')
        try:
            f = d + '/p.cpp'
            with open(f, 'w') as o:
                o.write('#include <boost/variant.hpp>\nint main() { boost::variant<int, double> v(1); return v.which(); }\n')
            rc, out = run([cxx] + flags.split() + ['-w', '-I' + INC, '-fsyntax-only', f], env=base_env())
            _probe[k] = (rc == 0, out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _probe[k]

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.bdir = os.environ.get('VERIF_BUILD', ROOT + '/build')
        self.rdir = ROOT + '/evidence/replay'
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.t0 = time.time()
        self.parts = []          # per-run coverage records
        self.known = []
        self.nreplay = 0
        os.makedirs(self.bdir, exist_ok=True)
        os.makedirs(self.rdir, exist_ok=True)

    def replay_path(self, tag):
        self.nreplay += 1
        return '%s/%s-%s.txt' % (self.rdir, self.prop, tag)

    def compile_violation(self, what, cxx, flags, cmd, log):
        ok, out = tree_compiles(cxx, flags)
        if not ok:
            raise CheckError('the headers do not compile at all with %s %s:\n%s' % (cxx, flags, out[-3000:]))
        p = self.replay_path('compile')
        with open(p, 'w') as f:
            f.write('kind: compile\nproperty: %s\ncommand: %s\nmessage: %s does not compile\n\n%s\n' % (self.prop, ' '.join(cmd), what, log[:20000]))
        raise Violation('%s, a well-formed use of the library, does not compile' % what, p)

    # ---- harness objects -------------------------------------------------
    def obj(self, cfg, tu, extra=''):
        cxx, flags = CONFIGS[cfg]
        flags = (flags + ' ' + extra).strip()
        key = sha(('%s|%s|%s' % (cxx, flags, tu)).encode())[:16]
        base = '%s/%s-%s-%s' % (self.bdir, cfg, tu, key)
        o, dep, man = base + '.o', base + '.d', base + '.json'
        if os.path.exists(o) and os.path.exists(man):
            try:
                m = json.loads(read(man))
                if all(os.path.exists(p) and sha(read(p)) == h for p, h in m.items()):
                    return o
            except ValueError:
                pass
        cmd = [cxx] + flags.split() + ['-w', '-I' + INC, '-I' + HARN, '-MD', '-MF', dep, '-c', HARN + '/' + tu + '.cpp', '-o', o]
        rc, out = run(cmd, timeout=800, env=base_env())
        if rc != 0:
            rc, out = run(cmd, timeout=800, env=base_env())      # once more: rule out an overloaded machine
        if rc != 0:
            if ' error: ' not in out and 'error:' not in out:
                raise CheckError('compiler failure on %s: %s' % (tu, out[-2000:]))
            self.compile_violation('harness %s [%s]' % (tu, cfg), cxx, flags, cmd, out)
        deps = {}
        for w in read(dep).decode().replace('\\\n', ' ').split():
            if w.endswith(':'):
                continue
            w = os.path.normpath(w)
            if w.startswith(REPO) or w.startswith(ROOT):
                deps[w] = sha(read(w))
            if '/boost/variant/' in w and not w.startswith(INC + '/'):
                raise CheckError('harness took %s instead of the working tree' % w)
        with open(man + '.tmp', 'w') as f:
            json.dump(deps, f)
        os.replace(man + '.tmp', man)
        return o

    def build(self, jobs):
        """jobs: [(cfg, [tus], extra)] -> {index: binary}; compiles everything in one pool."""
        bins = {}
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fut = {}
            todo = []
            for n, (cfg, tus, extra) in enumerate(jobs):
                for tu in tus + ['engine']:
                    k = (cfg, tu, extra if tu != 'engine' else '')
                    if k not in todo:
                        todo.append(k)
            for k in todo:
                fut[k] = ex.submit(self.obj, *k)
            objs, first = {}, None
            for k, f in fut.items():
                try:
                    objs[k] = f.result()
                except (Violation, CheckError) as e:
                    first = first or e
            if first:
                raise first
            def link(n, cfg, tus, extra):
                cxx, flags = CONFIGS[cfg]
                b = '%s/bin-%s-%s-%d' % (self.bdir, self.prop, cfg, n)
                cmd = [cxx] + flags.split() + [objs[(cfg, t, extra if t != 'engine' else '')] for t in tus + ['engine']] + ['-o', b, '-lpthread']
                rc, out = run(cmd, env=base_env())
                if rc:
                    raise CheckError('link failed: ' + out[-2000:])
                return b
            lf = {n: ex.submit(link, n, *j) for n, j in enumerate(jobs)}
            for n, f in lf.items():
                bins[n] = f.result()
        return bins

    def pbt(self, binary, cfg, cases, only=None, time_s=120, maxlen=None, jobs=NCPU, extra=(), tag=None, seed=None):
        tag = tag or cfg
        out = self.tmp + '/%s.json' % tag
        rp = self.replay_path(tag)
        if os.path.exists(rp):
            os.remove(rp)
        wd = self.tmp + '/w-' + tag
        os.makedirs(wd, exist_ok=True)
        cmd = [binary, '--prop', self.prop, '--seed', str(self.seed if seed is None else seed), '--cases', str(cases), '--jobs', str(jobs), '--out', out,
               '--replay-out', rp, '--tmp', wd, '--time', str(time_s)]
        if only:
            cmd += ['--only', only]
        if maxlen:
            cmd += ['--maxlen', str(maxlen)]
        rc, log = run(cmd + list(extra), timeout=time_s + 200, env=base_env())
        if rc not in (0, 1) or not os.path.exists(out):
            raise CheckError('engine ended with %s: %s' % (rc, log[-2000:]))
        d = json.loads(read(out))
        d['config'] = '%s %s' % CONFIGS[cfg]
        self.parts.append(d)
        if d.get('unreproduced'):
            print('note: a failure that did not reproduce was dropped: %s' % d['unreproduced'])
        if rc == 1:
            with open(rp, 'a') as f:
                f.write('\nproperty: %s\nconfig: %s\nbinary: %s\n' % (self.prop, cfg, os.path.basename(binary)))
            raise Violation(d['message'], rp)
        return d

    def plan(self, jobs):
        """jobs: list of dicts {cfg, tus, cases, [only], [extra], [time], [maxlen]}: build all, then run each."""
        bins = self.build([(j['cfg'], j['tus'], j.get('extra', '')) for j in jobs])
        for n, j in enumerate(jobs):
            self.pbt(bins[n], j['cfg'], j['cases'], only=j.get('only'), time_s=j.get('time', 100 if self.quick else 1500), maxlen=j.get('maxlen'), tag='%s-%d' % (j['cfg'], n))

    def add(self, evaluations, distinct_nontrivial, samples, **kw):
        d = dict(evaluations=evaluations, distinct_nontrivial=distinct_nontrivial, samples=samples)
        d.update(kw)
        self.parts.append(d)

def known_findings():
    """id -> text for the entries 'known: property=Cxx id=<id> <text>'."""
    r = {}
    p = ROOT + '/known_findings.txt'
    if os.path.exists(p):
        for l in read(p).decode().splitlines():
            if l.startswith('known: '):
                w = l[7:].split(' ', 2)
                r[(w[0].split('=')[1], w[1].split('=')[1])] = w[2]
    return r

def write_evidence(ctx, spec, violations):
    ev = sum(p.get('evaluations', 0) for p in ctx.parts)
    dn = sum(p.get('distinct_nontrivial', 0) for p in ctx.parts)
    samples = []
    for p in ctx.parts:
        samples += p.get('samples', [])[:3]
    labels = {}
    for p in ctx.parts:
        for k, v in p.get('labels', {}).items():
            labels[k] = labels.get(k, 0) + v
    cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=spec['rule'], samples=samples[:8], labels=labels,
               runs=[{k: v for k, v in p.items() if k in ('config', 'evaluations', 'distinct_nontrivial', 'nontrivial', 'foreign', 'wall', 'cases', 'what')} for p in ctx.parts])
    for p in ctx.parts:
        if 'exhaustive' in p:
            cov['exhaustive_part'] = p['exhaustive']
    e = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=spec['level'], coverage=cov,
             assumptions=spec.get('assumptions', []), wall_s=round(time.time() - ctx.t0, 2), violations=violations)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    with open(ROOT + '/evidence/%s.json' % ctx.prop, 'w') as f:
        json.dump(e, f, indent=1)

def setup():
    for c in ('clang++', 'g++'):
        rc, out = run([c, '--version'])
        if rc:
            print('missing compiler', c)
            return 2
        ok, out = tree_compiles(c, '-std=c++14')
        print('%s: %s' % (c, 'headers compile' if ok else out[-500:]))
    return 0

def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == 'setup':
        return setup()
    import checks
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
        elif argv[i] == '--seed':
            seed = int(argv[i + 1])
        elif argv[i] == '--replay':
            replay = argv[i + 1]
        else:
            print('unknown argument', argv[i])
            return 2
        i += 2
    spec = checks.CHECKS[prop]
    ctx = Ctx(prop, tier, seed)
    try:
        if replay:
            return checks.replay(ctx, spec, replay)
        try:
            spec['run'](ctx)
        except Violation as v:
            write_evidence(ctx, spec, 1)
            print('message: %s' % v.message)
            print('VIOLATION property=%s replay=%s' % (prop, v.replay))
            return 1
        except CheckError as e:
            print('ERROR: %s' % e)
            return 2
        write_evidence(ctx, spec, 0)
        for k in ctx.known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        n = sum(p.get('evaluations', 0) for p in ctx.parts)
        d = sum(p.get('distinct_nontrivial', 0) for p in ctx.parts)
        print('%s %s seed=%d: held on %d generated cases (%d distinct non-trivial), %.1f s' % (prop, tier, seed, n, d, time.time() - ctx.t0))
        return 0
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
