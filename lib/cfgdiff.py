"""C20: the same generated histories in many builds; digests of everything
observed have to agree."""
import concurrent.futures as cf
import os
from vlib import CheckError, Violation, HARN, INC, NCPU, base_env, run, tree_compiles

# name -> (compiler, flags); the first one only serves as a name for the majority
CFG = {
    'g17':     ('g++', '-std=c++17 -O1'),
    'g11':     ('g++', '-std=c++11 -O0'),
    'g14':     ('g++', '-std=c++14 -O2'),
    'g20':     ('g++', '-std=c++20 -O2 -DNDEBUG'),
    'g23':     ('g++', '-std=c++23 -O3'),
    'c11':     ('clang++', '-std=c++11 -O2'),
    'c14':     ('clang++', '-std=c++14 -O0'),
    'c17':     ('clang++', '-std=c++17 -O1'),
    'c20':     ('clang++', '-std=c++20 -O2 -DNDEBUG'),
    'gmin':    ('g++', '-std=c++14 -O1 -DBOOST_VARIANT_MINIMIZE_SIZE'),
    'cmin':    ('clang++', '-std=c++17 -O1 -DBOOST_VARIANT_MINIMIZE_SIZE -funsigned-char'),
    'lim1':    ('clang++', '-std=c++14 -O1 -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=1'),
    'lim3':    ('g++', '-std=c++17 -O1 -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=3'),
    'lim2min': ('clang++', '-std=c++11 -O1 -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=2 -DBOOST_VARIANT_MINIMIZE_SIZE'),
    'lim64':   ('g++', '-std=c++11 -O1 -DBOOST_VARIANT_VISITATION_UNROLLING_LIMIT=64'),
    'relax':   ('clang++', '-std=c++14 -O1 -DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT -DBOOST_VARIANT_DO_NOT_SPECIALIZE_STD_HASH'),
    'noio':    ('g++', '-std=c++17 -O1 -DBOOST_NO_IOSTREAM'),
    'nortti':  ('clang++', '-std=c++17 -O1 -fno-rtti'),
    'noexc':   ('g++', '-std=c++14 -O1 -fno-exceptions'),
    'cnoexc':  ('clang++', '-std=c++17 -O1 -fno-exceptions -fno-rtti -DBOOST_VARIANT_MINIMIZE_SIZE'),
    'san':     ('clang++', '-std=c++14 -O1 -fsanitize=address,undefined -fno-sanitize-recover=all'),
}
COL = ['without failures', 'text output', 'with failures']

def build(ctx, part, cfg):
    cxx, flags = CFG[cfg]
    if part >= 3 and ctx.quick:
        flags = ' '.join('-O0' if w.startswith('-O') else w for w in flags.split())
    exe = '%s/cd-%s-%d' % (ctx.tmp, cfg, part)
    cmd = [cxx] + flags.split() + ['-w', '-DPART=%d' % part, '-I' + INC, HARN + '/cfgdiff.cpp', '-o', exe]
    rc, out = run(cmd, timeout=800, env=base_env())
    if rc:
        if 'error:' not in out:
            raise CheckError('compiler failure: ' + out[-1500:])
        return None, (cmd, out)
    return exe, None

def digests(exe, args, timeout=300):
    rc, out = run([exe] + args, timeout=timeout, env=base_env())
    rows = [l.split() for l in out.splitlines() if len(l) == 50]
    return rc, rows, out

def differ(a, b):
    """first column in which both have a digest and disagree"""
    for i in range(3):
        if a[i] != b[i] and '0' * 16 not in (a[i], b[i]):
            return i
    return None

def shrink(ea, eb, hexs, col):
    def bad(h):
        if not h:
            return False
        a, b = digests(ea, ['hex', h], 20), digests(eb, ['hex', h], 20)
        if a[0] or b[0]:
            return (a[0] != 0) != (b[0] != 0) and col == -1
        return col >= 0 and a[1] and b[1] and differ(a[1][0], b[1][0]) is not None
    b = [hexs[i:i + 2] for i in range(0, len(hexs), 2)]
    budget, size = 600, max(1, len(b) // 2)
    while size >= 1 and budget > 0:
        i, moved = 0, False
        while i < len(b) and budget > 0:
            c = b[:i] + b[i + size:]
            budget -= 1
            if bad(''.join(c)):
                b, moved = c, True
            else:
                i += size
        if not moved:
            size //= 2
    for i in range(len(b)):
        for v in ('00', '01'):
            budget -= 1
            if budget > 0 and b[i] != v and b[i] != '00' and bad(''.join(b[:i] + [v] + b[i + 1:])):
                b[i] = v
    return ''.join(b)

def report(ctx, part, ca, cb, hexs, msg, extra=''):
    p = ctx.replay_path('config')
    with open(p, 'w') as f:
        f.write('kind: config\nproperty: C20\npart: %d\nconfigs: %s %s\nbytes: %s\nmessage: %s\nflags a: %s %s\nflags b: %s %s\n\n%s' % ((part, ca, cb, hexs, msg) + CFG[ca] + CFG[cb] + (extra[:8000],)))
    raise Violation(msg, p)

def c20(ctx):
    allc = list(CFG)
    if ctx.quick:
        parts = {0: (allc, 3000), 1: (allc, 2000), 2: (['g17', 'g11', 'c11', 'c17', 'gmin', 'lim3', 'lim2min', 'relax', 'cnoexc', 'g20'], 2000),
                 3: (['g17', 'gmin', 'c17', 'lim2min'], 3000), 4: (['c17', 'cmin'], 3000)}
    else:
        parts = {p: (allc, 60000) for p in range(3)}
        for p in (3, 4, 5):
            parts[p] = (['g17', 'gmin', 'c17', 'cmin', 'lim2min', 'lim3', 'g11', 'c20'], 60000)
        parts[6] = (['g17', 'cmin', 'gmin', 'c17'], 60000)
    jobs = [(p, c) for p in sorted(parts, reverse=True) for c in parts[p][0]]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        exes = dict(zip(jobs, ex.map(lambda j: build(ctx, *j), jobs)))
    for (p, c), (exe, err) in exes.items():
        if err is None:
            continue
        if not tree_compiles(*CFG[c])[0]:
            # does the probe fail everywhere, or in this configuration only?
            if not any(tree_compiles(*CFG[x])[0] for x in allc if x != c):
                raise CheckError('the headers do not compile at all: ' + err[1][:1500])
        ok = [x for x in parts[p][0] if exes[(p, x)][0]]
        if not ok:
            raise CheckError('the program compiles in no configuration: ' + err[1][:1500])
        e = [l for l in err[1].splitlines() if 'error:' in l]
        report(ctx, p, c, ok[0], '', 'a program that compiles with [%s %s] does not compile with [%s %s]: %s' % (CFG[ok[0]] + CFG[c] + (e[0][-250:] if e else '',)), ' '.join(err[0]) + '\n' + err[1])
    total = cmpd = 0
    seed = str(ctx.seed)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = dict(zip(jobs, ex.map(lambda j: digests(exes[j][0], [seed, str(parts[j[0]][1])], 300 if ctx.quick else 1500), jobs)))
    for p in sorted(parts):
        cfgs, n = parts[p]
        crashed = [c for c in cfgs if res[(p, c)][0] != 0 or len(res[(p, c)][1]) != n]
        good = [c for c in cfgs if c not in crashed]
        if crashed and not good:
            print('note: part %d fails in every configuration; not a difference between configurations' % p)
            continue
        if crashed:
            c = crashed[0]
            rc, rows, out = res[(p, c)]
            hexs = digests(exes[(p, good[0])][0], [seed, str(n), str(len(rows))])[2].strip()
            hexs = shrink(exes[(p, c)][0], exes[(p, good[0])][0], hexs, -1) if hexs else hexs
            report(ctx, p, c, good[0], hexs, 'a history runs to its end with [%s %s] and crashes with [%s %s] (exit %s)' % (CFG[good[0]] + CFG[c] + (rc,)), out[-3000:])
        for i in range(n):
            rows = {c: res[(p, c)][1][i] for c in cfgs}
            for col in range(3):
                have = {c: r[col] for c, r in rows.items() if r[col] != '0' * 16}
                if len(set(have.values())) <= 1:
                    cmpd += max(0, len(have) - 1)
                    continue
                maj = max(set(have.values()), key=list(have.values()).count)
                a = [c for c in have if have[c] == maj][0]
                odd = [c for c in have if have[c] != maj]
                b = odd[0]
                hexs = digests(exes[(p, a)][0], [seed, str(n), str(i)])[2].strip()
                small = shrink(exes[(p, a)][0], exes[(p, b)][0], hexs, col)
                ta = run([exes[(p, a)][0], 'trace', small], timeout=20, env=base_env())[1].splitlines()
                tb = run([exes[(p, b)][0], 'trace', small], timeout=20, env=base_env())[1].splitlines()
                d = next((k for k in range(min(len(ta), len(tb))) if ta[k] != tb[k]), 0)
                report(ctx, p, a, b, small, 'a history (%s) is observed differently: "%s" with [%s %s], "%s" with [%s %s]; differing builds: %s' % (
                    COL[col], ta[d].strip() if ta else '', CFG[a][0], CFG[a][1], tb[d].strip() if tb else '', CFG[b][0], CFG[b][1], ' '.join(odd)),
                    'observations, first build:\n%s\n\nsecond build:\n%s\n' % ('\n'.join(ta[max(0, d - 20):d + 5]), '\n'.join(tb[max(0, d - 20):d + 5])))
        total += n
    sample = []
    for p in (0, 1):
        h = digests(exes[(p, 'g17')][0], [seed, '5', '2'])[2].strip()
        t = run([exes[(p, 'g17')][0], 'trace', h], timeout=20, env=base_env())[1]
        sample.append('part %d bytes %s: %s' % (p, h, ' | '.join(x.strip() for x in t.splitlines()[1:25])))
    distinct = sum(len({tuple(r) for r in res[(p, parts[p][0][0])][1]}) for p in parts)
    ctx.add(cmpd, distinct, sample, what='generated histories (%d) compared between builds' % total, labels={'builds': len(jobs), 'histories': total})

def replay(ctx, path, t, f):
    a, b = f['configs'].split()
    p = int(f['part'])
    ea, eb = build(ctx, p, a), build(ctx, p, b)
    if not ea[0] or not eb[0]:
        print('does not compile: %s' % (a if not ea[0] else b))
        return 1
    if not f.get('bytes'):
        return 0
    ra, rb = digests(ea[0], ['hex', f['bytes']]), digests(eb[0], ['hex', f['bytes']])
    print(ra[2], rb[2])
    return 1 if ra[0] != rb[0] or differ(ra[1][0], rb[1][0]) is not None else 0
