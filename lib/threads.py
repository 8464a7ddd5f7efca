"""C21: concurrent const operations, under ThreadSanitizer and without."""
import concurrent.futures as cf
import os
from vlib import CheckError, Violation, HARN, INC, NCPU, base_env, run

CFG = {
    'tsan':  ('clang++', '-std=c++17 -O1 -g -fsanitize=thread'),
    'gtsan': ('g++', '-std=c++14 -O1 -g -fsanitize=thread'),
    'plain': ('g++', '-std=c++11 -O2'),
    'asan':  ('clang++', '-std=c++20 -O1 -fsanitize=address,undefined -fno-sanitize-recover=all'),
    'min':   ('clang++', '-std=c++14 -O2 -DBOOST_VARIANT_MINIMIZE_SIZE'),
}

def env():
    e = base_env()
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_signal_unsafe=0'
    e['ASAN_OPTIONS'] = 'detect_leaks=0'
    return e

def build(ctx, cfg):
    cxx, flags = CFG[cfg]
    exe = '%s/thr-%s' % (ctx.tmp, cfg)
    cmd = [cxx] + flags.split() + ['-w', '-I' + INC, HARN + '/threads.cpp', '-o', exe, '-lpthread']
    rc, out = run(cmd, timeout=800, env=base_env())
    if rc:
        if 'error:' not in out:
            raise CheckError('compiler failure: ' + out[-1500:])
        ctx.compile_violation('harness threads [%s]' % cfg, cxx, flags, cmd, out)
    return exe

def usable(ctx, cfg):
    """does a sanitised threaded program run at all here?"""
    cxx, flags = CFG[cfg]
    src, exe = ctx.tmp + '/tp-%s.cpp' % cfg, ctx.tmp + '/tp-%s' % cfg
    with open(src, 'w') as f:
        f.write('#include <thread>\nint main() { int x = 0; std::thread t([&] { x = 1; }); t.join(); return x == 1 ? 0 : 2; }\n')
    rc, out = run([cxx] + flags.split() + [src, '-o', exe, '-lpthread'], env=base_env())
    if rc:
        return False
    return all(run([exe], timeout=60, env=env())[0] == 0 for _ in range(3))

def first_line(out):
    for l in out.splitlines():
        if l.startswith('FAIL '):
            return l[5:]
        if 'ThreadSanitizer' in l or 'AddressSanitizer' in l or 'runtime error' in l:
            return l.strip()
    return out[-200:].replace('\n', ' ')

def bad(exe, hexs, tries=3):
    for _ in range(tries):
        rc, out = run([exe, 'hex', hexs], timeout=120, env=env())
        if rc:
            return rc, out
    return None

def c21(ctx):
    plan = {'tsan': 1500, 'gtsan': 1000, 'plain': 6000, 'asan': 1500, 'min': 6000} if ctx.quick else {'tsan': 40000, 'gtsan': 40000, 'plain': 200000, 'asan': 40000, 'min': 200000}
    for c in ('tsan', 'gtsan'):
        if not usable(ctx, c):
            print('note: ThreadSanitizer (%s) does not run in this sandbox; results and bytes are still compared' % c)
            plan.pop(c)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        exes = dict(zip(plan, ex.map(lambda c: build(ctx, c), plan)))
    jobs = [(c, k) for c in plan for k in range(4)]
    def go(j):
        c, k = j
        cur = '%s/cur-%s-%d' % (ctx.tmp, c, k)
        rc, out = run([exes[c], str(ctx.seed * 16 + k), str(plan[c] // 4), cur], timeout=300 if ctx.quick else 3000, env=env())
        return rc, out, cur
    with cf.ThreadPoolExecutor(4) as ex:        # the cases are threaded themselves
        rs = list(ex.map(go, jobs))
    n = heap = thr = 0
    for (c, k), (rc, out, cur) in zip(jobs, rs):
        if rc == 0 and 'SUMMARY' in out:
            a = [int(x) for x in out.split('SUMMARY ')[1].split()[:3]]
            n += a[0]; heap += a[1]; thr += a[2]
            continue
        hexs = open(cur).read() if os.path.exists(cur) else ''
        r = bad(exes[c], hexs, 10) if hexs else None
        if r is None:
            # a race seen once is a race: ThreadSanitizer has no false alarms on this program's own accesses; other failures have to repeat
            if 'ThreadSanitizer: data race' not in out:
                print('note: a failure did not reproduce: ' + first_line(out))
                continue
            r = (rc, out)
        else:
            b = [hexs[i:i + 2] for i in range(0, len(hexs), 2)]
            size, budget = max(1, len(b) // 2), 150
            while size >= 1 and budget > 0:
                i, moved = 0, False
                while i < len(b) and budget > 0:
                    t = b[:i] + b[i + size:]
                    budget -= 1
                    if t and bad(exes[c], ''.join(t), 2):
                        b, moved = t, True
                    else:
                        i += size
                if not moved:
                    size //= 2
            hexs = ''.join(b)
            r = bad(exes[c], hexs, 10) or r
        p = ctx.replay_path('threads')
        trace = run([exes[c], 'trace', hexs], timeout=60, env=env())[1]
        with open(p, 'w') as f:
            f.write('kind: threads\nproperty: C21\nconfig: %s\nbytes: %s\nmessage: %s\n\n%s\n%s\n' % (c, hexs, first_line(r[1]), trace[:3000], r[1][:8000]))
        raise Violation('concurrent or repeated const operations: %s' % first_line(r[1]), p)
    e = exes[list(plan)[0]]
    sample = run([e, 'trace', '04' + '1b2c3d4e5f' * 12], timeout=60, env=env())[1]
    ctx.add(n, heap, [' | '.join(x.strip() for x in sample.splitlines()[:14])], what='threaded cases', labels={'threads started': thr, 'cases with heap-held shared content': heap})

def replay(ctx, path, t, f):
    r = bad(build(ctx, f['config']), f['bytes'], 20)
    print(r[1][:3000] if r else 'passes')
    return 1 if r else 0
