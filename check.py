#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

  python3 check.py C01 [--thorough] [--seed N] [--scale F] [--only SUB]
  python3 check.py C01 --replay replays/C01-xxxx.txt

Exit 0: held; 1: a line "VIOLATION property=<id> replay=<path>"; 2: the check itself failed.
"""
import argparse, fcntl, glob, hashlib, importlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
import simobj
import table

REPO = os.environ.get('NANOSTL_REPO', '/repo')
BASE = ['-std=c++11', '-w', '-fpermissive', '-DFASTFLOAT_FAST_FLOAT_H', '-DNANOSTL__NULLPTR',
        '-I' + os.path.join(HERE, 'harness'), '-idirafter', os.path.join(REPO, 'include')]
MODES = {
    # memory errors, reads of uninitialised locals and of fresh heap memory become visible
    'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-flifetime-dse=1'],
    'fast': ['-O2', '-g0', '-ftrivial-auto-var-init=pattern', '-flifetime-dse=1'],
    'plain': ['-O0', '-g0'],
    'sim': ['-O1', '-g0'],
}
ASAN = ('detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=190:allocator_may_return_null=1:'
        'detect_stack_use_after_return=1:symbolize=0:quarantine_size_mb=16:abort_on_error=0:exitcode=99')


def die(msg):
    print('check error: ' + msg)
    sys.stdout.flush()
    sys.exit(2)


def build(name, src, mode, out, extra=(), cxx='g++-13'):
    cmd = [cxx] + BASE + MODES[mode] + list(extra) + [os.path.join(HERE, 'harness', src), '-o', out]
    return cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.id not in table.CHECKS:
        die('unknown property ' + a.id)
    c = table.CHECKS[a.id]
    thorough = a.thorough or os.environ.get('VERIF_TIER') == 'thorough'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    bdir = os.path.join(HERE, 'build', a.id + '.%d' % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        rc = run(a, c, thorough, seed, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def rejected(cmd, log, bdir):
    """Whether the compiler works and says, again, that this source is wrong (rather than having failed itself)."""
    broken = ('internal compiler error', 'Killed', 'out of memory', 'annot allocate', 'No space left', 'memory exhausted')
    for k in range(2):
        if any(w in log for w in broken) or not any(w in log for w in (' error: ', 'fatal error: ', 'undefined reference', 'multiple definition')):
            return False
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode == 0:
            return False
        log = r.stdout
    t = os.path.join(bdir, 'control.cc')
    with open(t, 'w') as f:
        f.write('#include "pbt.h"\nint main() { return 0; }\n')
    flags = [x for k, x in enumerate(cmd) if k and (x.startswith('-') or not x.endswith('.cc') and (not x.endswith('.o') or cmd[k - 1] == '-o'))]
    return subprocess.run([cmd[0], t] + flags, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def evidence(a, c, thorough, seed, t0, subs, violations):
    samples = []
    for s in subs:
        samples += [{'sub': s['name'], 'case': x} for x in s.get('samples', [])[:2]]
        if not s.get('samples') and s.get('points'):
            samples += [{'sub': s['name'], 'case': x} for x in s['points'][:3]]
    ev = {
        'property': a.id, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in subs),
            'distinct_nontrivial': sum(s['distinct'] for s in subs),
            'rule': c['rule'],
            'samples': samples[:24],
            'exhaustive': bool(subs) and all(s.get('exhaustive') for s in subs),
            'sub_properties': [{k: s[k] for k in ('name', 'what', 'evaluations', 'nontrivial', 'distinct', 'exhaustive', 'labels', 'failed', 'message') if k in s} for s in subs],
        },
        'assumptions': c.get('assumptions', []) + table.COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    if not a.only:
        p = os.path.join(HERE, 'evidence', a.id + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
    return ev


def run(a, c, thorough, seed, bdir, t0):
    env = dict(os.environ, ASAN_OPTIONS=ASAN, LC_ALL='C')
    subs, violations, rc = [], 0, 0
    # the library's own translation unit, where a harness needs it: as it is, or under the scheduler of simthread.h
    objects = []
    for i, h in enumerate(c.get('harness', [])):
        if len(h) > 3:
            out = os.path.join(bdir, 'o%d.o' % i)
            cmd = simobj.compile_cmd(os.path.join(REPO, 'src/nanothread.cc'), REPO, os.path.join(HERE, 'harness'), out, h[3][1], h[3][0] == 'sim')
            objects.append(('src/nanothread.cc', out, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    done = []
    for src, out, cmd, p in objects:
        o, _ = p.communicate()
        done.append((src, out, cmd, p, o))
    builds = []
    if not any(x[3].returncode for x in done):
        objects = []
        for i, h in enumerate(c.get('harness', [])):
            out = os.path.join(bdir, 'h%d' % i)
            src, mode = h[0], h[1]
            extra = [x.replace('$REPO', REPO) for x in (h[2] if len(h) > 2 else [])]
            if len(h) > 3:
                obj = os.path.join(bdir, 'o%d.o' % i)
                if h[3][0] == 'sim':
                    try:
                        simobj.redirect(obj, os.path.join(HERE, 'harness'))
                    except simobj.Unsupported as e:
                        die(str(e))
                extra = extra + [obj]
            builds.append((src, out) + build(a.id, src, mode, out, extra))
        done = [b + (b[3].communicate()[0],) for b in builds]
    for src, out, cmd, p, o in done:
        if p.returncode:
            print(' '.join(cmd))
            print(o[-6000:])
            if 'undefined reference to `sim' in o or not rejected(cmd, o, bdir):
                die('%s could not be compiled' % src)
            # the library does not offer what the property needs: its interface is not usable as it was
            if a.replay:
                print('FAILS: %s does not compile' % src)
                return 1
            r = os.path.join(HERE, 'replays', '%s-compile-%s.txt' % (a.id, hashlib.sha1(o.encode()).hexdigest()[:8]))
            with open(r, 'w') as f:
                f.write('property %s\nsub compile\nfailure %s does not compile\n--- case ---\n%s\n%s\n' % (a.id, src, ' '.join(cmd), o[-20000:]))
            print('VIOLATION property=%s replay=%s' % (a.id, r))
            evidence(a, c, thorough, seed, t0, [dict(name='compile', what=src + ' compiles', evaluations=1, nontrivial=1, distinct=1, exhaustive=False, failed=True, message=o[-300:])], 1)
            return 1
    if a.replay:
        if '\nsub compile\n' in open(a.replay, errors='replace').read(2000):
            print('holds: everything compiles')
            return 0
        rcs = []
        for src, out, cmd, p in builds:
            rcs.append(subprocess.run([out, '--replay', a.replay, '--tmp', bdir], env=env).returncode)
        if 1 in rcs or 0 in rcs:
            return 1 if 1 in rcs else 0
        if 'module' in c:
            return importlib.import_module(c['module']).replay(a.replay, bdir, REPO, BASE)
        return 2
    stamp = hashlib.sha1(('%s %s %s' % (a.id, seed, time.time())).encode()).hexdigest()[:8]
    replay = os.path.join(HERE, 'replays', '%s-%s.txt' % (a.id, stamp))
    for i, (src, out, cmd, p) in enumerate(builds):
        stats = os.path.join(bdir, 'stats%d.json' % i)
        args = [out, '--id', a.id, '--seed', str(seed), '--tmp', bdir, '--stats', stats, '--replay-out', replay,
                '--workers', str(a.workers), '--scale', str(a.scale)]
        if thorough:
            args.append('--thorough')
        if a.only:
            args += ['--only', a.only]
        r = subprocess.run(args, env=env)
        if os.path.exists(stats):
            subs += json.loads(open(stats, encoding='latin-1').read(), strict=False)['subs']
        if r.returncode == 1:
            violations += 1
            rc = 1
            break
        if r.returncode:
            die('%s ended with %d' % (src, r.returncode))
    if rc == 0 and 'module' in c and not a.only:
        m = importlib.import_module(c['module'])
        r = m.check(dict(id=a.id, thorough=thorough, seed=seed, tmp=bdir, repo=REPO, base=BASE, here=HERE, env=env,
                         workers=a.workers, scale=a.scale, replay=replay))
        subs += r['subs']
        if r.get('violation'):
            violations += 1
            rc = 1
            print('VIOLATION property=%s replay=%s' % (a.id, replay))
        sys.stdout.flush()
    ev = evidence(a, c, thorough, seed, t0, subs, violations)
    if rc == 0:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            if l.startswith('finding: property=%s ' % a.id):
                print('KNOWN-FINDING: ' + l[len('finding: '):].strip())
        print('%s: held on %d cases, %d distinct non-trivial, %.1f s' % (a.id, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return rc


if __name__ == '__main__':
    main()
