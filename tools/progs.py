"""Generated programs: rows of compile-time facts, compiled against /repo and against the C++ library.

A row is (key, prelude, expr, note): the program defines `prelude` at namespace scope and prints the row when
the constant expression `expr` is false.  Rows are packed into translation units that compile in parallel; a
failing row (or one that does not compile) is reproduced alone, three times, then reported.
"""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor

CXX = 'g++-13'


def compile_run(ctx, src, flags, name, run=True, timeout=300):
    """Returns ('ok', output) | ('compile', log) | ('crash', output)."""
    cc = os.path.join(ctx['tmp'], name + '.cc')
    exe = os.path.join(ctx['tmp'], name)
    with open(cc, 'w') as f:
        f.write(src)
    r = subprocess.run([CXX] + ctx['base'] + ['-O0'] + flags + [cc, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        bad = any(w in r.stdout for w in ('internal compiler error', 'Killed', 'out of memory', 'cannot allocate', 'No space left'))
        if bad or ': error: ' not in r.stdout and 'undefined reference' not in r.stdout and 'multiple definition' not in r.stdout:
            raise RuntimeError('the compiler failed: ' + r.stdout[-3000:])
        return 'compile', r.stdout
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=ctx['env'])
    finally:
        for x in (cc, exe):
            if os.path.exists(x):
                os.unlink(x)
    if p.returncode:
        return 'crash', p.stdout + '\n(exit status %d)' % p.returncode
    return 'ok', p.stdout


def unit(pre, rows):
    out = [pre, 'static int bad(int i) { return printf("BAD %d\\n", i); }']
    body = []
    for i, r in enumerate(rows):
        out.append('namespace row%d { %s\nstatic const bool ok = bool(%s); }' % (i, r['prelude'], r['expr']))
        body.append('if (!row%d::ok) bad(%d);' % (i, i))
    return '\n'.join(out) + '\nint main() {\n' + '\n'.join(body) + '\nreturn 0; }\n'


def test_rows(ctx, pre, rows, flags, name):
    """The rows of one unit that fail; bisects units that do not compile."""
    kind, out = compile_run(ctx, unit(pre, rows), flags, name)
    if kind == 'ok':
        return [(rows[int(l.split()[1])], 'false') for l in out.split('\n') if l.startswith('BAD ')]
    if len(rows) == 1:
        return [(rows[0], kind + ': ' + '\n'.join([l for l in out.split('\n') if 'error' in l][:4] or [out[-500:]]))]
    h = len(rows) // 2
    first = test_rows(ctx, pre, rows[:h], flags, name)
    return first if first else test_rows(ctx, pre, rows[h:], flags, name)


def run_units(ctx, units, name):
    """units: list of (pre, rows, flags).  Returns the failing rows of the first failing unit, or []."""
    with ThreadPoolExecutor(ctx['workers']) as ex:
        res = list(ex.map(lambda a: test_rows(ctx, a[1][0], a[1][1], a[1][2], '%s%d' % (name, a[0])), enumerate(units)))
    for u, r in zip(units, res):
        if r:
            return u, r
    return None, []


def stable(ctx, pre, row, flags, name):
    for k in range(3):
        r = test_rows(ctx, pre, [row], flags, name)
        if not r:
            return None
    return r[0][1]


def write_replay(path, pid, sub, pre, flags, row, why):
    with open(path, 'w') as f:
        f.write('property %s\nsub %s\nfailure %s\n--- case ---\n%s\n--- json ---\n' % (pid, sub, why.replace('\n', ' | '), row['note']))
        json.dump(dict(pre=pre, flags=flags, row=row), f)
        f.write('\n')


def replay(path, tmp, repo, base, env=None):
    t = open(path, errors='replace').read()
    if '--- json ---' not in t:
        return 2
    j = json.loads(t.split('--- json ---', 1)[1])
    ctx = dict(tmp=tmp, base=base, env=env or dict(os.environ), workers=1)
    r = test_rows(ctx, j['pre'], [j['row']], j['flags'], 'replay')
    print('%s: %s' % (j['row']['note'], 'FAILS ' + r[0][1] if r else 'holds'))
    return 1 if r else 0


def report(ctx, sub, u, bad):
    """The result of a check: reproduces the shortest failing row alone, three times, and writes its replay."""
    res = dict(subs=[sub])
    if not bad:
        print('%s: held on %d rows (%d distinct non-trivial)' % (sub['name'], sub['evaluations'], sub['distinct']))
        return res
    pre, rows, flags = u
    for row, why in sorted(bad, key=lambda b: len(b[0]['note'])):
        w = stable(ctx, pre, row, flags, 'stable')
        if w:
            sub['failed'], sub['message'] = True, row['note'] + ': ' + w
            print('counterexample: %s\n%s\n%s' % (row['note'], row['prelude'], w))
            write_replay(ctx['replay'], ctx['id'], sub['name'], pre, flags, row, w)
            res['violation'] = True
            return res
    raise RuntimeError('a failing row did not reproduce alone: %s' % bad[0][0]['note'])
