"""C32: ratio<N, D> is the fraction in lowest terms, for generated N and D."""
import math, random
import progs

PRE = '#include <cstdio>\n#include <assert.h>\n#include <cstddef>\n#include <ratio>\n#include <type_traits>\nusing std::nullptr_t;\n#include "nanocstdint.h"\n#include "nanoratio.h"\n'
MAX = (1 << 63) - 1
SI = dict(atto=-18, femto=-15, pico=-12, nano=-9, micro=-6, milli=-3, centi=-2, deci=-1, deca=1, hecto=2, kilo=3, mega=6, giga=9, tera=12, peta=15, exa=18)


def number(r):
    c = r.randrange(9)
    if c == 0:
        v = r.randrange(0, 20)
    elif c == 1:
        v = 1 << r.randrange(0, 63)
    elif c == 2:
        v = 10 ** r.randrange(0, 19)
    elif c == 3:
        v = MAX - r.randrange(0, 3)
    elif c == 4:  # consecutive Fibonacci numbers need the most steps
        a, b = 0, 1
        for _ in range(r.randrange(1, 92)):
            a, b = b, a + b
        v = a
    elif c == 5:
        v = (1 << r.randrange(1, 63)) + r.choice([-1, 1])
    elif c == 6:
        v = r.choice([2147483647, 2147483648, 4294967295, 4294967296, 1000003, 998244353, 65536])
    else:
        v = r.getrandbits(r.randrange(1, 64))
    return max(0, min(v, MAX))


def case(r):
    n, d = number(r), number(r)
    if r.random() < 0.5:
        g = number(r) or 1
        n, d = n % max(1, MAX // g) * g, d % max(1, MAX // g) * g
    if d == 0:
        d = number(r) or 7
    if r.random() < 0.35:
        n = -n
    if r.random() < 0.35:
        d = -d
    return n, d


def lit(v):
    return '(%dLL)' % v


def row(n, d):
    g = math.gcd(abs(n), abs(d))
    s = -1 if (n < 0) != (d < 0) and n else 1
    en, ed = s * abs(n) // g, abs(d) // g
    return dict(prelude='typedef nanostl::ratio<%s, %s> R; typedef nanostl::ratio<%s, %s> Q;' % (lit(n), lit(d), lit(en), lit(ed)),
                expr='R::num == %s && R::den == %s && R::type::num == R::num && R::type::den == R::den && std::is_same<R::type, Q::type>::value && std::is_same<R::type::type, R::type>::value && '
                     'std::is_same<decltype(R::num), const nanostl::intmax_t>::value && sizeof(R::num) == 8' % (lit(en), lit(ed)),
                note='ratio<%d, %d> is %d/%d' % (n, d, en, ed)), g > 1 or n < 0 or d < 0


def check(ctx):
    per, units = (150, 800) if ctx['thorough'] else (150, 40)
    units = max(1, int(units * ctx['scale']))
    us, keys, non = [], set(), set()
    for i in range(units):
        r = random.Random('ratio %s %s' % (ctx['seed'], i))
        rows = []
        for _ in range(per):
            n, d = case(r)
            w, nt = row(n, d)
            rows.append(w)
            if nt:
                non.add((n, d))
        if i == 0:
            for k, e in sorted(SI.items()):
                rows.append(dict(prelude='typedef nanostl::%s R;' % k, expr='R::num == %s && R::den == %s' % (lit(10 ** max(e, 0)), lit(10 ** max(-e, 0))), note='%s is 10^%d' % (k, e)))
            rows.append(dict(prelude='typedef nanostl::ratio<6> R;', expr='R::num == 6 && R::den == 1', note='the denominator defaults to 1'))
        us.append((PRE, rows, []))
    u, bad = progs.run_units(ctx, us, 'ratio')
    n = sum(len(x[1]) for x in us)
    sub = dict(name='ratio', what='num, den and type of ratio<N, D> for generated 64-bit N and D', evaluations=n, nontrivial=len(non), distinct=len(non), exhaustive=False,
               samples=['ratio<%d, %d>' % p for p in sorted(non)[::max(1, len(non) // 5)][:5]])
    return progs.report(ctx, sub, u, bad)


replay = progs.replay
