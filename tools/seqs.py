"""C35: tao::seq integer sequences, for generated sequences, compared with Python's integers."""
import random
import progs

HEADERS = ['integer_sequence', 'make_integer_sequence', 'at_index', 'exclusive_scan', 'inclusive_scan', 'is_all', 'map', 'minus', 'partial_sum', 'plus', 'select', 'sum', 'zip']
PRE = '''#include <cstdio>
#include <assert.h>
#include <cstddef>
#include <type_traits>
using std::nullptr_t;
''' + ''.join('#include "tao/seq/%s.hpp"\n' % h for h in HEADERS) + '''
using namespace tao;
template <class S> struct Iota;
template <class T, T... Ns> struct Iota<seq::integer_sequence<T, Ns...> > {
  static bool ok(unsigned long long n) {
    const T a[] = {Ns..., T()};
    for (unsigned long long i = 0; i < n; i++)
      if ((unsigned long long)a[i] != i) return false;
    return sizeof...(Ns) == n && seq::integer_sequence<T, Ns...>::size() == n && std::is_same<typename seq::integer_sequence<T, Ns...>::value_type, T>::value;
  }
};
template <int> struct Tag {};
struct Mix { template <class T, T A, T B> struct apply { static constexpr T value = A * 3 - B; }; };
'''
# type, lowest, highest value used
TYPES = [('signed char', -128, 127), ('char', -128, 127), ('unsigned char', 0, 255), ('short', -32768, 32767), ('unsigned short', 0, 65535), ('int', -2**31 + 1, 2**31 - 1),
         ('unsigned', 0, 2**32 - 1), ('long', -2**62, 2**62), ('unsigned long', 0, 2**62), ('long long', -2**62, 2**62), ('unsigned long long', 0, 2**62)]
RANK = {'int': 0, 'unsigned': 1, 'long': 2, 'unsigned long': 3, 'long long': 4, 'unsigned long long': 5}


def lit(v):
    return '(-%dLL)' % -v if v < 0 else '%dULL' % v if v > 2**63 - 1 else '%dLL' % v


def cast(t, v):
    return '(%s)%s' % (t, lit(v))


def seq(t, vs):
    return 'seq::integer_sequence<%s>' % ', '.join([t] + [cast(t, v) for v in vs])


def values(r, lo, hi, n):
    k = r.randrange(4)
    out = []
    for _ in range(n):
        if k == 0:
            v = r.randrange(max(lo, -3), 4)
        elif k == 1:
            v = r.choice([0, 1, lo // max(n, 1), hi // max(n, 1)])
        elif k == 2:
            v = r.randrange(lo // max(2 * n, 1), hi // max(2 * n, 1) + 1)
        else:
            v = r.randrange(max(lo, -100), min(hi, 100) // max(n, 1) + 1)
        out.append(v)
    return out


def fits(vs, lo, hi):
    return sum(v for v in vs if v > 0) <= hi and sum(v for v in vs if v < 0) >= -hi


def case(r):
    t, lo, hi = r.choice(TYPES)
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33])
    kind = r.choice(['make', 'sum', 'partial', 'excl', 'incl', 'plus', 'minus', 'zip', 'map', 'select', 'at', 'all'])
    if kind == 'make':
        k = r.randrange(4)
        top = min(hi, 3000)
        n = r.randrange(0, min(top, 40)) if k == 0 else min(top, r.choice([1 << b for b in range(12)]) + r.choice([-1, 0, 1])) if k < 3 else r.randrange(0, top + 1)
        n = max(n, 0)
        name = 'seq::make_index_sequence<%d>' % n if t == 'unsigned long' and r.random() < 0.5 else 'seq::make_integer_sequence<%s, %s>' % (t, cast(t, n))
        return dict(prelude='typedef %s X;' % name, expr='Iota<X>::ok(%d)' % n, note='%s counts from 0 to %d' % (name, n - 1)), n > 1
    if kind == 'at':
        ts = [r.choice(['int', 'char', 'void', 'int &', 'const int', 'int *', 'Tag<%d>' % r.randrange(4), 'void (*)()', 'double', 'int[3]', 'unsigned']) for _ in range(max(n, 1))]
        i = r.randrange(len(ts))
        return dict(prelude='typedef seq::at_index_t<%d, %s> X; typedef %s;' % (i, ', '.join(ts), 'void (*E)()' if ts[i] == 'void (*)()' else 'int E[3]' if ts[i] == 'int[3]' else ts[i] + ' E'),
                    expr='std::is_same<X, E>::value && seq::index_sequence_for<%s>::size() == %d' % (', '.join(ts), len(ts)), note='at_index_t<%d, %s>' % (i, ', '.join(ts))), len(ts) > 1
    if kind == 'all':
        p = r.choice([0.5, 0.95, 1])
        bs = [r.random() < p for _ in range(n)]
        return dict(prelude='', expr='seq::is_all<%s>::value == %s' % (', '.join(map(str, bs)).lower(), str(all(bs)).lower()), note='is_all<%s>' % ', '.join(map(str, bs)).lower()), n > 1
    vs = values(r, lo, hi, n)
    while not fits(vs, lo, hi):
        vs = [v // 2 for v in vs]
    args = ', '.join([t] + [cast(t, v) for v in vs])
    whole = seq(t, vs)
    show = '%s of %s %s' % (kind, t, vs)
    if kind == 'sum':
        return dict(prelude='typedef seq::sum<%s> X; typedef seq::sum<%s> Y;' % (args, whole), expr='X::value == %s && Y::value == %s && std::is_same<decltype(X::value), const %s>::value' % (cast(t, sum(vs)), cast(t, sum(vs)), t), note=show), n > 1
    if kind == 'partial':
        i = r.randrange(n + 1)
        e = cast(t, sum(vs[:i]))
        return dict(prelude='typedef seq::partial_sum<%d, %s> X; typedef seq::partial_sum<%d, %s> Y;' % (i, args, i, whole), expr='X::value == %s && Y::value == %s' % (e, e), note='first %d: %s' % (i, show)), 0 < i
    if kind == 'excl':
        e = seq(t, [sum(vs[:i]) for i in range(n)])
        return dict(prelude='typedef seq::exclusive_scan_t<%s> X; typedef seq::exclusive_scan<%s>::type Y; typedef %s E;' % (args, whole, e), expr='std::is_same<X, E>::value && std::is_same<Y, E>::value', note=show), n > 1
    if kind == 'incl':
        e = seq(t, [sum(vs[:i + 1]) for i in range(n)])
        return dict(prelude='typedef seq::inclusive_scan_t<%s> X; typedef seq::inclusive_scan<%s>::type Y; typedef %s E;' % (args, whole, e), expr='std::is_same<X, E>::value && std::is_same<Y, E>::value', note=show), n > 1
    if kind in ('plus', 'minus', 'zip'):
        t2, lo2, hi2 = r.choice(TYPES)
        ws = values(r, max(lo2, -100), min(hi2, 100), n)
        signed = not t.startswith('u') and not t2.startswith('u')
        if t2 != t and (t in RANK and t2 in RANK):
            ct = t if RANK[t] > RANK[t2] else t2
            ct = 'unsigned long long' if {t, t2} == {'unsigned long', 'long long'} else ct
        elif t == t2:
            ct = t
        else:
            ct = t if t in RANK else t2 if t2 in RANK else 'int'
        lo3, hi3 = [(a, b) for x, a, b in TYPES if x == ct][0]
        f = dict(plus=lambda a, b: a + b, minus=lambda a, b: a - b, zip=lambda a, b: 3 * a - b)[kind]
        es = [f(a, b) for a, b in zip(vs, ws)]
        if any(not lo3 <= x <= hi3 for x in es + vs + ws + [3 * v for v in vs]):  # no overflow, no change of sign
            return case(r)
        x = {'plus': 'seq::plus_t<%s, %s>', 'minus': 'seq::minus_t<%s, %s>', 'zip': 'seq::zip_t<Mix, %s, %s>'}[kind] % (whole, seq(t2, ws))
        return dict(prelude='typedef %s X; typedef %s E;' % (x, seq(ct, es)), expr='std::is_same<X, E>::value', note='%s with %s %s' % (show, t2, ws)), n > 1
    if n == 0:
        return case(r)
    if kind == 'map':
        ix = [r.randrange(n) for _ in range(r.randrange(0, 12))]
        return dict(prelude='typedef seq::map_t<seq::index_sequence<%s>, %s> X; typedef %s E;' % (', '.join(map(str, ix)), whole, seq(t, [vs[i] for i in ix])), expr='std::is_same<X, E>::value', note='%s at %s' % (show, ix)), n > 1 and len(ix) > 1
    i = r.randrange(n)
    return dict(prelude='typedef seq::select<%d, %s> X; typedef seq::select<%d, %s> Y;' % (i, args, i, whole), expr='X::value == %s && Y::value == %s' % (cast(t, vs[i]), cast(t, vs[i])), note='%s at %d' % (show, i)), n > 1


def check(ctx):
    per, units = (100, 8000) if ctx['thorough'] else (100, 128)
    units = max(1, int(units * ctx['scale']))
    us, non, n = [], set(), 0
    for i in range(units):
        r = random.Random('seq %s %s' % (ctx['seed'], i))
        rows = []
        for _ in range(per):
            w, nt = case(r)
            rows.append(w)
            if nt:
                non.add(w['note'])
        if i < 8:  # every length up to 300 once, and the longest of the narrow types
            for k in range(i, 300, 8):
                rows.append(dict(prelude='typedef seq::make_index_sequence<%d> X;' % k, expr='Iota<X>::ok(%d)' % k, note='make_index_sequence<%d>' % k))
            t, lo, hi = TYPES[i % 5]
            k = min(hi, 9000)
            rows.append(dict(prelude='typedef seq::make_integer_sequence<%s, %d> X;' % (t, k), expr='Iota<X>::ok(%d)' % k, note='make_integer_sequence<%s, %d>' % (t, k)))
        us.append((PRE, rows, ['-fconstexpr-depth=2000', '-ftemplate-depth=2000', '-std=' + ['c++11', 'c++17', 'c++14', 'c++20'][i % 4]]))
        n += len(rows)
    u, bad = progs.run_units(ctx, us, 'seq')
    s = sorted(non)
    sub = dict(name='sequences', what='generated integer sequences and type lists through every operation of tao/seq', evaluations=n, nontrivial=len(non), distinct=len(non), exhaustive=False,
               samples=[x[:200] for x in s[::max(1, len(s) // 5)][:5]])
    return progs.report(ctx, sub, u, bad)


replay = progs.replay
