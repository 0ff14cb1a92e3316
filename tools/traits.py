"""C33: the type traits agree with the C++ library's, on generated types."""
import random
import progs

PRE = r'''
#include <cstdio>
#include <type_traits>
#include <utility>
#include "nano_traits_pre.h"
'''
CLASSES_FIXED = r'''
enum E { e0 }; enum class EC : char { a }; enum class EU : unsigned long long { a };
struct Empty {}; struct Pod { int a; }; struct Fin final {}; union U { int a; float b; };
struct Abs { virtual void f() = 0; virtual ~Abs(); }; struct Der : Pod {}; struct Der2 : Pod { int b; }; struct DerE : Empty {}; struct Poly { virtual ~Poly(); };
struct Virt : virtual Empty {}; struct StaticOnly { static int x; void f(); typedef int t; }; union UE {};
template <class T> struct Tmpl { T v; };
'''
BASES = ['bool', 'char', 'signed char', 'unsigned char', 'wchar_t', 'short', 'unsigned short', 'int', 'unsigned', 'long',
         'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double', 'std::nullptr_t']
CLS = ['E', 'EC', 'EU', 'Empty', 'Pod', 'Fin', 'U', 'Abs', 'Der', 'Der2', 'DerE', 'Poly', 'Virt', 'StaticOnly', 'UE', 'Tmpl<int>', 'Tmpl<Empty>']
FINAL = {'Fin'}
ABSTRACT = {'Abs'}

UNARY = ('is_void is_array is_integral is_floating_point is_arithmetic is_signed is_unsigned is_lvalue_reference is_rvalue_reference '
         'is_reference is_const is_function is_pointer is_enum is_union is_class is_object is_scalar is_member_pointer '
         'is_member_function_pointer is_destructible is_default_constructible is_copy_constructible is_move_constructible '
         'is_copy_assignable is_move_assignable is_trivially_default_constructible is_trivially_copy_constructible '
         'is_trivially_move_constructible is_empty is_abstract is_final').split()
NOTHROW = ('is_nothrow_default_constructible is_nothrow_copy_constructible is_nothrow_move_constructible '
           'is_nothrow_copy_assignable is_nothrow_move_assignable').split()
TRANSFORM = ('remove_const remove_volatile remove_cv remove_reference remove_extent remove_all_extents add_pointer add_const '
             'add_lvalue_reference add_rvalue_reference decay').split()
BINARY = 'is_same is_constructible is_assignable is_convertible is_trivially_constructible common_type conditional'.split()
NOTHROW2 = 'is_nothrow_constructible is_nothrow_assignable'.split()


class T:  # a type term
    def __init__(s, op, *kids):
        s.op, s.kids = op, kids

    def cpp(s):
        if not s.kids:
            return s.op
        return '%s<%s>' % (s.op, ', '.join(k.cpp() for k in s.kids))

    def kind(s):
        o = s.op
        if o == 'void':
            return 'void'
        if not s.kids:
            return 'obj'
        if o in ('C', 'V'):
            return s.kids[0].kind()
        if o in ('R', 'RR'):
            return 'ref'
        if o == 'AU':
            return 'unbound'
        if o == 'A3':
            return 'array'
        if o in ('F', 'F0', 'F2', 'FV', 'FC'):
            return 'fun' if o != 'FC' else 'cfun'
        return 'obj'

    def leaf(s):
        return s.op if not s.kids else s.kids[0].leaf() if s.op in ('C', 'V', 'A3', 'AU') else ''

    def size(s):
        return 1 + sum(k.size() for k in s.kids)


def valid(t):
    if not all(valid(k) for k in t.kids):
        return False
    k = [x.kind() for x in t.kids]
    o = t.op
    if o == 'P':
        return k[0] not in ('ref', 'cfun')
    if o in ('R', 'RR'):
        return k[0] not in ('void', 'cfun')
    if o in ('A3', 'AU'):
        return k[0] in ('obj', 'array') and t.kids[0].leaf() not in ABSTRACT
    if o in ('F', 'F0', 'F2', 'FC', 'FV'):
        ok = k[0] in ('obj', 'void', 'ref') and t.kids[0].leaf() not in ABSTRACT
        return ok and all(k[i] in ('obj', 'ref') and t.kids[i].leaf() not in ABSTRACT for i in range(1, len(k)))
    if o == 'M':
        return k[0] in ('obj', 'array', 'fun', 'cfun')
    return True


def gen_type(r, leaves, depth):
    for _ in range(50):
        if depth == 0 or r.random() < 0.25:
            t = T('void') if r.random() < 0.06 else T(r.choice(leaves))
        else:
            op = r.choice('P P C C V R R RR A3 A3 AU F F0 F2 FV FC M'.split())
            kids = [gen_type(r, leaves, depth - 1) for _ in range({'F': 2, 'F2': 3}.get(op, 1))]
            t = T(op, *kids)
        if valid(t):
            return t
    return T('int')


def gen_class(r, i):
    """A random class definition; returns (name, text, facts)."""
    n = 'G%d' % i
    lines, bases = [], []
    for b in ('Empty', 'Pod', 'Poly', 'Abs'):
        if r.random() < 0.12:
            bases.append(r.choice(['', 'virtual ', 'private ']) + b)
    abstract = any(b.endswith('Abs') for b in bases)
    if r.random() < 0.1:
        lines.append('virtual void pure() = 0;')
        abstract = True
    ex = lambda: r.choice(['', '', 'noexcept', 'noexcept(false)', 'noexcept(true)'])
    access = lambda: r.choice(['public:', 'public:', 'public:', 'public:', 'private:', 'protected:'])

    def special(sig, p, ret=''):
        if r.random() > p:
            return
        how = r.choice(['user', 'user', 'delete', 'default'])
        lines.append('%s %s%s %s%s;' % (access(), ret, sig, ex() if how == 'user' else '', {'user': '', 'delete': ' = delete', 'default': ' = default'}[how]))
    special('%s()' % n, 0.5)
    special('%s(const %s&)' % (n, n), 0.35)
    special('%s(%s&&)' % (n, n), 0.3)
    special('operator=(const %s&)' % n, 0.3, n + '& ')
    special('operator=(%s&&)' % n, 0.3, n + '& ')
    if r.random() < 0.2:
        lines.append('public: %s%s(int) %s;' % (r.choice(['', 'explicit ']), n, ex()))
    if r.random() < 0.15:
        lines.append('public: %s(int, const char*) %s;' % (n, ex()))
    if r.random() < 0.15:
        lines.append('public: template <class Q> %s%s(Q&&, long) %s;' % (r.choice(['', 'explicit ']), n, ex()))
    if r.random() < 0.15:
        lines.append('public: %s& operator=(int) %s;' % (n, ex()))
    if r.random() < 0.2:
        lines.append('public: %soperator %s() const %s;' % (r.choice(['', 'explicit ']), r.choice(['int', 'bool', 'E', 'Empty', 'const char*', 'double']), ex()))
    if r.random() < 0.3:
        d = r.choice(['user', 'user', 'virtual'] + ([] if any('Poly' in b or 'Abs' in b for b in bases) else ['delete', 'default']))
        lines.append('%s %s~%s() %s%s;' % (access(), 'virtual ' if d == 'virtual' else '', n, r.choice(['', 'noexcept(false)']) if d in ('user',) and not bases else '', {'delete': ' = delete', 'default': ' = default'}.get(d, '')))
    if r.random() < 0.3:
        lines.append('public: ' + r.choice(['int m;', 'const int m;', 'int& m;', 'char m[3];', 'Empty m;', 'static int sm;', 'Pod m; double k;', 'Poly m;', 'typedef int tt;', 'void mf(); enum { q };']))
    final = r.random() < 0.1
    kw = 'struct'
    text = '%s %s%s%s { %s };' % (kw, n, ' final' if final else '', (' : ' + ', '.join(bases)) if bases else '', ' '.join(lines))
    return n, text, abstract, final


def row_unary(v, t):
    x = t.cpp()
    std = 'std::%s<X>::value' % v if v != 'is_final' else '__is_final(X)'
    if t.kind() == 'array' and 'default_constructible' in v and 'trivially' not in v:
        std = 'std::%s<std::remove_all_extents<X>::type>::value' % v  # g++ overlooks the destructor of array elements
    return dict(prelude='typedef ID<%s>::type X;' % x, expr='bool(nanostl::%s<X>::value) == bool(%s)' % (v, std), note='%s<%s> agrees with std' % (v, x))


def row_transform(v, t):
    x = t.cpp()
    return dict(prelude='typedef ID<%s>::type X;' % x, expr='(std::is_same<nanostl::%s<X>::type, std::%s<X>::type>::value)' % (v, v), note='%s<%s>::type agrees with std' % (v, x))


def row_binary(v, a, b):
    pre = 'typedef ID<%s>::type X; typedef ID<%s>::type Y;' % (a.cpp(), b.cpp())
    note = '%s<%s, %s> agrees with std' % (v, a.cpp(), b.cpp())
    if v == 'common_type':
        e = '(std::is_same<type_of<nanostl::common_type<X, Y> >::type, type_of<std::common_type<X, Y> >::type>::value)'
    elif v == 'conditional':
        e = '(std::is_same<nanostl::conditional<true, X, Y>::type, X>::value && std::is_same<nanostl::conditional<false, X, Y>::type, Y>::value)'
    else:
        e = 'bool(nanostl::%s<X, Y>::value) == bool(std::%s<X, Y>::value)' % (v, v)
    return dict(prelude=pre, expr=e, note=note)


def allowed(v, kinds, terms):
    k, t = kinds[0], terms[0]
    # g++ itself says no for an abstract left-hand side, against the standard
    if v in ('is_assignable', 'is_nothrow_assignable') and k == 'obj' and t.leaf() in ABSTRACT:
        return False
    # not supported: a reference made from void, or from a const-qualified function type
    if len(kinds) == 2 and ('constructible' in v or v == 'is_convertible') and ('cfun' in kinds or k == 'ref' and kinds[1] == 'void'):
        return False
    return True


def misc_rows(r, n):
    rows = []
    for _ in range(n):
        c = r.randrange(6)
        ln, al = r.choice([1, 2, 3, 5, 8, 13, 16, 17, 31, 64, 100, r.randrange(1, 300)]), 1 << r.choice([r.randrange(0, 9), r.randrange(0, 15)])
        if c == 0:
            rows.append(dict(prelude='typedef nanostl::aligned_storage<%d, %d>::type X;' % (ln, al), expr='(sizeof(X) >= %d && alignof(X) >= %d && alignof(X) %% %d == 0 && sizeof(X) %% alignof(X) == 0 && sizeof(X) < %d + 2 * alignof(X))' % (ln, al, al, ln), note='aligned_storage<%d, %d> is large and aligned enough' % (ln, al)))
        elif c == 1:
            lim = 1
            while lim * 2 <= min(ln, 8):
                lim *= 2
            rows.append(dict(prelude='typedef nanostl::aligned_storage<%d>::type X;' % ln, expr='(sizeof(X) >= %d && alignof(X) >= %d)' % (ln, lim), note='aligned_storage<%d> suits any scalar that fits' % ln))
        elif c == 2:
            ty, v = r.choice([('int', -7), ('unsigned', 9), ('char', 65), ('long long', 1 << 40), ('bool', 1), ('bool', 0)])
            rows.append(dict(prelude='typedef nanostl::integral_constant<%s, %s> X;' % (ty, v), expr='(X::value == %s && (%s)X() == %s && std::is_same<X::value_type, %s>::value && std::is_same<X::type, X>::value)' % (v, ty, v, ty), note='integral_constant<%s, %s>' % (ty, v)))
        elif c == 3:
            b = r.choice(['true', 'false'])
            rows.append(dict(prelude='', expr='(std::is_same<type_of<nanostl::enable_if<%s, E> >::type, %s>::value)' % (b, 'E' if b == 'true' else 'none'), note='enable_if<%s>' % b))
        elif c == 4:
            rows.append(dict(prelude='', expr='(std::is_same<nanostl::common_type<int, char, double>::type, double>::value && std::is_same<nanostl::common_type<short>::type, short>::value && nanostl::true_type::value && !nanostl::false_type::value)', note='common_type of three and of one, true_type, false_type'))
        else:
            q, x = r.choice(['C<V<%s> >', 'C<%s>', '%s', 'V<%s>']), r.choice(['int', 'Pod', 'E', 'Empty'])
            ty = q % x
            rows.append(dict(prelude='typedef ID<%s>::type X;' % ty, expr='(std::is_same<decltype(nanostl::declval<X&>()), X&>::value && std::is_same<decltype(nanostl::declval<X>()), X&&>::value && '
                             'std::is_same<decltype(nanostl::move(nanostl::declval<X&>())), X&&>::value && std::is_same<decltype(nanostl::forward<X&>(nanostl::declval<X&>())), X&>::value && '
                             'std::is_same<decltype(nanostl::forward<X>(nanostl::declval<X&>())), X&&>::value && std::is_same<decltype(nanostl::forward<X>(nanostl::declval<X>())), X&&>::value)', note='declval, move, forward of %s' % ty))
    return rows


def row_common3(a, b, c):
    x = ', '.join(t.cpp() for t in (a, b, c))
    return dict(prelude='', expr='(std::is_same<type_of<nanostl::common_type<%s> >::type, type_of<std::common_type<%s> >::type>::value)' % (x, x), note='common_type<%s> agrees with std' % x)


def forms(t):
    """A leaf, under every short chain of modifiers that is a type."""
    one = [t] + [T(o, t) for o in ('P', 'C', 'V', 'R', 'RR', 'A3', 'AU', 'F0', 'FV', 'FC', 'M')]
    one += [T('C', T('V', t)), T('F', T('void'), t), T('F', t, t), T('F2', T('void'), T('int'), t)]
    out = [x for x in one if valid(x)]
    two = [T(o, x) for x in out[1:] for o in ('P', 'C', 'V', 'R', 'RR', 'A3', 'AU')]
    return out, [x for x in two if valid(x)]


def make(seed, rounds, per):
    units, keys, nontriv = [], set(), set()
    for i in range(rounds):
        r = random.Random('traits %s %s' % (seed, i))
        text, leaves = CLASSES_FIXED, BASES + CLS * 2
        FINAL.clear(), ABSTRACT.clear()
        FINAL.add('Fin'), ABSTRACT.add('Abs')
        gen = []
        for c in range(24):
            n, tx, ab, fi = gen_class(r, c)
            text += tx + '\n'
            gen.append(n)
            if ab:
                ABSTRACT.add(n)
            if fi:
                FINAL.add(n)
        leaves = leaves + gen * 2
        pre = PRE + text
        ev, od = [], []   # with exceptions off / on
        seen = set()

        def add(lst, row, t):
            if row['note'] in seen:
                return
            seen.add(row['note'])
            lst.append(row)
            key = (i if any('G' in x.cpp() for x in t) else '', row['note'])
            keys.add(key)
            if any(x.size() > 1 or x.op[0] == 'G' for x in t):
                nontriv.add(key)
        leaf_terms = [T(n) for n in gen] + [T(b) for b in BASES + CLS] + [T('void')]
        for k in range(per):
            v = r.choice(UNARY + TRANSFORM)
            t = leaf_terms[r.randrange(len(leaf_terms))] if r.random() < 0.35 else gen_type(r, leaves, 3)
            if allowed(v, [t.kind()], [t]):
                add(ev, row_unary(v, t) if v in UNARY else row_transform(v, t), [t])
            v = r.choice(NOTHROW)
            t = r.choice(leaf_terms) if r.random() < 0.6 else gen_type(r, leaves, 2)
            if k % 4 == 0 and allowed(v, [t.kind()], [t]):
                add(od, row_unary(v, t), [t])
            v = r.choice(BINARY + (NOTHROW2 if k % 3 == 0 else []))
            a = r.choice(leaf_terms) if r.random() < 0.5 else gen_type(r, leaves, 2)
            c = r.random()
            if c < 0.25:
                b = a
            elif c < 0.5:
                b = T(r.choice(['C', 'R', 'RR']), a) if valid(T('R', a)) else a
            elif c < 0.6 and valid(T('R', T('C', a))):
                b = T('R', T('C', a))
            else:
                b = r.choice(leaf_terms) if r.random() < 0.5 else gen_type(r, leaves, 2)
            if r.random() < 0.3:
                a, b = b, a
            if v == 'is_assignable' or v == 'is_nothrow_assignable':
                if valid(T('R', a)) and r.random() < 0.7:
                    a = T('R', a)
            if allowed(v, [a.kind(), b.kind()], [a, b]) and not (v in NOTHROW2 and a.kind() == 'array'):
                add(od if v in NOTHROW2 else ev, row_binary(v, a, b), [a, b])
        # every trait on every fixed type (spread over the rounds), under each modifier and a drawn pair of modifiers
        fixed = [T(b) for b in BASES + CLS + ['void']]
        mine = fixed[i % len(fixed)::rounds] if rounds < len(fixed) else [fixed[i % len(fixed)]]
        for t in mine + [T(r.choice(gen))]:
            one, two = forms(t)
            for v in UNARY + TRANSFORM:
                for x in one + r.sample(two, min(len(two), 12)):
                    if allowed(v, [x.kind()], [x]):
                        add(ev, row_unary(v, x) if v in UNARY else row_transform(v, x), [x])
        arith = [T(b) for b in BASES[:-1] + ['E']]
        ptrs = [T('P', T(n)) for n in ('Pod', 'Der', 'Der2', 'void', 'int', 'Empty')] + [T('P', T('C', T(n))) for n in ('Pod', 'Der', 'Der2', 'void')] + [T('std::nullptr_t')]
        for _ in range(per // 10):
            pool = r.choice([arith, ptrs, ptrs, [T(n) for n in ('Pod', 'Der', 'Der2', 'Empty')] + [T(n) for n in gen], leaf_terms])
            tri = [r.choice(pool) for _ in range(3)]
            if r.random() < 0.2:
                tri = [T('R', x) if valid(T('R', x)) else x for x in tri]
            add(ev, row_common3(*tri), [T('P', x) for x in tri])
        for row in misc_rows(r, per // 10):
            add(ev, row, [T('int')])
        units.append((pre, ev, []))
        units.append((pre, od, ['-DNANOSTL_ENABLE_EXCEPTION']))
    return units, keys, nontriv


def check(ctx):
    rounds, per = (60, 900) if ctx['thorough'] else (24, 500)
    rounds = max(1, int(rounds * ctx['scale']))
    units, keys, nontriv = make(ctx['seed'], rounds, per)
    u, bad = progs.run_units(ctx, units, 'traits')
    sub = dict(name='traits', what='a trait of a generated type (or pair of types) gives what the C++ library gives', evaluations=sum(len(x[1]) for x in units),
               nontrivial=len(nontriv), distinct=len(nontriv), exhaustive=False, samples=[n for _, n in sorted(nontriv, key=str)[::max(1, len(nontriv) // 5)][:5]])
    return progs.report(ctx, sub, u, bad)


replay = progs.replay
