"""C13: headers combine in any order and in any number of translation units."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
import progs

# header -> statements that use it; CHECK(c) counts a failure.  `s` marks use of the string functions.
USE = {
    'nanovector.h': 'nanostl::vector<int> v; for (int i = 0; i < 20; i++) v.push_back(i); nanostl::vector<int> w(v); w.erase(w.begin()); CHECK(v.size() == 20 && v[19] == 19 && w.size() == 19 && w[0] == 1); v.swap(w); CHECK(v.size() == 19);',
    'nanostring.h': 'nanostl::string a("ab"), b = a; b += "c"; b = b + a; CHECK(b.size() == 5 && b == nanostl::string("abcab") && a < b && nanostl::to_string(-12) == nanostl::string("-12") && nanostl::to_string(7u) == nanostl::string("7") && nanostl::stof(nanostl::string("2.5")) == 2.5f && nanostl::stod(nanostl::string("-0.125")) == -0.125 && nanostl::stod(nanostl::to_string(0.1)) == 0.1);',
    'nanomap.h': 'nanostl::map<int, int> m; m[3] = 4; m[1] = 2; CHECK(m.find(3) != m.end() && (*m.find(3)).second == 4 && m.find(2) == m.end() && (*m.begin()).first == 1);',
    'nanoalgorithm.h': 'int x[4] = {3, 9, 2, 9}; CHECK(nanostl::max_element(x, x + 4) == x + 1 && nanostl::min(3, 2) == 2 && nanostl::max(3, 2) == 3); nanostl::fill(x, x + 2, 7); CHECK(x[1] == 7 && x[2] == 2);\n#ifdef NANOSTL_PSTL\nstruct Po {} po; nanostl::fill(po, x, x + 3, 5); CHECK(x[0] == 5 && x[2] == 5 && x[3] == 9);\n#endif\n',
    'nanolimits.h': 'CHECK(nanostl::numeric_limits<int>::max() == 2147483647 && nanostl::numeric_limits<float>::infinity() > nanostl::numeric_limits<float>::max());',
    'nanomath.h': 'CHECK(nanostl::fabs(-2.0f) == 2.0f && nanostl::floor(2.5) == 2 && nanostl::ceil(2.5f) == 3 && nanostl::isnan(0.0f / zero) && nanostl::pow(3.0f, 2.0f) == 9.0f && nanostl::copysign(1.0f, -0.0f) == -1.0f && nanostl::sqrt(1.0f) == 1.0f && nanostl::exp(0.0f) > 0.99f);',
    'nanovalarray.h': 'nanostl::valarray<float> q(5); q[2] = 1.5f; nanostl::valarray<float> r(q); CHECK(r.size() == 5 && r[2] == 1.5f && r[0] == 0);',
    'nanoutility.h': 'nanostl::pair<int, char> p = nanostl::make_pair(4, \'x\'); CHECK(p.first == 4 && p.second == \'x\' && !(p < p) && p == p);',
    'nanomemory.h': '{ nanostl::unique_ptr<int> u(new int(6)), o(nanostl::move(u)); CHECK(!u && *o == 6); }',
    'nanooptional.h': 'nonstd::optional<int> o, e(5); CHECK(!o && e && *e == 5); o = e; CHECK(o == e && o.value_or(1) == 5);',
    'nanovariant.h': 'nonstd::variant<int, double> t(3), u(2.5); CHECK(t.index() == 0 && u.index() == 1 && nonstd::get<1>(u) == 2.5); t = u; CHECK(t == u);',
    'nanotuple.h': 'tao::tuple<int, char, double> y(1, \'c\', 2.5); CHECK(tao::get<0>(y) == 1 && tao::get<1>(y) == \'c\' && tao::get<2>(y) == 2.5);',
    'nanoiterator.h': 'int z[3]; CHECK(nanostl::distance(z, z + 3) == 3);',
    'nanosstream.h': 'nanostl::stringstream f; f << "ab" << "c"; CHECK(f.str() == nanostl::string("abc"));',
    'nanofunctional.h': 'CHECK(nanostl::less<int>()(1, 2) && nanostl::hash<int>()(5) == nanostl::hash<int>()(5) && nanostl::hash<float>()(0.0f) == nanostl::hash<float>()(-0.0f));',
    'nanotype_traits.h': 'CHECK((nanostl::is_same<nanostl::remove_const<const int>::type, int>::value && nanostl::is_enum<E>::value && !nanostl::is_enum<int>::value));',
    'nanocstring.h': 'char d[3], g[3] = {1, 2, 3}; CHECK(nanostl::memcpy(d, g, 3) == d && d[2] == 3);',
    'nanoratio.h': 'CHECK((nanostl::ratio<6, -4>::num == -3 && nanostl::ratio<6, -4>::den == 2));',
    'nanocstdint.h': 'CHECK(sizeof(nanostl::uint64_t) == 8 && sizeof(nanostl::int32_t) == 4 && sizeof(nanostl::uint8_t) == 1);',
    'nanocommon.h': 'CHECK(sizeof(nanostl::size_t) == 8 && (nanostl::size_t)-1 > 0);',
    'nanocstddef.h': 'CHECK(sizeof(nanostl::size_t) == 8);',
    'nanoallocator.h': '{ nanostl::allocator<int> al; int *k = al.allocate(4); k[3] = 2; CHECK(k[3] == 2); al.deallocate(k, 4); }',
    'nanoexception.h': 'CHECK(sizeof(nanostl::exception) == sizeof(void *) && (nanostl::exception *)0 == 0);',
    'nanoinitializer_list.h': 'nanostl::initializer_list<int> il; CHECK(il.size() == 0 && il.begin() == il.end() && nanostl::begin(il) == nanostl::end(il));',
    'nanocassert.h': 'assert(1 + 1 == 2);',
    'nanostl.h': 'nanostl::vector<nanostl::string> lv; lv.push_back(nanostl::string("k")); CHECK(lv[0] == nanostl::string("k") && nanostl::max(1, 2) == 2);',
}
USE.update({
    'nanostdexcept.h': 'CHECK(sizeof(nanostl::logic_error) > 0);',
    'nanochrono.h': 'nanostl::chrono::milliseconds ms; nanostl::chrono::duration<long long, nanostl::milli> *pm = &ms; CHECK(pm == &ms);',
    'nanothread.h': '{ nanostl::thread t; CHECK(!t.joinable()); }',
    'nanomutex.h': '{ nanostl::mutex m; (void)m; }',
    'nanoexecution.h': '\n#ifdef NANOSTL_PSTL\nconst nanostl::execution::parallel_policy *pp = &nanostl::execution::par; CHECK(pp && (void *)pp != (void *)&nanostl::execution::par_unseq);\n#endif\n',
    'nanoios.h': 'CHECK((nanostl::ios_base::dec | nanostl::ios_base::hex | nanostl::ios_base::oct) == nanostl::ios_base::basefield && (nanostl::ios_base::dec & nanostl::ios_base::hex) == 0 && nanostl::ios_base::floatfield == (nanostl::ios_base::fixed | nanostl::ios_base::scientific) && nanostl::ios_base::badbit != nanostl::ios_base::failbit);',
    'nanoiosfwd.h': 'CHECK(sizeof(nanostl::streampos *) == 8);',
    'nanostreambuf.h': 'struct Tr { typedef char char_type; typedef int int_type; typedef long pos_type, off_type; }; CHECK(sizeof(nanostl::basic_streambuf<char, Tr>) >= sizeof(void *) && (nanostl::streambuf *)0 == (nanostl::basic_streambuf<char> *)0);',
    'nanosystem_error.h': 'CHECK((int)nanostl::errc::invalid_argument == 22);',
    'nanoiostream.h': '{ nanostl::ostream os; CHECK(&(os << 3 << "x" << nanostl::string("y") << 2.5 << true) == &os && &os.flush() == &os); nanostl::cout << 7u << nullptr; nanostl::cout.flush(); }',
    'nanoany.h': '{ nonstd::any a, b(7); a = b; CHECK(a.has_value() && *nonstd::any_cast<int>(&a) == 7 && !nonstd::any_cast<char>(&a)); }',
    'tao/seq/make_integer_sequence.hpp': 'CHECK((nanostl::is_same<tao::seq::make_integer_sequence<int, 3>, tao::seq::integer_sequence<int, 0, 1, 2> >::value));',
    'tao/seq/sum.hpp': 'CHECK((tao::seq::sum<int, 3, -5, 9>::value == 7));',
    'tao/seq/is_all.hpp': 'CHECK((tao::seq::is_all<true, true>::value && !tao::seq::is_all<true, false>::value));',
    'fast_float/fast_float.h': '{ const char ft[] = "-12.5e1x"; double fd = 0; float fs = 0; CHECK(fast_float::from_chars(ft, ft + 8, fd).ptr == ft + 7 && fd == -125 && fast_float::from_chars(ft + 1, ft + 3, fs).ec == nanostl::errc() && fs == 12); }',
    'libs_thread.h': '{ thread_atomic_int_t ai; thread_atomic_int_store(&ai, 3); CHECK(thread_atomic_int_inc(&ai) == 3 && thread_atomic_int_load(&ai) == 4); }',
})
NEED_STRING = {'nanostring.h', 'nanosstream.h', 'nanostl.h', 'nanoiostream.h'}
NEED_ALL = {'nanoiostream.h'}  # the unit with the implementation has it, and all of the implementation
NEED_THREADS = {'nanothread.h', 'nanomutex.h', 'libs_thread.h'}  # linked with src/nanothread.cc
STANDARDS = ['c++11', 'gnu++11', 'c++14', 'gnu++14', 'c++17', 'gnu++17', 'c++20', 'gnu++20']
STD = ['<vector>', '<string>', '<map>', '<cmath>', '<iostream>', '<memory>', '<utility>', '<limits>', '<algorithm>', '<tuple>', '<functional>', '<cstring>', '<cstdint>', '<sstream>', '<type_traits>', '<math.h>', '<string.h>', '<stdlib.h>']
# objects handed from one translation unit to another
PASS = {
    'fast_float/fast_float.h': ('double give_read(const char *t, int n)', '{ double d = -1; fast_float::from_chars(t, t + n, d); return d; }', '{ const char ft[] = "0.1000000000000000055511151231257827021181583404541015625000001"; double fd; fast_float::from_chars(ft, ft + sizeof ft - 1, fd); CHECK(fd == 0.1 && give_read(ft, sizeof ft - 1) == fd && give_read(ft, 1) == 0 && give_read(ft, 0) == -1); }'),
    'nanovector.h': ('nanostl::vector<int> give_vector(int n)', '{ nanostl::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i * i); return v; }', '{ nanostl::vector<int> v = give_vector(9); v.push_back(1); CHECK(v.size() == 10 && v[8] == 64 && v[9] == 1); }'),
    'nanostring.h': ('nanostl::string give_string(const nanostl::string &a)', '{ return a + nanostl::string("-") + a; }', '{ nanostl::string t = give_string(nanostl::string("xy")); CHECK(t == nanostl::string("xy-xy") && t.c_str()[5] == 0); }'),
    'nanomap.h': ('int give_map(const nanostl::map<int, int> &m, int k)', '{ return m.find(k) != m.end() ? (*m.find(k)).second : -1; }', '{ nanostl::map<int, int> m; for (int i = 0; i < 30; i++) m[i * 7 % 31] = i; CHECK(give_map(m, 7) == 1 && give_map(m, 99) == -1); }'),
    'nanomath.h': ('float give_math(float x)', '{ return nanostl::exp(x) + nanostl::sin(x) + nanostl::log(x + 2) + nanostl::pow(x, 1.5f) + nanostl::sqrt(x) + nanostl::cbrt(x) + nanostl::erf(x); }',
                   '{ const float x = 1.25f; CHECK(give_math(x) == nanostl::exp(x) + nanostl::sin(x) + nanostl::log(x + 2) + nanostl::pow(x, 1.5f) + nanostl::sqrt(x) + nanostl::cbrt(x) + nanostl::erf(x)); }'),
    'nanooptional.h': ('nonstd::optional<int> give_opt(bool b)', '{ return b ? nonstd::optional<int>(3) : nonstd::optional<int>(); }', '{ CHECK(give_opt(true) && *give_opt(true) == 3 && !give_opt(false)); }'),
    'nanovalarray.h': ('nanostl::valarray<float> give_val(int n)', '{ nanostl::valarray<float> v((nanostl::size_t)n); v[n - 1] = 2; return v; }', '{ CHECK(give_val(4).size() == 4 && give_val(4)[3] == 2); }'),
    'nanomemory.h': ('nanostl::unique_ptr<int> give_ptr(int n)', '{ return nanostl::unique_ptr<int>(new int(n)); }', '{ CHECK(*give_ptr(8) == 8); }'),
    'nanosstream.h': ('void give_stream(nanostl::stringstream &o)', '{ o << "!" << nanostl::string("?"); }', '{ nanostl::stringstream o; o << "."; give_stream(o); CHECK(o.str() == nanostl::string(".!?")); }'),
}


def include(h):
    if h == 'nanoany.h':  # the name it needs in nanostl
        return '#include <typeinfo>\nnamespace nanostl { using std::type_info; }\n#include "nanoany.h"\n'
    if h == 'fast_float/fast_float.h':  # the tests' flags leave it out
        return '#ifndef WITH_FAST_FLOAT\n#define WITH_FAST_FLOAT\n#undef FASTFLOAT_FAST_FLOAT_H\n#endif\n#include "fast_float/fast_float.h"\n'
    return '#include %s\n' % (h if h[0] == '<' else '"%s"' % h)


def needs(tus):
    return ['$THREADS'] if any(set(h) & NEED_THREADS for h in tus) else []


def program(r):
    """A list of translation units, as (headers, text)."""
    units = r.choice([1, 2, 2, 3])
    tus = []
    names = sorted(USE)
    first = [r.choice(sorted(PASS)) for _ in range(r.randrange(0, 4))]
    for i in range(units):
        hs = r.sample(names, r.choice([1, 1, 2, 3, 4, 6, 10, len(names)]))
        hs += [h for h in first if h not in hs]
        r.shuffle(hs)
        hs += r.sample(hs, r.randrange(0, min(3, len(hs)) + 1))  # included again
        if r.random() < 0.4:
            for h in r.sample(STD, r.randrange(1, 5)):
                hs.insert(r.randrange(len(hs) + 1), h)
        tus.append(hs)
    impl = r.randrange(units)
    if any(set(h) & NEED_STRING for h in tus) and not set(tus[impl]) & NEED_STRING:
        tus[impl].insert(r.randrange(len(tus[impl]) + 1), 'nanostring.h')
    whole = any(set(h) & NEED_ALL for h in tus)
    if whole and not set(tus[impl]) & (NEED_ALL | {'nanostl.h'}):
        tus[impl].insert(r.randrange(len(tus[impl]) + 1), 'nanoiostream.h')
    srcs = []
    for i, hs in enumerate(tus):
        uniq = [h for h in dict.fromkeys(hs) if h in USE]
        t = ''
        if i == impl and set(hs) & NEED_STRING:
            t += '#define %s\n' % r.choice(['NANOSTL_IMPLEMENTATION'] if whole else ['NANOSTL_IMPLEMENTATION', 'NANOSTL_STRING_IMPLEMENTATION'])
        t += '#include <new>\n' + ''.join(include(h) for h in hs)
        t += 'extern int failures;\nextern "C" int printf(const char *, ...);\n#define CHECK(c) do { if (!(c)) { failures++; printf("unit %d, line %%d: %%s\\n", __LINE__, #c); } } while (0)\nstatic volatile float zero = 0;\nenum E { e0 };\n' % i
        body = ''
        for h in PASS:
            if h in first:
                sig, giver, user = PASS[h]
                t += sig + (giver if i == 0 else ';') + '\n'
                body += user + '\n'
        for h in uniq:
            body += '{ %s }\n' % USE[h]
        t += 'void unit%d() {\n%s}\n' % (i, body)
        srcs.append(t)
    main = 'int failures = 0;\n' + ''.join('void unit%d();\n' % i for i in range(units)) + 'int main() {\n' + ''.join('unit%d();\n' % i for i in range(units)) + 'return failures ? 1 : 0; }\n'
    if r.random() < 0.5:
        srcs[-1] += main
    else:
        srcs.append(main)
    return tus, srcs


def run(ctx, srcs, flags, name):
    """None if the program compiles, links and finds everything as expected; else what happens."""
    fs = []
    exe = os.path.join(ctx['tmp'], name)
    try:
        for i, s in enumerate(srcs):
            f = os.path.join(ctx['tmp'], '%s_%d.cc' % (name, i))
            open(f, 'w').write(s)
            fs.append(f)
        if '$THREADS' in flags:
            flags = [f for f in flags if f != '$THREADS'] + ['-pthread', '-idirafter', os.path.join(ctx['repo'], 'src'), os.path.join(ctx['repo'], 'src/nanothread.cc')]
        r = subprocess.run([progs.CXX] + ctx['base'] + ['-include', 'stddef.h'] + flags + fs + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode:
            if any(w in r.stdout for w in ('internal compiler error', 'Killed', 'out of memory', 'annot allocate', 'No space left')) or \
               not any(w in r.stdout for w in (': error: ', 'undefined reference', 'multiple definition', 'fatal error: ')):
                raise RuntimeError('the compiler failed: ' + r.stdout[-3000:])
            l = [x for x in r.stdout.split('\n') if 'error' in x or 'undefined reference' in x or 'multiple definition' in x]
            return 'does not build: ' + '\n'.join(l[:4])
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120, env=ctx['env'])
        return None if p.returncode == 0 else 'fails (exit status %d): %s' % (p.returncode, p.stdout[:1500])
    finally:
        for f in fs + [exe]:
            if os.path.exists(f):
                os.unlink(f)


def describe(tus):
    return ' + '.join('{' + ', '.join(h) + '}' for h in tus)


def shrink(ctx, seed_case, why):
    """Smaller programs of the same kind that fail too: fewer units, fewer headers."""
    tus, srcs, flags = seed_case
    best = seed_case
    for h in sorted(USE):  # one header alone, in one unit and in two
        for k in (1, 2):
            small = alone(h, k)
            fl = [f for f in flags if f != '$THREADS'] + needs(small[0])
            w = run(ctx, small[1], fl, 'shrink')
            if w:
                return (small[0], small[1], fl), w
    return best, why


def alone(h, units):
    srcs = []
    for i in range(units):
        t = '#define %s\n' % ('NANOSTL_IMPLEMENTATION' if h in NEED_ALL else 'NANOSTL_STRING_IMPLEMENTATION') if i == 0 and h in NEED_STRING else ''
        t += '#include <new>\n%sextern int failures;\nextern "C" int printf(const char *, ...);\n#define CHECK(c) do { if (!(c)) { failures++; printf("unit %d, line %%d: %%s\\n", __LINE__, #c); } } while (0)\nstatic volatile float zero = 0;\nenum E { e0 };\nvoid unit%d() { %s }\n' % (include(h), i, i, USE[h])
        srcs.append(t)
    srcs.append('int failures = 0;\n' + ''.join('void unit%d();\n' % i for i in range(units)) + 'int main() {' + ''.join('unit%d();' % i for i in range(units)) + ' return failures ? 1 : 0; }\n')
    return [[h]] * units, srcs


def check(ctx):
    n = max(1, int((5000 if ctx['thorough'] else 250) * ctx['scale']))
    cases = []
    for j, h in enumerate(sorted(USE)):
        for k in (1, 2):
            t, s = alone(h, k)
            stds = STANDARDS if k == 2 and ctx['thorough'] else [STANDARDS[(j + k) % 2], STANDARDS[2 + (j * 2 + k) % 6]] if k == 2 else ['c++11']
            for x in stds:
                cases.append((t, s, ['-O0', '-std=' + x] + needs(t)))
    fixed = len(cases)
    for i in range(n):
        r = random.Random('compose %s %s' % (ctx['seed'], i))
        t, s = program(r)
        std = r.choice(STANDARDS)
        fl = [r.choice(['-O0', '-O0', '-O1', '-O2']), '-std=' + std] + r.choice([[], [], [], ['-fno-exceptions'], ['-fno-builtin']])
        if std[-2:] in ('17', '20') and r.random() < 0.3:
            fl.append('-DNANOSTL_PSTL')
        cases.append((t, s, fl + needs(t)))
    with ThreadPoolExecutor(ctx['workers']) as ex:
        res = list(ex.map(lambda a: run(ctx, a[1][1], a[1][2], 'p%d' % a[0]), enumerate(cases)))
    non = set(json.dumps(c[0]) + ' '.join(c[2]) for c in cases if len(c[0]) > 1 or len(set(c[0][0])) > 1)
    sub = dict(name='compose', what='a program of one to three translation units including headers in any order builds, links and behaves', evaluations=len(cases), nontrivial=len(non), distinct=len(non),
               exhaustive=False, samples=[describe(c[0]) for c in cases[fixed::max(1, n // 5)][:5]])
    out = dict(subs=[sub])
    bad = [(c, w) for c, w in zip(cases, res) if w]
    if not bad:
        print('compose: held on %d programs (%d distinct non-trivial)' % (len(cases), len(non)))
        return out
    bad.sort(key=lambda b: sum(len(s) for s in b[0][1]))
    for c, w in bad:
        c, w = shrink(ctx, c, w)
        if all(run(ctx, c[1], c[2], 'stable') for _ in range(3)):
            sub['failed'], sub['message'] = True, describe(c[0]) + ' ' + w
            print('counterexample: %s, %s: %s' % (describe(c[0]), ' '.join(c[2]), w))
            with open(ctx['replay'], 'w') as f:
                f.write('property %s\nsub compose\nfailure %s\n--- case ---\n%s\n--- json ---\n' % (ctx['id'], w.replace('\n', ' | '), describe(c[0])))
                json.dump(dict(srcs=c[1], flags=c[2]), f)
                f.write('\n')
            out['violation'] = True
            return out
    raise RuntimeError('a failing program did not fail again: ' + bad[0][1])


def replay(path, tmp, repo, base, env=None):
    t = open(path, errors='replace').read()
    if '--- json ---' not in t:
        return 2
    j = json.loads(t.split('--- json ---', 1)[1])
    w = run(dict(tmp=tmp, base=base, repo=repo, env=env or dict(os.environ)), j['srcs'], j['flags'], 'replay')
    print('FAILS: ' + w if w else 'holds')
    return 1 if w else 0
