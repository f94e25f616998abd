"""Focused conformance suites over the real dredd executable."""
import os, re, json, itertools, random
from behave import sh, CC, STD, groups, ids_of, tree_errors, Src, sites
class Suite:
    def __init__(s, dredd, work, name):
        s.dredd = dredd; s.dir = work + '/' + name; os.makedirs(s.dir, exist_ok=True); s.bad = []; s.n = {}; s.text = None
    def fail(s, prop, what, unit=None, extra=None): s.bad.append((prop, what, unit, extra))
    def ok(s, prop, k=1): s.n[prop] = s.n.get(prop, 0) + k
    def w(s, name, text):
        p = s.dir + '/' + name; os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(text); return p
    def rd(s, p): return open(p, errors='replace').read()
    def mutate(s, files, opts=(), args=('-w',), info='info.json'):
        i = s.dir + '/' + info
        if os.path.exists(i): os.unlink(i)
        r = sh([s.dredd] + list(opts) + ['--mutation-info-file', i] + list(files) + ['--'] + list(args))
        try: d = json.load(open(i))
        except Exception: d = None
        return r, d
    def explain(s, e): return (e or {}).get('text', '') if isinstance(e, dict) else ''
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

# ---- C04 / C05: the preludes --------------------------------------------------
def prelude(s, cxx, cases, track=False):
    ext = 'cc' if cxx else 'c'; prop = 'C05' if track else 'C04'
    for pre, n in cases:
        tag = '%s_%d_%d%s' % (ext, pre, n, 't' if track else '')
        decl = '#ifdef __cplusplus\nextern "C"\n#endif\nvoid h(const void *);\n' 
        # one removable statement per mutant; the argument holds no mutable expression
        body = lambda fn, k: decl + 'static const char %s_t[%d] = "";\nvoid %s(void) {\n' % (fn, k + 1, fn) + ''.join('  h(%s_p%d());\n' % (fn, j) for j in range(k)) + '}\n'
        def text(fn, k):
            d = '#ifdef __cplusplus\nextern "C" {\n#endif\n' + ''.join('void %s_h%d(void);\n' % (fn, j) for j in range(k)) + 'void %s(void);\n#ifdef __cplusplus\n}\n#endif\n' % fn
            return d + 'void %s(void) {\n' % fn + ''.join('  %s_h%d();\n' % (fn, j) for j in range(k)) + '}\n'
        f0, f1 = s.w(tag + '/a.' + ext, text('a', pre)), s.w(tag + '/b.' + ext, text('b', n))
        r, info = s.mutate([f0, f1] if pre else [f1], ['--only-track-mutant-coverage'] if track else [], ['-w', STD[cxx]], tag + '/info.json')
        if r.returncode or info is None: s.fail('run', f'dredd failed on {tag}: {r.stderr[-300:]}'); continue
        got = [ids_of(x) for x in info['infoForFiles']]
        want = ([list(range(pre))] if pre else []) + [list(range(pre, pre + n))]
        if got != want: s.fail('C03', f'{tag}: ids {[(g[:1], g[-1:]) for g in got]}'); continue
        main = ''.join('void %s_h%d(void) { hit(%d); }\n' % (fn, j, base + j) for fn, k, base in (('a', pre, 0), ('b', n, pre)) for j in range(k))
        # reading the environment twice would be wrong: it is changed after the first use
        main = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\nstatic char seen[%d];\nstatic int *dummy;\nstatic void hit(int k) { seen[k] = 1; }\n' % (pre + n + 1) + main
        main += ('void a(void);\n' if pre else '') + 'void b(void);\nint main(int c, char **v) { for (int i = 0; i < 2; i++) { memset(seen, 0, sizeof seen); ' + ('a(); ' if pre else '') + \
                'b(); for (int k = 0; k < %d; k++) putchar(seen[k] ? \'1\' : \'0\'); putchar(10); } return 0; }\n' % (pre + n)
        m = s.w(tag + '/m.c', main)
        exe = s.dir + '/' + tag + '/x'
        objs = []
        fine = True
        for f in ([f0] if pre else []) + [f1]:
            o = f + '.o'; rr = sh([CC[cxx], '-w', '-g', STD[cxx]] + SAN + ['-c', f, '-o', o])
            if rr.returncode: s.fail('compile', f'{tag}: instrumented file does not compile: {rr.stderr[:400]}'); fine = False
            objs.append(o)
        if not fine: continue
        rr = sh(['clang-17', '-w', '-g', '-c', m, '-o', m + '.o'])
        rr = sh([CC[cxx]] + SAN + objs + [m + '.o', '-o', exe])
        if rr.returncode: s.fail('compile', f'{tag}: link failed: {rr.stderr[-300:]}'); continue
        N = pre + n
        if track:
            for setit in (True, False):
                t = s.dir + '/' + tag + '/cov'
                if os.path.exists(t): os.unlink(t)
                rr = sh([exe], env={'DREDD_MUTANT_TRACKING_FILE': t, 'ASAN_OPTIONS': 'detect_leaks=0'} if setit else {'ASAN_OPTIONS': 'detect_leaks=0'}, cwd=s.dir + '/' + tag)
                s.ok(prop)
                if rr.returncode: s.fail(prop, f'{tag}: tracking binary fails: {rr.stderr[:500]}'); continue
                if rr.stdout.split() != ['1' * N] * 2: s.fail(prop, f'{tag}: a statement is not executed under tracking')
                ls = open(t).read().split('\n') if os.path.exists(t) else ['']
                exp = [str(k) for k in range(N)] if setit else []
                if ls[-1:] != [''] or sorted(ls[:-1]) != sorted(exp): s.fail(prop, f'{tag}: tracking file (variable {"set" if setit else "unset"}) has {len(ls) - 1} lines, expected ids 0..{N - 1} once; differs at {sorted(set(ls[:-1]) ^ set(exp))[:5]}')
            # an unwritable file
            rr = sh([exe], env={'DREDD_MUTANT_TRACKING_FILE': '/nonexistent_dir/x', 'ASAN_OPTIONS': 'detect_leaks=0'})
            s.ok(prop)
            if rr.returncode or rr.stdout.split() != ['1' * N] * 2: s.fail(prop, f'{tag}: an unwritable tracking file changes behaviour (exit {rr.returncode})')
            continue
        rnd = random.Random(pre * 1000 + n)
        interesting = sorted({0, 1, pre - 1, pre, pre + 1, pre + 31, pre + 32, pre + 62, pre + 63, pre + 64, pre + 65, N - 1, N, N + 1, N + 63, N + 64, 2 * N + 200, 100000})
        interesting = [x for x in interesting if x >= 0]
        envs = [None, ''] + [str(x) for x in interesting]
        envs += ['%d,%d' % (N - 1, pre), '%d,,%d' % (pre, N - 1), ',%d' % pre, '%d,' % (N - 1), ',', ',,', '%d,%d' % (pre, pre), ','.join(map(str, interesting)), ','.join(map(str, range(N))),
                 '%d,%d' % (N + 5, pre), '-1', '-1,%d' % pre, '-%d' % (N + 70), ','.join(map(str, reversed(range(N))))]
        envs += [','.join(str(rnd.randrange(N + 3)) for _ in range(rnd.randrange(1, 9))) for _ in range(6)]
        for e in envs:
            rr = sh([exe], env={'DREDD_ENABLED_MUTATION': e, 'ASAN_OPTIONS': 'detect_leaks=0'} if e is not None else {'ASAN_OPTIONS': 'detect_leaks=0'})
            s.ok(prop)
            on = set(int(x) for x in (e or '').split(',') if x)
            exp = ''.join('0' if k in on else '1' for k in range(N))
            if rr.returncode: s.fail(prop, f'{ext}, {pre}+{n} mutants, DREDD_ENABLED_MUTATION={e!r:.80}: program fails: {rr.stderr[:400]}')
            elif rr.stdout.split() != [exp] * 2:
                g = rr.stdout.split(); k = [i for i in range(min(N, len(g[0]))) if g[0][i] != exp[i]] if g else []
                s.fail(prop, f'{ext}, file with mutants {pre}..{N - 1} (or an earlier file), DREDD_ENABLED_MUTATION={e!r:.80}: wrong at mutants {k[:5]} (second call: {g[1] == exp if len(g) > 1 else None})')

FLAG_C = r'''
#include <stdio.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
int add(int, int); int asg(int *, int); int inc(int *); int val(int);
#ifdef __cplusplus
}
#endif
int main(int c, char **v) { int x = 5, y = 5; int k = atoi(v[1]);
  for (int i = 0; i < 4; i++) { int w = (k + i) % 4;
    if (w == 0) printf("a%d ", add(7, 2)); if (w == 1) printf("s%d,%d ", asg(&x, 3), x); if (w == 2) printf("i%d,%d ", inc(&y), y); if (w == 3) printf("v%d ", val(9)); }
  printf("\n"); return 0; }
'''
FLAG_SRC = '''#ifdef __cplusplus
extern "C" {
#endif
int add(int a, int b) { return a + b; }
int asg(int *x, int b) { return *x -= b; }
int inc(int *x) { return (*x)++; }
int val(int a) { return a; }
#ifdef __cplusplus
}
#endif
'''
def firstuse(s, cxx):
    "Whichever site runs first, the enabled set is read then and nothing else changes."
    ext = 'cc' if cxx else 'c'
    f = s.w('fu%s/f.%s' % (ext, ext), FLAG_SRC)
    r, info = s.mutate([f], [], ['-w', STD[cxx]], 'fu%s/info.json' % ext)
    if r.returncode or not info: s.fail('run', 'dredd failed: ' + r.stderr[-300:]); return
    m = s.w('fu%s/m.%s' % (ext, ext), FLAG_C); o = s.w('fu%s/o.%s' % (ext, ext), FLAG_SRC)
    exes = []
    for src in (f, o):
        x = src + '.x'; rr = sh([CC[cxx], '-w', STD[cxx], src, m, '-o', x])
        if rr.returncode: s.fail('compile', 'instrumented file does not compile: ' + rr.stderr[:400]); return
        exes.append(x)
    base = [sh([exes[1], str(k)]).stdout for k in range(4)]
    byid = {}
    for k, mm, _ in groups(info['infoForFiles'][0]):
        l = mm.get('exprStart', mm.get('start', {})).get('line')
        if k == 'removeStmt': continue       # removing a return is undefined behaviour
        for i in ([mm.get('mutationId', 0)] if k == 'removeStmt' else [q.get('mutationId', 0) for q in mm.get('instances', [])]): byid[i] = l
    for k in range(4):
        for env in (None, '', '99999'):
            g = sh([exes[0], str(k)], env={'DREDD_ENABLED_MUTATION': env} if env is not None else {}).stdout
            s.ok('C04'); s.ok('C01')
            if g != base[k]: s.fail('C01', f'{ext}: calls starting with function {k}, environment {env!r}: {g!r}, original {base[k]!r}')
    for i in sorted(byid):
        # the owning function changes its result independently of what ran before
        outs = []
        for k in range(4):
            p = sh([exes[0], str(k)], env={'DREDD_ENABLED_MUTATION': str(i)}).stdout.split()
            outs.append(sorted(p))
        s.ok('C04')
        if any(o != outs[0] for o in outs): s.fail('C04', f'{ext}: effect of mutant {i} depends on which site runs first: {outs}')

THR_SRC = '''#ifdef __cplusplus
extern "C" {
#endif
int add(int a, int b) { return a + b; }
int inc(int *x) { return (*x)++; }
int cmp(int a, int b) { if (a < b) { a = b; } return a; }
#ifdef __cplusplus
}
#endif
'''
THR_MAIN = r'''
#include <pthread.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
int add(int, int); int inc(int *); int cmp(int, int);
#ifdef __cplusplus
}
#endif
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_barrier_t bar;
static char out[8][64];
static void *run(void *p) { char *o = (char *)p; int x = 4, a, b, c, d;
  pthread_barrier_wait(&bar);
  if (SERIAL) pthread_mutex_lock(&mu);
  a = add(7, 2);
  if (SERIAL) pthread_mutex_unlock(&mu);
  b = inc(&x); c = cmp(1, 2); d = add(5, 3);
  sprintf(o, "%d %d %d %d %d", a, b, x, c, d); return 0; }
int main(void) { pthread_t t[8]; pthread_barrier_init(&bar, 0, 8);
  for (int i = 0; i < 8; i++) pthread_create(&t[i], 0, run, out[i]);
  for (int i = 0; i < 8; i++) pthread_join(t[i], 0);
  for (int i = 0; i < 8; i++) puts(out[i]); return 0; }
'''
def threads(s, cxx, track):
    "Every thread sees the same set of mutants, without data races; coverage is recorded once."
    ext = 'cc' if cxx else 'c'; prop = 'C05' if track else 'C04'; tag = 'th%s%d' % (ext, track)
    f = s.w('%s/f.%s' % (tag, ext), THR_SRC)
    r, info = s.mutate([f], ['--only-track-mutant-coverage'] if track else [], ['-w', STD[cxx]], tag + '/info.json')
    if r.returncode or not info: s.fail('run', 'dredd failed: ' + r.stderr[-300:]); return
    m = s.w('%s/m.%s' % (tag, ext), THR_MAIN); x = f + '.x'
    # concurrent first queries of C threads: see the finding strtok-threads
    rr = sh([CC[cxx], '-w', '-g', '-D_GNU_SOURCE', '-fsanitize=thread', '-DSERIAL=%d' % (not cxx and not track), STD[cxx], f, m, '-o', x, '-lpthread'])
    if rr.returncode: s.fail('compile', 'instrumented file does not compile: ' + rr.stderr[:400]); return
    N = len(ids_of(info['infoForFiles'][0]))
    skip = {mm.get('mutationId', 0) for k, mm, _ in groups(info['infoForFiles'][0]) if k == 'removeStmt' and 'return' in ' '.join(mm.get('snippet', []) if isinstance(mm.get('snippet'), list) else [str(mm.get('snippet'))])}
    for i in [None] + (list(range(N)) if not track else ['t', 't', 't']):
        cov = s.dir + '/' + tag + '/cov'
        if os.path.exists(cov): os.unlink(cov)
        env = {} if i is None else {'DREDD_MUTANT_TRACKING_FILE': cov} if track else {'DREDD_ENABLED_MUTATION': '%d,%d' % (i + N, i)}
        rr = sh([x], env=env); s.ok(prop)
        if 'FATAL: ThreadSanitizer' in rr.stderr: return
        if 'WARNING: ThreadSanitizer' in rr.stderr: s.fail(prop, f'{ext}: data race in the instrumented program ({env}): {rr.stderr[:700]}'); continue
        if rr.returncode and i is not None and not track: continue      # a removed return is undefined
        if rr.returncode: s.fail(prop, f'{ext}: threaded program fails ({env}): {rr.stderr[:400]}'); continue
        o = rr.stdout.strip().split('\n')
        if len(set(o)) != 1 and i not in skip: s.fail(prop, f'{ext}: threads disagree with {env}: {sorted(set(o))}')
        if (i is None or track) and o[0] != '9 4 5 2 8': s.fail('C05' if track else 'C01', f'{ext}: threads compute {o[0]!r}, original 9 4 5 2 8')
        if track and i is not None:
            ls = open(cov).read().split('\n')
            if sorted(ls[:-1]) != sorted(map(str, range(N))): s.fail(prop, f'{ext}: eight threads that reach every site record {sorted(ls)[:20]}, expected each of 0..{N - 1} once')
# ---- C10 / C11: constructs that must not be instrumented -------------------------
# «...» marks text in which no mutant may be recorded.
FORBID_CXX = [
 ('constexpr var', 'constexpr int @k = «1 + 2»; r += @k;'),
 ('constexpr array', 'constexpr int @k[] = {«1 + 2», «3»}; r += @k[1];'),
 ('constexpr static', 'static constexpr long @k = «(long)sizeof(int) * 2»; r += @k;'),
 ('constinit', 'static constinit int @k = «1 + 2»; r += @k;'),
 ('static_assert', 'static_assert(«1 + 2 == 3», "m"); r += 1;'),
 ('static_assert const', 'const int @c = 3; static_assert(«@c * 2 == 6»); r += @c;'),
 ('case', 'switch (r & 7) { case «1 + 2»: r += 5; break; case «4»: case «5 * 1»: r -= 2; break; default: r++; }'),
 ('array', 'int @a[«2 + 3»]; @a[0] = r; r += @a[0] + (int)sizeof(@a);'),
 ('array const', 'const int @n = 4; int @a[«@n + 1»]; @a[1] = 2; r += @a[1] + (int)sizeof(@a);'),
 ('array 2d', 'int @a[«1 + 1»][«3»] = {{1, 2, 3}, {4, 5, 6}}; r += @a[1][2] + (int)sizeof(@a);'),
 ('array field', 'struct @S { int f[«2 * 2»]; char g[«1 + 1»][«3»]; }; r += (int)sizeof(@S);'),
 ('template arg', 'r += cx<«2 + 3»>::get();'),
 ('template arg var', 'cx<«4 - 1»> @t; r += @t.get();'),
 ('template arg neg', 'cx<«-7»> @t; r += @t.get(); cx<«0 - 2»> @u; r += @u.get();'),
 ('template nested', 'pr<cx<«1 + 1»>, cx<«5»> > @t; r += @t.get();'),
 ('template fn', 'r += fx<«6 / 2»>(r);'),
 ('template using', 'using @U = cx<«8 % 5»>; r += @U::get();'),
 ('noexcept', 'r += noexcept(«r + 1»);'),
 ('if constexpr', 'if constexpr («sizeof(int) == 4») { r += 2; } else { r -= 2; }'),
 ('if constexpr else', 'if constexpr («sizeof(int) == 5») { r += 2; } else if constexpr («1 + 1 == 2») { r -= 2; }'),
 ('sizeof', 'r += (int)sizeof(«r + 1»); r += (int)sizeof «r»;'),
 ('sizeof nested', 'r += (int)sizeof(«(r * 2, r + 1L)») + 1;'),
 ('alignof', 'r += (int)alignof(int[«1 + 1»]);'),
 ('lambda capture', 'auto @l = [y = «r + 1»] { return y; }; r += @l();'),
 ('lambda capture ref', 'int @z = 2; auto @l = [&w = «@z», v = «@z * 2»]() { w += v; return v; }; r += @l(); r += @z;'),
 ('default param', 'auto @l = [](int q = «1 + 2») { return q; }; r += @l();'),
 ('default param 2', 'struct @D { int m(int a = «4 - 1», int b = «2») { return a * b; } }; r += @D().m();'),
 ('bit-field width', 'struct @B { unsigned b : «1 + 2»; }; @B @b{}; @b.b = 5; r += @b.b;'),
 ('enumerator', 'enum @E { @A = «1 + 2», @F = «4» }; r += @A + @F;'),
 ('alignas', 'alignas(«4 * 4») int @q = 3; r += @q;'),
 ('decltype', 'decltype(r + 1) @d = 2; r += @d;'),
 ('constexpr local fn', 'struct @C { static constexpr int f(int x) { int y = «x * 2»; return «y + 1»; } }; r += @C::f(3);'),
 ('consteval', 'r += cev(«2 + 1»);'),
 ('bit-field lvalue', 'struct @B { unsigned b : 3; int c : 5; bool d : 1; }; @B @b{}; @b.b = 5; @b.c += 2; ++@b.c; @b.b--; @b.d = r; r += @b.b * @b.c + @b.d;'),
 ('const lvalue', 'const int @c = r + 1; const int &@d = @c; r += @c + @d; const bool @e = r; bool @g = @e; @g = !@g; r += @g;'),
 ('label', 'goto @x; @x: r += 1; goto @y; @y: ; r += 2;'),
 ('new array', 'int *@p = new int[«2»]{3, 4}; r += @p[1]; delete[] @p;'),
 ('user literal', 'r += «12_kk»;'),
 ('range for', 'int @a[] = {1, 2}; for (int x : @a) { r += x; } for (auto &x : @a) x++;'),
 ('structured binding', 'int @a[2] = {1, 2}; auto [@x, @y] = @a; r += @x + @y;'),
 ('if decl', 'if (int @v = r) { r += @v; } while (int @w = r & 1) { r -= @w; }'),
 ('static local', 'static int @s = r + 1; r += @s - @s;'),
 ('typeid', 'r += typeid(int[«1 + 1»]) == typeid(int[2]);'),
 ('init list', 'std::initializer_list<long> @i = {r, 2, 3L}; r += (int)@i.size(); char @c{(char)r}; r += @c;'),
]
CXX_PRE = '''#include <initializer_list>
#include <typeinfo>
template <int N> struct cx { static int get() { return N * 3; } };
template <class A, class B> struct pr { static int get() { return A::get() - B::get(); } };
template <int N> int fx(int x) { return N + x; }
consteval int cev(int x) { return x * 5; }
static int operator""_kk(unsigned long long v) { return (int)v + 1; }
constexpr int cfun(int x) { int s = «0»; for (int i = «0»; «i < x»; «i++») { «s += i»; if («s > 100») return «s - 1»; } return «s»; }
int glob0 = «1 + 2»; const int glob1 = «3 * 4»; static long glob2[] = {«1», «2 + 3»};
struct Cls { int f = «1 + 2»; static constexpr int k = «2 + 2»; int g = «k»; Cls() : f(5) {} };
enum G { G0 = «1 + 1», G1 };
template <int N = «1 + 3»> struct dflt { static int get() { return N; } };
int defarg(int a, int b = «2 * 2») { return a + b; }
int use0(int x) { return x + cfun(4) + glob0 + glob1 + (int)glob2[1] + Cls().f + Cls::k + Cls().g + G1 + dflt<>::get() + defarg(x); }
'''
FORBID_C = [
 ('case', 'switch (r & 7) { case «1 + 2»: r += 5; break; case «4»: case «5 * 1»: r -= 2; break; default: r++; }'),
 ('case range', 'switch (r & 7) { case «1» ... «2 + 1»: r += 5; break; default: r++; }'),
 ('array', 'int @a[«2 + 3»]; @a[0] = r; r += @a[0] + (int)sizeof(@a);'),
 ('array init', 'int @a[«1 + 1»][«3»] = {{1, 2, 3}, {4, 5, 6}}; r += @a[1][2] + (int)sizeof(@a);'),
 ('array field', 'struct @S { int f[«2 * 2»]; char g[«1 + 1»][«3»]; }; r += (int)sizeof(struct @S);'),
 ('static local', 'static int @s = «1 + 2»; r += @s;'),
 ('static local array', 'static const int @s[] = {«1», «2 + 3», «-4»}; r += @s[1];'),
 ('static thread local', 'static _Thread_local int @s = «1 + 2»; r += @s; static __thread unsigned @u = «3u * 2u»; r += (int)@u;'),
 ('static local struct', 'static const struct { int p; double q; } @s = {«1 + 2», «2.5 * 2»}; r += @s.p; static volatile long @v = «-1L»; r += (int)@v;'),
 ('static local ptr', 'static const char *@s[«2»] = {"a", "b"}; r += *@s[1];'),
 ('static_assert', '_Static_assert(«1 + 2 == 3», "m"); r += 1;'),
 ('sizeof', 'r += (int)sizeof(«r + 1»); r += (int)sizeof «r»;'),
 ('alignof', 'r += (int)_Alignof(int[«1 + 1»]);'),
 ('bit-field width', 'struct @B { unsigned b : «1 + 2»; } @b = {0}; @b.b = 5; r += @b.b;'),
 ('bit-field lvalue', 'struct @B { unsigned b : 3; int c : 5; _Bool d : 1; } @b = {1, 2, 0}; @b.b = 5; @b.c += 2; ++@b.c; @b.b--; @b.d = r; r += @b.b * @b.c + @b.d;'),
 ('enumerator', 'enum @E { @A = «1 + 2», @F = «4» }; r += @A + @F;'),
 ('const lvalue', 'const int @c = r + 1; r += @c; const _Bool @e = r; _Bool @g = @e; @g = !@g; r += @g;'),
 ('label', 'goto @x; @x: r += 1; goto @y; @y: ; r += 2;'),
 ('vla', 'int @n = (r & 3) + 1; int @a[@n + 1]; @a[0] = 1; r += @a[0] + (int)sizeof(@a);'),
 ('designator', 'int @a[4] = {[«1 + 1»] = 5, [«3»] = r}; r += @a[2] + @a[3];'),
 ('compound literal', 'r += (int[«2»]){3, 4}[1];'),
 ('extension', 'r += __extension__ (r * 2);'),
]
C_PRE = '''int glob0 = «1 + 2»; const int glob1 = «3 * 4»; static long glob2[] = {«1», «2 + 3»};
enum G { G0 = «1 + 1», G1 };
struct T { unsigned b : «2 + 1»; int a[«2 * 3»]; };
int use0(int x) { struct T t = {1}; return x + glob0 + glob1 + (int)glob2[1] + G1 + (int)sizeof(t) + t.b; }
'''
CONTEXTS_CXX = [('body', 'int fn(int r) { % return r; }\n'), ('block', 'int fn(int r) { if (r < 1000) { { % } } return r; }\n'),
 ('loop', 'int fn(int r) { for (int i0 = 0; i0 < 2; i0++) { % } return r; }\n'), ('lambda', 'int fn(int r) { auto l0 = [&r]() { % return r; }; return l0(); }\n'),
 ('method', 'struct Sfn { int r; int m() { % return r; } };\nint fn(int r) { Sfn s{r}; return s.m(); }\n'),
 ('template', 'template <class T0> T0 tfn(T0 r) { % return r; }\nint fn(int r) { return tfn<int>(r); }\n'),
 ('switch', 'int fn(int r) { switch (r & 1) { case 0: { % } break; default: { % } } return r; }\n'),
 ('ns', 'namespace nfn { static int g(int r) { do { % } while (0); return r; } }\nint fn(int r) { return nfn::g(r); }\n'),
 ('ctor', 'struct Kfn { int r; Kfn(int a) : r(a) { % } ~Kfn() { int r = 1; % } };\nint fn(int r) { Kfn k(r); return k.r; }\n')]
CONTEXTS_C = [('body', 'int fn(int r) { % return r; }\n'), ('block', 'int fn(int r) { if (r < 1000) { { % } } return r; }\n'),
 ('loop', 'int fn(int r) { for (int i0 = 0; i0 < 2; i0++) { % } return r; }\n'), ('switch', 'int fn(int r) { switch (r & 1) { case 0: { % } break; default: { % } } return r; }\n'),
 ('else', 'int fn(int r) { if (r > 5) { r++; } else { % } return r; }\n')]
SKIP = {('label', 'switch'), ('label', 'ctor'), ('default param 2', 'template'), ('constexpr local fn', 'x'), ('array field', 'x')}
def unmark(t):
    "Source text and the marked ranges."
    out, rs, st = [], [], []; n = 0
    for ch in t:
        if ch == '«': st.append(n)
        elif ch == '»': rs.append((st.pop(), n))
        else: out.append(ch); n += 1
    return ''.join(out), rs
def static(s, cxx, opts, ctxs):
    ext = 'cc' if cxx else 'c'
    for ci, (cn, ct) in enumerate(CONTEXTS_CXX if cxx else CONTEXTS_C):
        if cn not in ctxs: continue
        text = CXX_PRE if cxx else C_PRE
        fns = ['use0']
        for i, (n, body) in enumerate(FORBID_CXX if cxx else FORBID_C):
            if (n, cn) in SKIP: continue
            fn = 'f%d' % i; parts = ct.replace('fn', fn).split('%')
            t = parts[0]
            for q, p in enumerate(parts[1:]): t += body.replace('@', 'v%d_%d_' % (i, q)) + p
            text += t; fns.append(fn)
        src, marks = unmark(text)
        tag = '%s_%s%d' % (ext, cn, len(opts))
        f = s.w(tag + '/f.' + ext, src); o = s.w(tag + '/o.' + ext, src)
        std = '-std=c++20' if cxx else '-std=gnu17'
        r, info = s.mutate([f], opts, ['-w', std], tag + '/info.json')
        if r.returncode or not info or not info.get('infoForFiles'): s.fail('run', f'dredd failed on {tag}: {r.stderr[-300:]}'); continue
        S = Src(src)
        s.ok('C10', len(marks))
        for x in sites(S, info['infoForFiles'][0], lambda p, w: s.fail(p, w)):
            for a, b in marks:
                if x.a < b and a < x.b and not (x.a <= a and b <= x.b and (x.a, x.b) != (a, b)):
                    l0 = src.rfind('\n', 0, a) + 1
                    s.fail('C10', f'{ext}, {cn}: mutants recorded for {src[x.a:x.b]!r} in {src[max(l0, a - 60):b + 20]!r}'); break
        m = s.w(tag + '/m.' + ext, '#include <stdio.h>\n' + ''.join('int %s(int);\n' % n for n in fns) + 'int main(void) { for (int i = -3; i < 12; i++) { ' + ''.join('printf("%s(%%d)=%%d\\n", i, %s(i));' % (n, n) for n in fns) + ' } return 0; }\n')
        outs = []
        for p in (o, f):
            rr = sh([CC[cxx], '-w', std, p, m, '-o', p + '.x'])
            if rr.returncode:
                if p == o: raise Exception('static suite source does not compile: ' + rr.stderr[:600])
                s.fail('compile', f'{tag}: instrumented file does not compile: {rr.stderr[:600]}'); s.fail('C11', f'{tag}: instrumented file does not compile: {rr.stderr[:300]}'); break
            outs.append(sh([p + '.x']).stdout.split('\n'))
        if len(outs) == 2:
            for a, b in zip(*outs):
                s.ok('C11'); s.ok('C10')
                if a != b: s.fail('C11', f'{ext}, {cn}: original {a}, instrumented {b} ({"".join(x[0] for k, x in enumerate(FORBID_CXX if cxx else FORBID_C) if a.startswith("f%d(" % k))})')

# ---- C12 / C03: sequences of files ------------------------------------------------
MF = {
 'a': ('a.c', 'int add(int a, int b) { return a + b; }\nvoid w(void);\nvoid q(int x) { if (x > 2) { w(); } }\n'),
 'b': ('b.c', 'int sub(int a) { int r = a; r -= 3; return r * 2; }\n'),
 'd': ('d.cc', 'int dd(int a) { bool c = a > 1; return c && a; }\n'),
 'z': ('z.c', 'int zz;\nstruct Z { int f; };\n'),                                        # nothing to mutate
 'e': ('e.c', 'int f(int a) { return a + undeclared; }\nint g(int a) { return a * 2; }\n'),  # semantic error
 's': ('s.c', 'int g(int a) { return a * 2; }\nint f( { return 1; }\n'),                      # syntax error
 'm': ('m.c', '#include "does_not_exist.h"\nint g(int a) { return a * 2; }\n'),               # fatal error
 'h': ('h.c', '#include "bad.h"\nint g(int a) { return a * 2; }\n'),                          # error in a header
 'p': ('p.c', '#error no\nint g(int a) { return a * 2; }\n'),
 'l': ('l.c', 'int g(int a) { return a * 2; }\n_Static_assert(sizeof(int) == 3, "late");\n'),
 'w': ('w.c', '#pragma GCC diagnostic error "-Wunused-variable"\nint g(int a) { int u; return a * 2; }\n'),   # a warning made an error
 'i': ('i.c', 'int g(int a) { int *p = a; return a * 2 + *p; }\n'),                           # a warning that is an error by default
 'k': ('k.c', '#warning careful\nint g(int a) { int u; return a * 2; }\n'),                   # warnings only
 't': ('t.cc', 'template <class T> int tt(T t) { return t.x + 1; }\nint g(int a) { return tt(a); }\n'),  # error in instantiation at the end
}
BADK = set('esmhpltwi')
SPELL = ['{d}/{f}', '{d}/./{f}', '{d}/sub/../{f}', './{f}', '{f}', 'sub/../{f}']
def multi_dir(s, tag):
    d = s.dir + '/' + tag; os.makedirs(d + '/sub', exist_ok=True)
    for k, (f, t) in MF.items(): open(d + '/' + f, 'w').write(t)
    open(d + '/bad.h', 'w').write('int broken(int a) { return a + ; }\n')
    return d
def multi_run(s, d, paths, opts):
    i = d + '/info.json'
    if os.path.exists(i): os.unlink(i)
    r = sh([s.dredd] + list(opts) + ['--mutation-info-file', i] + paths + ['--'], cwd=d)
    try: info = json.load(open(i))
    except Exception: info = None
    return r, info, {k: open(d + '/' + f).read() for k, (f, _) in MF.items()}
_ref = {}
def multi(s, seqs, opts=()):
    """seqs: strings of kinds; a digit after a kind selects the spelling."""
    def reference(clean):
        if clean not in _ref:
            d = multi_dir(s, 'ref_' + clean + str(len(_ref)))
            _ref[clean] = multi_run(s, d, [d + '/' + MF[k][0] for k in clean], opts) if clean else (None, {}, {k: t for k, (f, t) in MF.items()})
        return _ref[clean]
    _ref.clear()
    for n, seq in enumerate(seqs):
        items = re.findall(r'(\w)(\d?)', re.sub(r'([a-zN])(?=[a-zN]|$)', r'\g<1>0', seq))
        d = multi_dir(s, 'm%d' % n)
        paths = [d + '/missing.c' if k == 'N' else SPELL[int(v or 0)].format(d=d, f=MF[k][0]) for k, v in items]
        r, info, files = multi_run(s, d, paths, opts)
        order = []
        for k, _ in items:
            if k not in order: order.append(k)
        clean = ''.join(k for k in order if k != 'N' and k not in BADK)
        bad = {k for k in order if k == 'N' or k in BADK}
        show = ' '.join(p.replace(d, '<dir>') for p in paths)
        rr, rinfo, rfiles = reference(clean)
        s.ok('C12')
        f12 = lambda w: s.fail('C12', 'dredd %s: %s' % (show, w))
        if r.returncode < 0: f12('dredd dies: ' + r.stderr[-200:]); continue
        if (r.returncode != 0) != bool(bad): f12('exit status %d with %s' % (r.returncode, 'erroneous files' if bad else 'no erroneous file'))
        for k, (f, t) in MF.items():
            if k not in clean and files[k] != t: f12('%s, which must not be modified, was modified' % f); break
        else:
            for k in clean:
                if files[k] != rfiles[k]:
                    f12('%s is not mutated as when the erroneous and repeated files are left out' % MF[k][0])
                    break
        if 'missing.c' in os.listdir(d): f12('a missing file was created')
        if info is None: f12('no mutation info written'); continue
        strip = lambda x: [dict(y, filename=os.path.basename(y['filename'])) for y in (x or {}).get('infoForFiles', [])]
        gi, ri = strip(info), strip(rinfo)
        if [x['filename'] for x in gi] != [MF[k][0] for k in clean if k != 'z']: f12('mutation info covers %s' % [x['filename'] for x in gi])
        elif gi != ri: f12('mutation info differs from that of a run without the erroneous and repeated files')
        if any(os.path.normpath(os.path.join(d, x['filename'])) != d + '/' + os.path.basename(x['filename']) for x in info.get('infoForFiles', [])): f12('mutation info names other files')
        s.ok('C03')
        ids = sum((ids_of(x) for x in info.get('infoForFiles', [])), [])
        if ids != list(range(len(ids))): s.fail('C03', 'dredd %s: ids are not 0..N-1 in order: %s' % (show, ids[:20]))
        m = re.search(r'The following files were not mutated.*?:\n(.*)', r.stderr, re.S)
        listed = {os.path.basename(l.strip()) for l in m.group(1).split('\n') if l.startswith('  ')} if m else set()
        want = {MF[k][0] for k in bad if k != 'N'}
        if listed != want: f12('the list of files with errors is %s, expected %s' % (sorted(listed), sorted(want)))
def multi_seqs(tier, seed):
    ks = 'abdzesmhpltkwiN'
    out = [a for a in ks] + [a + b for a in ks for b in ks]
    out += ['a%da%d' % (i, j) for i in range(6) for j in range(6)] + ['a%dea%db' % (i, j) for i in range(3) for j in range(3, 6)] + ['e%de%da' % (i, j) for i in range(6) for j in range(0, 6, 2)]
    rnd = random.Random(seed)
    for _ in range(60 if tier == 'quick' else 1500):
        out.append(''.join(rnd.choice('aabbdzesmhpltkwiN') + str(rnd.choice([0, 0, 0, 1, 2, 3, 4, 5])) for _ in range(rnd.randrange(3, 8))))
    return out

# ---- C08: the tree simplification, exhaustively over small shapes -----------------
def tree(s, n2, n1):
    import shlex
    b = s.dredd[:s.dredd.rindex('/src/dredd/')]
    db = json.load(open(b + '/compile_commands.json'))
    e = [x for x in db if x['file'].endswith('/mutation_tree_node.cc')]
    if not e: raise Exception('no mutation_tree_node.cc')
    e = e[0]
    a = shlex.split(e['command']); base = []; i = 0
    while i < len(a):
        if a[i] in ('-o', '-MF', '-MT'): i += 2; continue
        if a[i] not in ('-c', '-MD', '-MMD', e['file']) and not a[i].startswith('-W'): base.append(a[i])
        i += 1
    here = os.path.dirname(os.path.abspath(__file__)); objs = []
    for f in (here + '/tree_harness.cc', e['file'], e['file'].replace('mutation_tree_node', 'mutation')):
        o = s.dir + '/' + os.path.basename(f) + '.o'
        r = sh(base + ['-w', '-O1', '-UNDEBUG', '-c', f, '-o', o], cwd=e['directory'])
        if r.returncode: raise Exception('harness does not compile: ' + r.stderr[:800])
        objs.append(o)
    pb = [x for x in os.listdir(b + '/src/libdredd') if x == 'liblibdredd.a' or x == 'libdredd.a']
    x = s.dir + '/th'
    r = sh(['clang++-17'] + objs + ['-o', x, '-Wl,--unresolved-symbols=ignore-all'])
    if r.returncode: raise Exception('harness does not link: ' + r.stderr[-800:])
    r = sh([x, str(n2), str(n1)])
    m = re.search(r'CHECKED (\d+)', r.stdout)
    s.ok('C08', int(m.group(1)) if m else 1)
    for l in r.stdout.split('\n'):
        if l.startswith('FAIL'): s.fail('C08', 'TidyUp on the tree with ' + l[5:])
    if r.returncode and 'FAIL' not in r.stdout: s.fail('C08', 'TidyUp fails on a small tree: exit %d %s' % (r.returncode, r.stderr[-400:]))

# ---- C09: macros, headers, directives ----------------------------------------------
MACRO_SRC = r'''#include "mh.h"
#define ID(x) x
#define ADD(a, b) ((a) + (b))
#define RAWADD(a, b) a + b
#define TWO 2
#define NEG(x) -x
#define PLUS_ONE + 1
#define OPEN (
#define CLOSE )
#define LT <
#define CALL(f, x) f(x)
#define STMT(x) x;
#define BLOCK(x) { x; }
#define RET return
#define VAR r
#define INC ++
#define WHOLE (r + 3)
#define PASTE(a, b) a##b
#define STR(x) #x
#define MULTI(x) \
  do { r += x; \
       r -= 1; } while (0)
#define EMPTY
#define SEMI ;
#define COND(c) if (c) { r++; }
#define COMMA ,
static int id(int x) { return x; }
int f0(int r) { return ID(r + 1); }
int f1(int r) { return ADD(r, 2) * 3; }
int f2(int r) { return RAWADD(r, 2) * 3; }
int f3(int r) { return r * TWO + TWO; }
int f4(int r) { return NEG(r) + NEG(2 * r); }
int f5(int r) { return r PLUS_ONE PLUS_ONE; }
int f6(int r) { return OPEN r + 2 CLOSE * 3; }
int f7(int r) { return r LT 4 ? ID(r * 2) : ID(r) - 1; }
int f8(int r) { return CALL(id, r + 1) + CALL(id, ID(r)); }
int f9(int r) { STMT(r += 2) STMT(r--) BLOCK(r *= 2) r = r; return r; }
int f10(int r) { RET r + 1; }
int f11(int r) { VAR += 2; VAR++; return VAR; }
int f12(int r) { r INC; r = r + WHOLE; return WHOLE; }
int f13(int r) { int ab = r; return PASTE(a, b) + (int)sizeof(STR(r + 1)); }
int f14(int r) { MULTI(3); MULTI(r > 2); return r; }
int f15(int r) { EMPTY r = (EMPTY r) + 1; EMPTY return EMPTY r; }
int f16(int r) { r = r + 1 SEMI r++ SEMI return r SEMI }
int f17(int r) { COND(r > 3) COND(ID(r == 2)) else { r--; } return r; }
int f18(int r) { int a[2] = {r COMMA r + 1}; return a[0] + a[1]; }
int f19(int r) {
#include "body.inc"
  r = r +
#include "expr.inc"
  ; return r; }
int f20(int r) {
#line 500 "other.c"
  r = r + 4;
  if (r > 9) {
#line 3
    r -= 5;
  }
  return r;
}
int f21(int r) { return hdr_fn(r) + HDR_ADD(r, 1) + HDR_CONST + (r == HDR_CONST); }
int f22(int r) { return ID(ID(r) + ID(1)) + ADD(ADD(r, 1), ID(2)) - RAWADD(ID(r), r); }
int f23(int r) {
#if TWO > 1
  r = r * 3;
#else
  r = r * 4;
#endif
  return r; }
int f24(int r) { r = r \
  + 2; r /* c */ += /* d */ 3 // e
  ; return (r  )  + (  ( r ) ); }
int f25(int r) { switch (r) { case TWO: r++; break; case ID(3): ID(r--); break; default: STMT(r += TWO) } return r; }
int f26(int r) { int a[TWO + 1] = {1, TWO, r}; for (int i = 0; i < TWO + 1; ID(i++)) { r += a[ID(i)]; } while (ID(r) > 20) r -= TWO; do { r++; } while (r LT TWO); return r; }
int f27(int r) { double d = r * 1.5; float g = ID(d) + 1.0f; _Bool_ b = r && ID(g > 2); return (int)g + b + !ID(b) + ~ID(r); }
int f28(int r) { int *p = &r; *p += ID(2); ID((*p))++; ++ID(*p); return ID(-*p) + p[ID(0)]; }
int f29(int r) { return r ? ID(r) : TWO; }
'''
MACRO_HDR = '''#ifndef MH_H
#define MH_H
#define HDR_ADD(a, b) ((a) + (b))
#define HDR_CONST 7
static int hdr_fn(int x) { if (x > 3) { x = x + 1; } return x * 2; }
#endif
'''
def macros(s, cxx, opts=()):
    ext = 'cc' if cxx else 'c'; tag = 'mac%s%d' % (ext, len(opts))
    src = MACRO_SRC.replace('_Bool_', 'bool' if cxx else '_Bool')
    side = {'mh.h': MACRO_HDR, 'body.inc': '  r += 2;\n  if (r > 4) r--;\n', 'expr.inc': 'r * 2 + 1\n'}
    for k, t in side.items(): s.w(tag + '/' + k, t)
    f, o = s.w(tag + '/f.' + ext, src), s.w(tag + '/o.' + ext, src)
    std = '-std=c++20' if cxx else '-std=gnu17'
    before = set(os.listdir(s.dir + '/' + tag))
    r, info = s.mutate([f], opts, ['-w', std], tag + '/info.json')
    if r.returncode or not info or not info.get('infoForFiles'): s.fail('run', f'dredd failed on macro suite: {r.stderr[-300:]}'); return
    for k, t in side.items():
        s.ok('C09')
        if s.rd(s.dir + '/' + tag + '/' + k) != t: s.fail('C09', f'{ext}: header {k} was modified')
    mut = s.rd(f)
    # directives keep their text and order
    def directives(t):
        out = []; cont = False
        for l in t.split('\n'):
            if cont or l.lstrip().startswith('#'): out.append(l); cont = l.endswith('\\')
        return out
    want = directives(src); got = directives(mut); i = 0
    for g in got:
        if i < len(want) and g == want[i]: i += 1
    s.ok('C09', len(want))
    if i < len(want): s.fail('C09', f'{ext}: the directive {want[i]!r} was changed')
    S = Src(src); ss = sites(S, info['infoForFiles'][0], lambda p, w: s.fail(p, f'{ext}, macro suite: {w}'))
    s.ok('C09', len(ss))
    todo = {}
    for x in ss:
        if x.kind == 'removeStmt': todo[(x.a, x.b)] = '{%s;}'; continue
        for a, b in [(x.a, x.b)] + list(x.parts.values()): todo.setdefault((a, b), '(%s)')
    dl = set()
    cont = False
    for n, l in enumerate(src.split('\n')):
        if cont or l.lstrip().startswith('#'): dl.add(n); cont = l.endswith('\\')
    for (a, b), w in sorted(todo.items()):
        s.ok('C09')
        ln = src.count('\n', 0, a)
        if ln in dl: s.fail('C09', f'{ext}: a mutant is recorded inside the directive {src.split(chr(10))[ln]!r}'); continue
        t = src[:a] + w % src[a:b] + src[b:]
        p = s.w(tag + '/w.' + ext, t)
        rr = sh([CC[cxx], '-w', std, '-fsyntax-only', p])
        if rr.returncode: s.fail('C09', f'{ext}: the recorded range {src[a:b]!r} on line {ln + 1} is not a whole construct: {rr.stderr[:200]}')
    n = src.count('\nint f')
    m = s.w(tag + '/m.' + ext, '#include <stdio.h>\n' + ''.join('int f%d(int);\n' % i for i in range(n)) + 'int main(void) { for (int i = -4; i < 12; i++) {' + ''.join('printf("f%d(%%d)=%%d\\n", i, f%d(i));' % (k, k) for k in range(n)) + '} return 0; }\n')
    outs = []
    for p in (o, f):
        rr = sh([CC[cxx], '-w', std, p, m, '-o', p + '.x'])
        if rr.returncode:
            if p == o: raise Exception('macro suite source does not compile: ' + rr.stderr[:600])
            s.fail('compile', f'{ext}, macro suite: instrumented file does not compile: {rr.stderr[:500]}'); s.fail('C09', f'{ext}, macro suite: instrumented file does not compile: {rr.stderr[:300]}'); break
        outs.append(sh([p + '.x']).stdout.split('\n'))
    if len(outs) == 2:
        for a, b in zip(*outs):
            s.ok('C09')
            if a != b: s.fail('C01', f'{ext}, macro suite: original {a}, instrumented {b}')

# ---- C06: all helper functions in one file -----------------------------------------
def clash_units(cxx):
    T = [('int', 'v%d', ['0', '1', '-1', '5']), ('unsigned', 'w%d', ['0u', '1u', '7u']), ('long', 'l%d', ['0L', '1L', '-1L']), ('double', 'd%d', ['0.0', '1.0', '-1.0', '2.5']),
         ('signed char', 'c%d', ["'a'"]), ('bool' if cxx else '_Bool', 'b%d', []), ('float', 'g%d', ['1.0f']), ('unsigned long long', 'q%d', ['1ull', '0ull']), ('unsigned char', 'k%d', [])]
    args = ', '.join('%s %s, %s %s, volatile %s vo%d, const %s co%d' % (t, v % 0, t, v % 1, t, i, t, i) for i, (t, v, _) in enumerate(T))
    ops = '* / % + - & ^ | << >> < > <= >= == != && ||'.split(); asg = '= *= /= %= += -= <<= >>= &= ^= |='.split()
    out = []
    for op in ops:
        for i, (t, v, cs) in enumerate(T):
            fl = t in ('double', 'float')
            if fl and op in '% & ^ | << >>'.split(): continue
            L = [v % 0, 'vo%d' % i, 'co%d' % i, '(%s = %s)' % (v % 0, v % 1)] + cs
            R = [v % 1, 'co%d' % i] + cs
            for a in L:
                for b in R:
                    if op in ('/', '%') and b.strip('uULl') in ('0', '0.0'): continue
                    if op in ('<<', '>>') and (b.startswith('-') or a.startswith('-')): continue
                    out.append('s = s + (%s %s %s);' % (a, op, b))
            for j, (t2, v2, cs2) in enumerate(T):
                if i != j and not (t2 in ('double', 'float') and op in '% & ^ | << >>'.split()): out.append('s = s + (%s %s %s);' % (v % 0, op, v2 % 1))
    for op in asg:
        for i, (t, v, cs) in enumerate(T):
            fl = t in ('double', 'float')
            if fl and op in '%= &= ^= |= <<= >>='.split(): continue
            if cxx and t == 'bool' and False: continue
            for a in (v % 0, 'vo%d' % i):
                for b in [v % 1, 'v1'] + cs:
                    if op in ('/=', '%=') and b.strip('uULl') in ('0', '0.0'): continue
                    if op in ('<<=', '>>=') and b.startswith('-'): continue
                    out.append('%s %s %s;' % (a, op, b))
    for i, (t, v, cs) in enumerate(T):
        for u in ('-', '!') + (() if t in ('double', 'float') else ('~',)):
            for a in [v % 0, 'vo%d' % i, 'co%d' % i, '(%s = %s)' % (v % 0, v % 1)] + ['(%s)' % c for c in cs]: out.append('s = s + %s%s;' % (u, a))
        if t not in ('bool', '_Bool'):
            for u in ('++%s', '%s++', '--%s', '%s--'):
                for a in (v % 0, 'vo%d' % i): out.append('%s;' % (u % a)); out.append('s = s + %s;' % (u % a))
        for a in [v % 0, 'vo%d' % i, 'co%d' % i] + cs: out.append('s = %s; if (%s) s = 1; %s = %s;' % (a, a, v % 1, a))
    return args, out
def clash(s, cxx, opts, part=None):
    ext = 'cc' if cxx else 'c'; tag = 'cl%s%s' % (ext, ''.join(o[2:4] for o in opts))
    args, st = clash_units(cxx)
    if part: st = st[part[0]::part[1]]
    src = ''.join('double f%d(%s) {\n  double s = 0;\n%s  return s;\n}\n' % (i, args, ''.join('  ' + x + '\n' for x in st[a:a + 40])) for i, a in enumerate(range(0, len(st), 40)))
    f = s.w(tag + '/f.' + ext, src)
    std = '-std=c++20' if cxx else '-std=gnu17'
    r, info = s.mutate([f], opts, ['-w', std], tag + '/info.json')
    if r.returncode or not info or not info.get('infoForFiles'): s.fail('run', f'dredd failed on clash suite: {r.stderr[-300:]}'); return
    t = s.rd(f)
    helpers = re.findall(r'^static [^\n]*?(__dredd_replace_\w+)\(([^\n]*)\) \{\n(.*?)^\}\n', t, re.M | re.S)
    by = {}
    for n, p, b in helpers:
        k = n if not cxx else (n, ','.join(re.sub(r'\b\w+$', '', x.strip()) for x in re.split(r',(?![^<]*>)', p)))
        by.setdefault(k, []).append(b); s.ok('C06')
    for k, v in by.items():
        if len(v) > 1: s.fail('C06', f'{ext} {" ".join(opts)}: {len(v)} different helper functions {k}')
    called = set(re.findall(r'(__dredd_replace_\w+)\(', t)); s.ok('C06', len(called))
    if cxx and not part: return        # compiled in parts
    rr = sh([CC[cxx], '-w', std, '-fsyntax-only', '-ferror-limit=3', f])
    s.ok('C06')
    if rr.returncode:
        s.fail('C06', f'{ext} {" ".join(opts)}: file with all kinds of sites does not compile: {rr.stderr[:500]}')

# ---- C07: what the optimisations leave out -------------------------------------------
VT = {'v': ('s', 32), 'w': ('u', 32), 'l': ('s', 64), 'd': ('f', 0), 'c': ('s', 8), 'b': ('b', 1), 'g': ('f', 0), 'q': ('u', 64), 'k': ('u', 8)}
UB = object()
def wrap(t, x):
    k, n = t
    if x is UB or k == 'f': return x
    if k == 'b': return int(x != 0)
    x = int(x) & ((1 << n) - 1)
    return x - (1 << n) if k == 's' and x >> (n - 1) else x
def promote(t):
    if t[0] == 'b' or (t[0] != 'f' and t[1] < 32): return ('s', 32)
    return t
def common(a, b):
    a, b = promote(a), promote(b)
    if a[0] == 'f' or b[0] == 'f': return ('f', 0)
    n = max(a[1], b[1])
    return ('u', n) if 'u' in [x[0] for x in (a, b) if x[1] == n] else ('s', n)
def cdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
def cev(op, t, a, b):
    "a op b in the promoted type t; UB if undefined."
    if op in ('<', '>', '<=', '>=', '==', '!='): return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op])
    if op == '&&': return int(bool(a) and bool(b))
    if op == '||': return int(bool(a) or bool(b))
    if op in ('/', '%') and b == 0: return UB
    if t[0] == 'f': return {'+': a + b, '-': a - b, '*': a * b, '/': a / b if b else UB}.get(op, UB)
    if op in ('<<', '>>'):
        if b < 0 or b >= t[1]: return UB
        r = a << b if op == '<<' else a >> b
        if op == '<<' and t[0] == 's' and (a < 0 or r >> (t[1] - 1)): return UB
    else: r = {'+': a + b, '-': a - b, '*': a * b, '/': cdiv(a, b) if b else 0, '%': a - b * cdiv(a, b) if b else 0, '&': a & b, '|': a | b, '^': a ^ b}[op]
    w = wrap(t, r)
    return UB if t[0] == 's' and w != r else w
def covered(m, orig, kept):
    """m, orig and each of kept: results over the same inputs.  Equivalent to the
    original, to a kept mutant, or, on every input that kills some kept one, equal to it."""
    d = [i for i in range(len(orig)) if orig[i] is not UB and m[i] is not UB]
    if all(m[i] == orig[i] for i in d): return True
    for k in kept:
        if all(k[i] is UB or k[i] == m[i] for i in d): return True
        kill = [i for i in d if k[i] is not UB and k[i] != orig[i]]
        if kill and all(m[i] == k[i] for i in kill): return True
    return False
SAMP = {'s': [0, 1, -1, 2, 3, -2, -7, 5, 100, -128, 127], 'u': [0, 1, 2, 3, 7, 5, 100, 127], 'f': [0.0, 1.0, -1.0, 2.5, -3.25, 7.0], 'b': [0, 1]}
def opt(s, cxx):
    from behave import OPS, UOPS
    ext = 'cc' if cxx else 'c'; tag = 'op' + ext
    args, st = clash_units(cxx)
    st = [x for x in st if 'vo' not in x and '= v1)' not in x]
    src = ''.join('double f%d(%s) {\n  double s = 0;\n%s  return s;\n}\n' % (i, args, ''.join('  ' + x + '\n' for x in st[a:a + 40])) for i, a in enumerate(range(0, len(st), 40)))
    S = Src(src); got = []
    for o in ([], ['--no-mutation-opts']):
        f = s.w(tag + '/f.' + ext, src)
        r, info = s.mutate([f], o, ['-w', '-std=c++20' if cxx else '-std=gnu17'], tag + '/info.json')
        if r.returncode or not info or not info.get('infoForFiles'): s.fail('run', f'dredd failed on opt suite: {r.stderr[-300:]}'); return
        got.append(sites(S, info['infoForFiles'][0], lambda p, w: None))
    def isub(a, b):
        it = iter(b); return all(x in it for x in a)
    nb = {}
    for x in got[1]: nb.setdefault((x.kind, x.a, x.b, x.m.get('operator')), []).append(x)
    lit = lambda t: re.fullmatch(r"\(?(-?[0-9.]+)(u|L|f|ull)?\)?", t.strip())
    def typ(t):
        t = t.strip('() ')
        m = lit(t)
        if m: return ('f', 0) if '.' in t else {'u': ('u', 32), 'L': ('s', 64), 'ull': ('u', 64)}.get(m.group(2), ('s', 32))
        if t == "'a'": return ('s', 32) if not cxx else ('s', 8)
        m = re.fullmatch(r'([a-z])\d', t)
        if m: return VT[m.group(1)]
        m = re.fullmatch(r'co(\d)', t)
        return VT['vwldcbgqk'[int(m.group(1))]] if m else None
    def vals(t, ty):
        m = lit(t.strip('() '))
        if m: return [float(m.group(1)) if '.' in m.group(1) else int(m.group(1))]
        return [97] if "'" in t else SAMP[ty[0]]
    for x in got[0]:
        c = nb.get((x.kind, x.a, x.b, x.m.get('operator')), [])
        acts = [a for _, a in x.inst]; at = f'{ext}: {x.kind} at {src[x.a:x.b]!r}'
        y = next((y for y in c if isub(acts, [a for _, a in y.inst])), None)
        s.ok('C07')
        if y is None: s.fail('C07', f'{at}: with optimisations {acts}, without {[[a for _, a in z.inst] for z in c]}'); continue
        c.remove(y)
        om = [a for _, a in y.inst if a not in acts]
        if not om: continue
        if x.kind == 'replaceBinaryOperator':
            lt, rt = src[slice(*x.parts['lhs'])], src[slice(*x.parts['rhs'])]; a, b = typ(lt), typ(rt); op = OPS[x.m['operator']]
            if a is None or b is None or op.endswith('=') and op not in ('==', '<=', '>=', '!='): continue
            t = common(a, b) if op not in ('<<', '>>') else promote(a)
            if op in ('&&', '||'): t = ('b', 1)
            pr = [(wrap(t, p), wrap(t if op not in ('<<', '>>') else promote(b), q)) for p in vals(lt, a) for q in vals(rt, b)]
            res_t = ('b', 1) if cxx and op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||') else ('s', 32) if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||') else t
            def ev(act):
                if act == 'ReplaceWithLHS': return [wrap(res_t, p) for p, q in pr]
                if act == 'ReplaceWithRHS': return [wrap(res_t, q) for p, q in pr]
                o = OPS[act[len('ReplaceWith'):]]
                if op in ('&&', '||') and not cxx: return [cev(o, ('s', 32), int(p != 0), int(q != 0)) for p, q in pr]
                return [wrap(res_t, cev(o, t, p, q)) for p, q in pr]
            orig = [cev(op, t, p, q) for p, q in pr]
            if op in ('<', '>', '<=', '>=', '==', '!='): om = [q for q in om if q not in ('ReplaceWithLHS', 'ReplaceWithRHS')]
        elif x.kind == 'replaceUnaryOperator':
            xt = src[slice(*x.parts['operand'])]; a = typ(xt)
            if a is None or x.m['operator'] not in ('Minus', 'Not', 'LNot'): continue
            t = promote(a) if x.m['operator'] != 'LNot' or not cxx else ('b', 1)
            vs = [wrap(t, p) for p in vals(xt, a)]; res_t = t if x.m['operator'] != 'LNot' else (('b', 1) if cxx else ('s', 32))
            f1 = {'Minus': lambda p: -p, 'Not': lambda p: ~int(p), 'LNot': lambda p: int(p == 0), 'Operand': lambda p: p}
            ev = lambda act: [wrap(res_t, f1[act[len('ReplaceWith'):]](p)) for p in vs]
            orig = ev('ReplaceWith' + x.m['operator'])
            om = [q for q in om if q != 'ReplaceWithOperand']        # captured by inserting the operator again
            if t[0] == 'u': om = [q for q in om if q != 'ReplaceWithMinus']
        elif x.kind == 'replaceExpr':
            xt = src[x.a:x.b]
            a = typ(xt)
            if a is None or not lit(xt.strip('() ')): continue
            k = 'f' if any('Float' in q for q in om + acts) else 'b' if any('True' in q or 'False' in q for q in om + acts) else 's' if any('Minus' in q for _, q in y.inst) else 'u'
            t = (k, 64 if k in 'su' else 0); vs = [wrap(t, p) for p in vals(xt, a)]; res_t = t
            f1 = {'InsertMinus': lambda p: -p, 'InsertNot': lambda p: ~int(p), 'InsertLNot': lambda p: int(p == 0), 'ReplaceWithTrue': lambda p: 1, 'ReplaceWithFalse': lambda p: 0, 'ReplaceWithZeroInt': lambda p: 0, 'ReplaceWithOneInt': lambda p: 1,
                  'ReplaceWithMinusOneInt': lambda p: -1, 'ReplaceWithZeroFloat': lambda p: 0.0, 'ReplaceWithOneFloat': lambda p: 1.0, 'ReplaceWithMinusOneFloat': lambda p: -1.0}
            ev = lambda act: [wrap(res_t, f1[act](p)) for p in vs]
            orig = vs
        else: continue
        n = len(orig)
        cons = [] if x.kind == 'replaceExpr' else [[0] * n, [1] * n] + ([[-1] * n] if res_t[0] in 'sf' else [])
        kept = [ev(q) for q in acts] + cons
        for q in om:
            s.ok('C07')
            if not covered(ev(q), orig, kept): s.fail('C07', f'{at}: {q} is omitted, but is neither equivalent nor covered by a kept mutant ({acts})')
    s.ok('C07', len(got[0]))

# ---- C11: values of rewritten constants ----------------------------------------------
def values(s, stds=('-std=c++17', '-std=c++20'), optss=((), ('--no-mutation-opts',))):
    V = {'long long': ['-9223372036854775807LL - 1', '9223372036854775807LL', '-1LL', '0LL', '1LL << 40', '-(1LL << 33)', '(long long)0x80000000u', '2147483648LL', '-2147483649LL'],
         'unsigned long long': ['18446744073709551615ULL', '9223372036854775808ULL', '0ULL - 1', '1ULL << 63', '7u', '0'],
         'int': ['-2147483647 - 1', '2147483647', '-1', '0', '1 - 8', "'a' + 1", 'sizeof(long)', 'true', '3 > 2', 'E1 + 1', 'k3 * 2 - 9', 'k3', '1 ? -5 : 5', 'cfn(4)', '~0', '-cfn(3)', '010', '0x7f'],
         'unsigned': ['4294967295u', '1u << 31', '0', 'k3 + 0u'], 'bool': ['true', 'false', '!k3', '1 > 2'], 'char': ["'a'", '(char)-1', "'\\0'", '0x7f'], 'signed char': ['-128', '127'], 'short': ['-32768', '32767'],
         'E': ['E0', 'E1', '(E)1'], 'F': ['F::X', '(F)-2'], 'unsigned char': ['255', '0']}
    pre = 'enum E { E0, E1 = 7 };\nenum class F : signed char { X = 3, Y = -2 };\nconstexpr int cfn(int x) { return x * 3; }\nconst int k3 = 3;\n' + \
          'template <class T, T N> struct H { T dummy; static long long get() { return (long long)N; } };\ntemplate <class A> struct W { A a; static long long get() { return A::get() * 2 + 1; } };\n' + \
          'template <class A, int N, class B> struct X3 { A a; B b; static long long get() { return A::get() * 100 + N * 10 + B::get(); } };\n#define MK 6\n#define MKN (-6)\n'
    st = []
    for t, vs in V.items():
        for v in vs:
            st.append('H<%s, (%s)> x@{}; r += (long)x@.get() & 0xffffff; o(x@.get());' % (t, v))
            st.append('W<H<%s, (%s)> > x@{}; o(x@.get()); r += 1;' % (t, v))
            if '>' not in v and ',' not in v: st.append('H<%s, %s> x@{}; o(x@.get()); r += 2;' % (t, v))
    st += ['X3<H<int, -4>, 7 - 1, W<H<long long, -5LL> > > x@{}; o(x@.get()); r++;', 'H<int, MK> x@{}; o(x@.get()); r++;', 'H<int, MKN> x@{}; o(x@.get()); r++;', 'const H<int, 2 + 3> x@{}; o(x@.get()); r++;',
           'static H<int, k3 + 3> x@{}; o(x@.get()); r++;', 'H<int, 1> x@{}, y@{}; H<int, 1 + 1> z@{}, w@{}; o(x@.get() + y@.get() * 3 + z@.get() * 5 + w@.get() * 7); r++;']
    A = ['[3]', '[1 + 2]', '[k3]', '[k3 * 2][4]', '[1][2][3]', '[k3 - 1][k3][k3 + 1][2]', '[MK]', '[MK][k3]', '[sizeof(int)]', '[cfn(2)][2]', "['a' - 90]", '[1u][3L]', '[E1][2 * k3]', '[true + 1]', '[k3 > 2 ? 5 : 6]', '[300]', '[70000]', '[ 2 ][ 3 ]', '[(2)][((3))]', '[0x10]']
    st += ['extern char x@[%s]; o((long)sizeof(x@)); r++;' % b for b in ('3000000000u', '5000000000', 'k3 * 2000000000L', '1ul << 40', '4][5000000000ul][2')] + ['struct s@ { char f[4294967296]; }; o((long)sizeof(s@)); r++;']
    for a in A:
        d = a.count('[')
        nest = '{' * d + '1' + '}' * d
        for ty in ('int', 'char', 'const long', 'H<int, 5>', 'int *'):
            st.append('%s x@%s = %s; o((long)sizeof(x@)); r++;' % (ty, a, '{}' if ty != 'int' else nest))
            st.append('struct s@ { %s f%s; char g; }; o((long)sizeof(s@)); r++;' % (ty.replace('const ', ''), a))
        st.append('static short x@%s; o((long)sizeof(x@)); r++;' % a)
        st.append('int x@%s, y@%s[2], z@; z@ = 1; o((long)sizeof(x@) * 1000 + (long)sizeof(y@) + z@); r++;' % (a, a))
        st.append('int (*x@)%s = nullptr; o((long)sizeof(*x@)); int y@%s; y@%s = 0; int (&w@)%s = y@; o((long)sizeof(w@)); r++;' % (a, a, '[0]' * d, a))
        st.append('typedef int T@%s; T@ x@; T@ y@[2]; o((long)sizeof(x@) + 7 * (long)sizeof(y@)); r++;' % a)
        st.append('auto x@ = new int%s; delete[] x@; r++;' % a)
    st += ['int x@[] = {1, 2, 3}; o((long)sizeof(x@)); r++;', 'char x@[] = "abc"; o((long)sizeof(x@)); r++;', 'int x@[][2] = {{1, 2}, {3}}; o((long)sizeof(x@)); r++;', 'int x@[2] = {}; auto [p@, q@] = x@; r += p@ + q@;',
           'static_assert(k3 == 3, "x"); r++;', 'static_assert(sizeof(int[k3]) == 12); r++;', 'static_assert(cfn(2) > 1 && k3); r++;', 'o(__builtin_frame_address(0) != nullptr); r++;', 'o(__builtin_frame_address(1 - 1) != nullptr); r++;',
           'o(__builtin_frame_address(MK - 6) != nullptr); r++;', 'const int n@ = 4; int x@[n@ + 1]; o((long)sizeof(x@)); H<int, n@> y@{}; o(y@.get()); static_assert(n@ == 4); r += n@;', 'const int n@ = 2; const int m@ = n@ * 3; int x@[m@][n@]; o((long)sizeof(x@)); r += m@;']
    src = pre + 'void o(long long);\n'
    for i, t in enumerate(st): src += 'int f%d(int r) { %s return r; }\n' % (i, t.replace('@', str(i)))
    src += 'template <class T> int tf(T r) { int a[k3 + 2]; a[0] = 1; o((long)sizeof(a)); H<int, k3 * 4> h{}; o(h.get()); static_assert(k3 > 1); return r + a[0]; }\nint g0(int r) { return tf(r) + tf((long)r) + 1; }\n'
    src += 'struct Cl { int a[2 + k3]; static int b[k3][2]; int m(int r) { int c[k3 + 4]; o((long)sizeof(c) + (long)sizeof(a)); H<int, -k3> h{}; o(h.get()); return r + 1; } };\nint Cl::b[k3][2] = {{1, 2}, {3}};\nint garr[k3 + 6] = {5}; H<int, k3 - 9> gh{};\n' + \
           'int g1(int r) { Cl c{}; o((long)sizeof(Cl) + (long)sizeof(garr) + Cl::b[1][0] + gh.get()); return c.m(r) + 1; }\nnamespace N { struct Q { char z[k3 * 5]; }; int g2(int r) { auto l = [](int y) { int a[k3 + 8]; o((long)sizeof(a) + (long)sizeof(Q)); return y + 1; }; return l(r) + 2; } }\n'
    for std in stds:
        f, o = s.w('val%s/f.cc' % std[-2:], src), s.w('val%s/o.cc' % std[-2:], src)
        fns = ['f%d' % i for i in range(len(st))] + ['g0', 'g1']
        m = s.w('val%s/m.cc' % std[-2:], '#include <stdio.h>\nvoid o(long long x) { printf("%lld ", x); }\n' + ''.join('int %s(int);\n' % n for n in fns) + 'namespace N { int g2(int); }\nint main() { ' + ''.join('printf("%s: "); printf("%%d\\n", %s(5));' % (n, n) for n in fns) + 'printf("g2: "); printf("%d\\n", N::g2(5)); }\n')
        for opts in optss:
            open(f, 'w').write(src)
            r, info = s.mutate([f], opts, ['-w', std], 'val/info.json') if os.path.isdir(s.dir + '/val') or not os.makedirs(s.dir + '/val') else None
            if r.returncode or not info: s.fail('run', f'dredd failed on value suite: {r.stderr[-300:]}'); continue
            outs = []
            for p in (o, f):
                rr = sh([CC[True], '-w', std, '-ferror-limit=3', p, m, '-o', p + '.x'])
                if rr.returncode:
                    if p == o: raise Exception('value suite source does not compile: ' + rr.stderr[:900])
                    s.fail('C11', f'value suite: instrumented file does not compile: {rr.stderr[:600]}'); break
                outs.append(sh([p + '.x']).stdout.split('\n'))
            if len(outs) == 2:
                for a, b in zip(*outs):
                    s.ok('C11')
                    if a != b: s.fail('C11', f'original {a}, instrumented {b}: {st[int(a[1:a.index(":")])] if a[0] == "f" else a[:3]}')
            # nothing but the value: the rewritten text is a decimal literal

# ---- C07: sites that exist only without optimisations ---------------------------------
def optsites(s, cxx):
    ext = 'cc' if cxx else 'c'; tag = 'os' + ext
    body = ['if (a > b) { a++; b--; }', 'while (a < 3) a += 2;', 'for (int i = 0; i < 3; i++) b += i;', 'for (int i = 0; i < 3; i++) { b += i * a; c(); }', 'do { b -= 2; } while (b > a);',
            'switch (a) { case 1: b = 2; break; case 3: g(b); b++; break; default: b = g(a); }', 'if (a) b = 1; else b = a - 1;', 'if (g(a)) { } else { b = a * 2; }', 'a; /*pure*/', '(a + b) * 2; /*pure*/', '-a; /*pure*/', 'a < b; /*pure*/', 'g(a);', 'a = b;', 'a++;', '(a = b);',
            'b = (a + b) * (1 - b);', 'b = -a + ~b;', 'b = 0 + 1;', 'b = 1 + 0;', 'b = 0 * a;', 'b = 0 < 1;', 'd = 0.0 + 1.0;', 'b = a + 1;', 'b = 1 - a;', 'b = 0 - 2;', 'b = 2 / 1;', 'b = -1;', 'b = -2;', 'b = ~0;', 'b = ~1;', 'b = ~2;', 'd = -1.0;', 'd = -0.5;', 'b = !a;', 'b = !0;', 'b = -0;', 'b = +a;',
            'd = a;', 'd = d + a;', 'd = d * 2;', 'u = a;', 'u = a + u;', 'a = d;', 'a = u * 2u;', 'l = a + b;', 'l = a;', 'ch = a;', 'ch = ch + 1;', 'a = ch;', 'if (d) b = 1;', 'if (a && d) b++;', 'b = a ? d : u;', 'b = p[a];', 'p[a] = b;', '*p = a;', 'p[a + 1]++;', 'b = *p + p[1];', 'g(a + b);', 'g(d);', 'h(a, d, u);', 'g(g(a) + 1);', 'b = (a, b);',
            'a += b;', 'a += 0;', 'd -= a;', 'ch += d;', 'u <<= a;', 'a = b = g(a);', 'b = st.x + st.y;', 'st.x = a;', 'b = st.z;', 'int q@ = a + 1; g(q@);', 'double q@ = a; g(q@);', 'const int q@ = a * 2; g(q@);', 'int q@[3] = {a, a + 1, 2}; g(q@[1]);', 'long q@[2] = {a, l}; g(q@[1]);', 'struct S q@ = {a, u, b}; g(q@.x);', '{ a--; { b++; } }', 'l = (long)a;', 'd = (double)(a + b);', 'b = (a);', 'b = ((a + 1));',
            'b = a == b;', 'b = (a < b) + (a > 2);', 'b = a < b || a > 4;', 'b = a % (b | 1);', 'b = a << 2 >> 1;', 'u = ~u;', 'u = -u;', 'u = u - 1u;', 'l = -1L;', 'l = 0L + 1L;', 'u = 0u + 1u;', 'd = 0 + 1.0;', 'b = (0) + (1);', 'b = -(1);', 'b = 1 + 1;', 'b = 0 + 0;', 'b = K + 1;', 'b = ~(a);']
    if cxx: body += ['bool t@ = a; g(t@);', 'bool t@ = a < b; if (t@ && !t@) g(t@);', 'int &r@ = a; r@++; b = r@ + 1;', 'b = static_cast<int>(d) + 1;', 'd = int(a) + 0.5;', 'S q@{a, u, b}; g(q@.x);', 'auto t@ = [&](int y) { return y + a; }; b = t@(b) + 1;', 'int q@{a}; g(q@);', 'b = true;', 'bool t@ = !true; g(t@);', 'mk(a).m(b + 1);', 'b = mk(a).x + 1;']
    pre = 'enum { K = 4 };\nstruct S { int x; unsigned y; int z; %s};\nint g(int); int h(int, double, unsigned); void c(void);\n' % ('void m(int) {} ~S() {} ' if False else 'void m(int) {} ' if cxx else '')
    if cxx: pre += 'S mk(int);\n'
    src = pre + ''.join('int f%d(int a, int b, int *p, double d, unsigned u, long l, char ch, struct S st) { %s return a + b; }\n' % (i, t.replace('@', str(i))) for i, t in enumerate(body))
    S = Src(src); got = []
    for o in ([], ['--no-mutation-opts']):
        f = s.w(tag + '/f.' + ext, src)
        r, info = s.mutate([f], o, ['-w', '-std=c++20' if cxx else '-std=gnu17'], tag + '/info.json')
        if r.returncode or not info or not info.get('infoForFiles'): s.fail('run', f'dredd failed on opt sites suite: {r.stderr[-300:]}'); return
        got.append(sites(S, info['infoForFiles'][0], lambda p, w: None))
    key = lambda x: (x.kind, x.a, x.b, x.m.get('operator'))
    opt, full = set(map(key, got[0])), {key(x): x for x in got[1]}
    T = lambda r: src[r[0]:r[1]].strip('() ')
    num = lambda t, *vs: bool(re.fullmatch(r'([0-9.]+)[uL]*', t)) and float(re.sub('[uL]', '', t)) in vs
    ranges = {(a, b) for _, a, b, _ in opt}
    for k, x in full.items():
        if not x.inst: continue
        s.ok('C07')
        if k in opt: continue
        t = src[x.a:x.b]; line = src[src.rfind('\n', 0, x.a) + 1:src.index('\n', x.a)]
        if '/*pure*/' in line and src.index('/*pure*/', src.rfind('\n', 0, x.a)) > x.a: continue
        first = src[:x.a].rstrip()[-1] in '{;}:' or re.search(r'(\)|else|do)$', src[:x.a].rstrip()) is not None
        whole = first and re.match(r'\s*;', src[x.b:])
        if x.kind == 'removeStmt': ok = t[0] == '{'
        elif x.kind == 'replaceBinaryOperator': ok = num(T(x.parts['lhs']), 0) and num(T(x.parts['rhs']), 1)
        elif x.kind == 'replaceUnaryOperator': ok = num(T(x.parts['operand']), 1) and x.m['operator'] == 'Minus' or num(T(x.parts['operand']), 0, 1) and x.m['operator'] == 'Not'
        else: ok = whole or t[0] == '(' or (x.a, x.b) in ranges or re.search(r'\((long|double)\)$|static_cast<int>\($', src[:x.a])
        if not ok: s.fail('C07', f'{ext}: {x.kind} at {t!r} in "{line[line.index("{") + 2:line.rindex("return")]}" is left out with optimisations')
    for x in got[0]:
        s.ok('C07')
        if key(x) not in full: s.fail('C07', f'{ext}: {x.kind} at {src[x.a:x.b]!r} only exists with optimisations')
