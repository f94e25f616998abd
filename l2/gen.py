"""Generates the conformance corpus: C and C++ files made of independent units.

A unit is a function `void uN(IN *p)` (with private helpers named uN_...).  It
reads its inputs from *p and reports through ob()/od() (ordered) and through the
t*() functions (which operands were evaluated, unordered)."""
import random, itertools
HDR = r'''
#ifndef L2_H
#define L2_H
#ifdef __cplusplus
extern "C" {
#else
#include <stdbool.h>
#endif
typedef enum { EA, EB, EC = 5 } EN;
typedef struct { unsigned bu : 5; int bi : 6; unsigned plain; } BF;
typedef struct {
  int i0, i1, i2; unsigned u0, u1; signed char c0, c1; unsigned char k0; short s0; unsigned short h0;
  long l0; unsigned long m0; long long q0; unsigned long long w0; bool b0, b1; float f0, f1; double d0, d1;
  volatile int v0; volatile unsigned v1; EN e0; BF bf; int arr[6]; double darr[4]; long double ld0;
} IN;
void ob(long long);
void od(double);
int ti(int, int); unsigned tu(int, unsigned); long tl(int, long); double td(int, double); bool tb(int, bool); float tf(int, float);
int *tp(int, int *); double *tdp(int, double *); unsigned *tup(int, unsigned *);
long long zi(long long); double zd(double);
void nop(void);
#ifdef __cplusplus
}
inline int &tr(int k, int &x) { tp(k, &x); return x; }
#endif
#endif
'''
INTV = {'int': 'p->i0 p->i1 p->i2', 'unsigned': 'p->u0 p->u1', 'signed char': 'p->c0 p->c1', 'unsigned char': 'p->k0', 'short': 'p->s0',
        'unsigned short': 'p->h0', 'long': 'p->l0', 'unsigned long': 'p->m0', 'long long': 'p->q0', 'unsigned long long': 'p->w0'}
FLTV = {'float': 'p->f0 p->f1', 'double': 'p->d0 p->d1', 'long double': 'p->ld0'}
ARITH = '* / % + - & ^ |'.split(); SHIFT = ['<<', '>>']; REL = '< > <= >= == !='.split(); LOGIC = ['&&', '||']
ASG = '= *= /= %= += -= <<= >>= &= ^= |='.split()
INTOP = set('% & ^ | << >> %= &= ^= |= <<= >>='.split())
class Corpus:
    def __init__(s, cxx): s.cxx = cxx; s.units = []; s.n = 0; s.tags = {}
    def add(s, body, pre='', tag='', flags=()):
        """body: statements of uN; @ is replaced by uN."""
        n = 'fn%d' % s.n; s.n += 1
        t = (pre.replace('@', n) + '\n' if pre else '') + 'void %s(IN *p) {\n' % n + body.replace('@', n).rstrip() + '\n}\n'
        s.units.append((n, t, tuple(flags))); s.tags[n] = tag
    def o(s, isf): return 'od' if isf else 'ob'
def isf(t): return t in FLTV
def var(t, k=0):
    v = (INTV.get(t) or FLTV[t]).split(); return v[k % len(v)]
ALLT = list(INTV) + list(FLTV)

def matrix(c, heavy=False):
    cxx = c.cxx
    pairs = [('int', 'int'), ('unsigned', 'unsigned'), ('long', 'int'), ('signed char', 'unsigned char'), ('short', 'long long'),
             ('unsigned long', 'unsigned'), ('unsigned short', 'int'), ('unsigned long long', 'long long'), ('int', 'unsigned')]
    fpairs = [('double', 'double'), ('float', 'float'), ('int', 'double'), ('float', 'long'), ('long double', 'int')]
    for op in ARITH + SHIFT + REL + LOGIC:
        ps = pairs + ([] if op in INTOP else fpairs)
        for i, (a, b) in enumerate(ps):
            rf = (isf(a) or isf(b)) and op in ARITH
            c.add('  %s(%s %s %s);' % (c.o(rf), var(a), op, var(b, 1)), tag='bin ' + op)
        # constants and side effects
        for l, r in (('p->i0', '0'), ('p->i0', '1'), ('p->i0', '-1'), ('0', 'p->i0'), ('1', 'p->i0'), ('-1', 'p->i0'), ('p->i0', '2'), ('7', 'p->i1'),
                     ('p->u0', '0u'), ('p->u0', '1u'), ('1u', 'p->u0')):
            if op in ('/', '%') and r in ('0', '0u'): continue
            if op in SHIFT and r == '-1': continue
            c.add('  ob(%s %s %s);' % (l, op, r), tag='bin-const ' + op)
        if op not in INTOP:
            for l, r in (('p->d0', '0.0'), ('p->d0', '1.0'), ('p->d0', '-1.0'), ('1.0', 'p->d1'), ('0.0', 'p->d1'), ('p->f0', '2.5f')):
                if op == '/' and r == '0.0': continue
                c.add('  %s(%s %s %s);' % (c.o(op in ARITH), l, op, r), tag='bin-fconst ' + op)
        c.add('  ob(ti(1, p->i0) %s ti(2, p->i1));' % op, tag='bin-se ' + op)
        c.add('  ob(p->i0 %s ti(2, p->i1));' % op, tag='bin-se ' + op)
        c.add('  ob(ti(3, p->i0) %s p->i1);' % op, tag='bin-se ' + op)
        c.add('  ob(p->arr[1] %s *(p->arr + 2));' % op, tag='bin-ptr ' + op)
        c.add('  ob(p->v0 %s p->i1);' % op, tag='bin-volatile ' + op)
        c.add('  ob(p->e0 %s p->i1);\n  ob(p->bf.bu %s p->bf.bi);' % (op, op), tag='bin-bitfield ' + op)
        c.add('  int a = p->i0, b = p->i1;\n  if (a %s b) ob(1); else ob(2);\n  ob((a %s b) ? 10 : 20);' % (op, op), tag='bin-cond ' + op)
        if op in REL + LOGIC: c.add('  bool x = p->b0 %s p->b1;\n  ob(x);' % op, tag='bin-bool ' + op)
    for op in ASG:
        for a, b in [('int', 'int'), ('unsigned', 'int'), ('long', 'unsigned'), ('signed char', 'int'), ('unsigned short', 'long'), ('short', 'unsigned char'),
                     ('unsigned long', 'unsigned long')] + ([] if op in INTOP else [('double', 'double'), ('float', 'int'), ('long double', 'float'), ('double', 'int')]):
            c.add('  %s %s %s;' % (var(a), op, var(b, 1)), tag='asg ' + op)
        c.add('  ob(p->i0 %s p->i1);' % op, tag='asg-val ' + op)
        c.add('  *tp(1, &p->i0) %s ti(2, p->i1);' % op, tag='asg-se ' + op)
        c.add('  p->arr[ti(1, 2)] %s p->i1;\n  ob(p->arr[2]);' % op, tag='asg-idx ' + op)
        c.add('  p->v0 %s p->i1;' % op, tag='asg-volatile ' + op)
        c.add('  int a = p->i0;\n  a %s 1;\n  ob(a);\n  a %s 2;\n  ob(a);' % (op, op), tag='asg-const ' + op)
        if op not in ('/=', '%='): c.add('  int a = p->i0;\n  a %s 0;\n  ob(a);' % op, tag='asg-zero ' + op)
        c.add('  p->bf.bu %s 3;\n  ob(p->bf.bu);' % op, tag='asg-bitfield ' + op)
        if cxx:
            c.add('  int &r = p->i0;\n  (r %s p->i1) += 3;\n  ob(r);' % op, tag='asg-lval ' + op)
            c.add('  tr(1, p->i0) %s ti(2, p->i1);' % op, tag='asg-ref ' + op)
        else: c.add('  int a, b;\n  a = b = p->i0;\n  a %s (b %s 3);\n  ob(a); ob(b);' % (op, op), tag='asg-chain ' + op)
    for op in ('-', '~', '!', '+'):
        for a in ALLT:
            if op == '~' and isf(a): continue
            c.add('  %s(%s%s);' % (c.o(isf(a) and op in '-+'), op, var(a)), tag='un ' + op)
        c.add('  ob(%sti(1, p->i0));\n  ob(%s(p->i0 + p->i1));' % (op, op), tag='un-se ' + op)
        for k in ('0', '1', '2', '(-1)', '1u'): c.add('  ob(%s%s);' % (op, k), tag='un-const ' + op)
    for op in ('++', '--'):
        for a in [x for x in ALLT]:
            c.add('  %s(%s%s);\n  %s(%s%s);' % (c.o(isf(a)), op, var(a), c.o(isf(a)), var(a), op), tag='inc ' + op)
        c.add('  ob(p->v0%s);\n  ob(%sp->v0);\n  (*tp(1, &p->i0))%s;\n  %s*tp(2, &p->i1);' % (op, op, op, op), tag='inc-se ' + op)
        c.add('  ob(p->bf.bu%s);\n  ob(%sp->bf.bi);' % (op, op), tag='inc-bitfield ' + op)
        if cxx: c.add('  (%sp->i0) += 2;\n  ob((%str(1, p->i1)));' % (op, op), tag='inc-lval ' + op)
    # expressions
    for t in ALLT:
        v = var(t)
        c.add('  %s x = %s;\n  %s(x);\n  %s(%s);' % (t, v, c.o(isf(t)), c.o(isf(t)), v), tag='expr ' + t)
        c.add('  %s x = 0;\n  x = %s;\n  long long y = (long long)x;\n  ob(y);' % (t, v), tag='expr-cast ' + t)
        c.add('  if (%s) ob(1);\n  while (%s) { ob(2); break; }\n  ob(%s ? 3 : 4);' % (v, v, v), tag='expr-cond ' + t)
    for k in ('0', '1', '-1', '2', '0u', '1u', '2u', '0L', '1L', '0.0', '1.0', '-1.0', '2.5', '0.0f', '1.0f', '(-1L)', '~0', '\'a\'', '1ULL', '0x7fffffff'):
        f = '.' in k
        c.add('  %s(%s);\n  %s x = %s;\n  %s(x);' % (c.o(f), k, 'double' if f else 'long', k, c.o(f)), tag='const ' + k)
    c.add('  ob(true); ob(false);\n  bool x = true, y = false;\n  ob(x); ob(y);\n  if (true) ob(3);\n  ob(p->b0); ob(!p->b0);', tag='bool')
    c.add('  ob(p->bf.bu); ob(p->bf.bi);\n  p->bf.bi = p->i0;\n  unsigned z = p->bf.bu;\n  ob(z);', tag='bitfield')
    c.add('  ob(p->e0); ob(EB);\n  p->e0 = EC;\n  if (p->e0 == EA) ob(1);', tag='enum')
    c.add('  ob((p->i0, p->i1));\n  ob((ti(1, p->i0), ti(2, p->i1)));\n  int a = (p->i0++, p->i1);\n  ob(a);', tag='comma')
    c.add('  ob(p->arr[ti(1, 3)]);\n  ob(p->arr[p->i2 & 3]);\n  ob(*&p->arr[1]);', tag='index')
    c.add('  const int k = p->i0;\n  ob(k); ob(k + 1); ob(-k);\n  const double z = p->d0;\n  od(z); od(z * 2.0);', tag='const vars')
    c.add('  ob(sizeof(int)); ob(sizeof(p->i0 + 1)); ob(sizeof p->d0);', tag='sizeof')

def statements(c):
    cxx = c.cxx
    A = c.add
    A('  ob(1);\n  ti(2, 3);\n  p->i0 = 5;\n  p->i1 += 2;\n  p->i2++;\n  ob(p->i0);', tag='stmt')
    A('  if (p->i0 > 0) ob(1);\n  if (p->i0 > 1) ob(2); else ob(3);\n  if (p->b0) { ob(4); ob(5); } else { ob(6); }\n  if (p->b1) ob(7); else if (p->b0) ob(8); else ob(9);', tag='stmt if')
    A('  for (int i = 0; i < 3; i++) { ob(i); if (i > 50) return; }', tag='stmt for', flags=('loop',))
    A('  int n = 3;\n  while (n > 0) { ob(n); --n; if (ti(1, 0)) break; }', tag='stmt while', flags=('loop',))
    A('  int n = 0;\n  do { ob(n); n++; if (n > 9) break; } while (n < 3);', tag='stmt do', flags=('loop',))
    A('  for (int i = 0; i < 4; i++) { if (i == 1) continue; if (i == 3) break; ob(i); }', tag='stmt continue', flags=('loop',))
    A('  switch (p->i0 & 3) {\n    case 0: ob(1); break;\n    case 1: ob(2);\n    case 2: ob(3); { ob(4); } break;\n    default: ob(5); break;\n  }', tag='stmt switch')
    A('  switch (p->i1) { case 1: case 2: ob(1); default: ob(2); case -1: ob(3); }', tag='stmt switch2')
    A('  int i = 0;\nagain:\n  ob(i);\n  i++;\n  if (i < 2) goto again;\n  goto out;\nout:\n  ob(9);', tag='stmt goto', flags=('loop',))
    A('  ;\n  {}\n  { ; }\n  if (p->b0) ; else ob(1);\n  for (;;) { break; }\n  ob(2);', tag='stmt empty')
    A('  ob(@_f(p->i0)); ob(@_f(-p->i0)); @_g(p);', pre='static int @_f(int x) { if (x > 0) return x; ob(3); return -x; }\nstatic void @_g(IN *p) { if (p->b0) return; ob(4); }', tag='stmt return')
    A('  int x = p->i0; int y = 2, z;\n  z = x + y;\n  ob(z);\n  int w[3] = {1, 2, 3};\n  ob(w[1]);', tag='stmt decl', flags=('mem',))
    A('  p->b0 ? ob(1) : ob(2);\n  (void)p->i0;\n  (void)ti(1, 2);\n  nop();', tag='stmt expr')
    A('  if (p->i0) if (p->i1) ob(1); else ob(2);', tag='stmt dangling')
    A('  for (int i = 0, j = 5; i < j; i += 2, j--) ob(i * j);', tag='stmt for2', flags=('loop',))
    A('  @_M(p->i0);\n  @_M(p->i1 + 1);\n  ob(@_ADD(p->i0, p->i1));\n  ob(@_ADD(1, 2) + p->i0);\n  if (@_T) ob(@_ONE);', pre='#define @_M(x) ob(x)\n#define @_ADD(a, b) ((a) + (b))\n#define @_T 1\n#define @_ONE 1', tag='macro')
    A('  int r=p->i0;\n  r=-r;ob(r);\n  r=~r;ob(r);\n  if(p->b0)r=-p->i1;else r=!p->i1;ob(r);\n  ob(@_n(p));ob(@_m(p));', pre='static int @_n(IN *p) { return-p->i0; }\nstatic int @_m(IN *p) { if(p->b0)return!p->i0;else return~p->i1; }', tag='spacing')
    A('  ob(/* c1 */ p->i0 /* c2 */ + // c3\n     /* c4 */ p->i1 /* c5 */);\n  ob(p->i0\n     *\n     p->i1);\n  ob(p->i0 \\\n  - p->i1);', tag='layout')
    A('  ob(sizeof(p->arr) / sizeof(p->arr[0]));\n  int a[sizeof(int)];\n  a[0] = 1; ob(a[0]);\n  ob(sizeof a);', tag='array size', flags=('mem',))
    A('  static int cnt = 3;\n  cnt = 3 + p->i0;\n  ob(cnt);\n  static const int tab[] = {1, 2, 1 + 2};\n  ob(tab[p->i0 & 1]);', tag='static', flags=('mem',))
    A('  struct { int a; double b; } s = {p->i0, 2.5};\n  ob(s.a); od(s.b);\n  s.a += 3; s.b *= s.a;\n  ob(s.a); od(s.b);', tag='struct')
    A('  int *q = &p->i0;\n  *q += 1; ob(*q); q = p->arr; ob(q[1]); ob(*(q + 2)); ob(q == p->arr); ob(q < p->arr + 2); ob(!q); ob(q - p->arr); if (q && *q) ob(1);', tag='pointer')
    A('  long a = p->i0 ? p->l0 : p->i1;\n  ob(a);\n  ob(p->b0 ? p->c0 : p->k0);\n  od(p->b0 ? p->f0 : p->i0);', tag='ternary')
    A('  ob((int)p->d0); ob((unsigned char)p->i0); od((double)p->i0 / 4); ob((bool)p->i0); ob((short)(p->i0 + p->i1));', tag='casts')
    A('  ob(@_f(p->i0, p->d0, p->c0)); ob(@_f(1, 2, 3)); ob(@_f(ti(1, 4), td(2, 5.0), ti(3, 6)));', pre='static long @_f(long a, float b, unsigned char c) { return a + (long)b * c; }', tag='calls')
    A('  ob(p->i0 < p->i1 && p->i1 < p->i2 || !p->b0);\n  ob(tb(1, p->b0) && (tb(2, p->b1) || ti(3, p->i0)));\n  if (p->i0 && p->d0 || p->u0) ob(1);', tag='logic nest')
    A('  unsigned r = 0;\n  for (unsigned i = 0; i < 4; ++i) { r = (r << 3) ^ (p->u0 >> i); r |= i; if (i > 60) break; }\n  ob(r);', tag='loop nest', flags=('loop',))
    A('  p->i0 = 1;p->i1++;ob(p->i0);{ob(2);}ob(3);if(p->b0){ob(4);}ob(5);while(p->b1){ob(6);break;}ob(7);', tag='adjacent')
    A('  p->i0 = 1 // c\n  ;\n  p->i1 = 2 /* d */ ; // e\n  ob(p->i0) // f\n  /* g */\n  ;\n  if (p->b0) { ob(3); } // h\n  ob(4); // i\n  /* j */ ob(5); /* k */ ob(6);', tag='comments')
    A('  p->i0 = 1\n#ifdef UNDEFINED_X\n  + 2\n#endif\n  ;\n  ob(p->i0);\n#if 1\n  ob(1)\n#endif\n  ;\n  ob(2)\n  // c\n#ifdef UNDEFINED_Y\n#endif\n  ;\n  ob(3);', tag='directives')
    A('  @_S(p->i0 = 2);\n  @_S(ob(1);)\n  @_W(p->b0) { ob(2); @_E }\n  @_C(ob(3));\n  ob(@_X + @_X * 2); @_X = 4; ob(-@_X);', pre='#define @_S(x) x\n#define @_W(c) if (c)\n#define @_E ob(9);\n#define @_C(x) do { x; } while (0)\n#define @_X p->i1', tag='macro stmts')
    if cxx:
        A('  auto f = [p](int x) { return x + p->i0; };\n  ob(f(3));\n  int k = p->i1;\n  auto g = [&k, m = p->i2](auto y) -> int { k += m; return y * k; };\n  ob(g(2)); ob(k);', tag='lambda')
        A('  ob(@_t(p->i0, p->i1)); od(@_t(p->d0, 2.0)); ob(@_t<long>(p->l0, p->i0));', pre='template <typename T> static T @_t(T a, T b) { T r = a; r += b; if (r > T(100)) return a; return r * b; }', tag='template')
        A('  @_S s(p->i0);\n  ob(s.get(p->i1)); s.x += 2; ob(s.x); ob(@_S::sm(3)); ob((s + 4).x); ob(s == s);', pre='struct @_S { int x; explicit @_S(int a) : x(a + 1) {} int get(int d = 2) const { return x - d; } static int sm(int q) { return q * 2; } @_S operator+(int o) const { return @_S(x + o); } bool operator==(const @_S &o) const { return x == o.x; } };', tag='class')
        A('  int &r = p->i0; const int &cr = p->i1;\n  r = cr; ob(r + cr); r++; ob(--r); ob(cr); volatile int &vr = p->v0; vr += 2; ob(vr);', tag='refs')
        A('  for (int x : p->arr) { ob(x); if (x > 3) break; }\n  for (auto &x : p->arr) x += 1;', tag='range for')
        A('  constexpr int k = 3 + 4;\n  ob(k); int a[k]; a[0] = k; ob(a[0]); static_assert(k == 7, "m"); static_assert(sizeof(int) == 4);', tag='constexpr', flags=('mem',))
        A('  ob(p->i0 and p->i1); ob(p->i0 or p->i1); ob(p->i0 bitand p->i1); ob(p->i0 bitor p->i1); ob(p->i0 xor p->i1); ob(compl p->i0); ob(not p->i0); p->i0 and_eq p->i1; p->i0 or_eq p->i1; p->i0 xor_eq p->i1; ob(p->i0 not_eq p->i1);', tag='alt tokens')
        A('  ob(static_cast<long>(p->d0)); ob(int(p->f0)); ob(int{3}); od(double{2.5}); ob(bool(p->i0));', tag='cxx casts')
        A('  try { if (p->b0) throw p->i0; ob(1); } catch (int e) { ob(e); }', tag='exceptions')
        A('  if (int z = p->i0; z > 2) ob(z); else ob(-z);\n  if (int w = p->i1) ob(w);\n  switch (int y = p->i0 & 1; y) { case 0: ob(1); break; default: ob(y); }', tag='if init')
        A('  ob(@_v<3>::val(p->i0)); ob(@_v<1 + 1>::val(p->i0)); ob(@_c(4));', pre='template <int N> struct @_v { static int val(int x) { return x * N; } };\nstatic constexpr int @_c(int x) { return x * 2 + 1; }', tag='template const')
        A('  int x = 0;\n  x = p->i0, ob(x);\n  auto y = new int(p->i1); *y *= 2; ob(*y); delete y;\n  int z[2][3] = {{1, 2, 3}, {4, 5, 6}}; ob(z[1][p->i0 & 1]);', tag='new', flags=('mem',))
        A('  enum class Z : unsigned { A = 1, B = 4 };\n  Z z = p->b0 ? Z::A : Z::B;\n  ob(static_cast<int>(z)); ob(z == Z::A); switch (z) { case Z::A: ob(1); break; case Z::B: ob(2); break; }', tag='enum class')
    else:
        A('  _Bool b = p->i0; ob(b); b = p->d0; ob(b); b += 1; ob(b);', tag='cbool')
        A('  int a[2] = { [1] = p->i0 }; ob(a[1]); ob((int[]){p->i0, p->i1}[1]); struct { int x, y; } s = { .y = p->i1 }; ob(s.y);', tag='designated', flags=('mem',))
        A('  unsigned n = (p->u0 & 3) + 1; int vla[n]; vla[0] = p->i0; ob(vla[0]); ob(sizeof(vla) / sizeof(int));', tag='vla', flags=('mem',))

def randexpr(c, seed, count):
    rnd = random.Random(seed * 7919 + c.cxx)
    ints = [v for t in INTV for v in INTV[t].split()] + ['p->b0', 'p->arr[1]', 'p->v0', 'p->e0', 'p->bf.bu']
    fl = ['p->f0', 'p->d0', 'p->d1']
    lit = ['0', '1', '-1', '2', '3u', '7', '0u', '1L', '5LL']
    def e(d, f=False):
        r = rnd.random()
        if d == 0 or r < .15:
            if f: return rnd.choice(fl + ['1.0', '0.0', '2.5', '0.5f'])
            return rnd.choice(ints + ints + lit + ['ti(%d, p->i0)' % rnd.randrange(9), 'tu(%d, p->u1)' % rnd.randrange(9), 'tl(%d, p->l0)' % rnd.randrange(9)])
        if f:
            if r < .3: return '(-%s)' % e(d - 1, True)
            return '(%s %s %s)' % (e(d - 1, rnd.random() < .8), rnd.choice('* + -'.split()), e(d - 1, True))
        if r < .28: return '(%s%s)' % (rnd.choice(['-', '~', '!']), e(d - 1))
        if r < .34: return '(%s ? %s : %s)' % (e(d - 1), e(d - 1), e(d - 1))
        if r < .5: return '(%s %s %s)' % (e(d - 1), rnd.choice(REL), e(d - 1))
        if r < .62: return '(%s %s %s)' % (e(d - 1), rnd.choice(LOGIC), e(d - 1))
        if r < .68: return '(%s %s %s)' % (e(d - 1, True), rnd.choice(REL), e(d - 1, True))
        if r < .74: return '(%s %s (%s & 7))' % (e(d - 1), rnd.choice(SHIFT), e(d - 1))
        return '(%s %s %s)' % (e(d - 1), rnd.choice('* + - & ^ | / %'.split()), e(d - 1))
    for _ in range(count):
        f = rnd.random() < .2
        k = rnd.random()
        if k < .5: c.add('  %s(%s);' % (c.o(f), e(2, f)), tag='rand')
        elif k < .75:
            lv = rnd.choice(ints[:10] + ['p->arr[2]'])
            c.add('  %s %s %s;' % (lv, rnd.choice(['=', '+=', '-=', '*=', '&=', '|=', '^=']), e(2)), tag='rand asg')
        else: c.add('  if (%s) ob(%s); else ob(%s);' % (e(2), e(1), e(1)), tag='rand if')
def corpus(cxx, seed=1, nrand=60):
    c = Corpus(cxx)
    matrix(c); statements(c); randexpr(c, seed, nrand)
    return c
