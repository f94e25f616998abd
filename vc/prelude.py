"""C04/C05: the prelude generators of MutateAstConsumer, and the C/C++ prelude
they emit, for every first id and number of mutants.

The generators are executed symbolically (their integers stay symbolic in the
text); the emitted text, with each integer replaced by a distinct large literal,
is parsed by the same extractor, and the functions in it are verified over
bit-vectors with a contract on the loop body (one item of the list)."""
import os, re, z3, json, subprocess
from core import *
import interp, models
from interp import Interp, bare
from models import Models
from mutharness import mk_options, load
CLS = 'dredd::MutateAstConsumer'
def generate(prog, fn, cxx, track):
    """[(path condition, rope)] of a generator, with mutation_id = M, initial = I."""
    f = prog.find(CLS + '::' + fn)
    if not f: raise ToolLimit('no ' + fn)
    cfg = {'fields': {('LangOpts', 'CPlusPlus'): cxx}, 'opcode': {}}
    M, I = z3.Int('M'), z3.Int('I')
    ax = [I >= 0, M > I]
    def make(prefix):
        m = Models(prog, cfg); m.extra.update(mk_options(True, track, False))
        c = Ctx(prog, m, ax, prefix); c.summaries = {}
        return c
    def run(ctx):
        it = Interp(ctx)
        st = Cell(Struct(CLS))
        rec = prog.rec.get(CLS)
        for fl in rec['fields']:
            b = bare(fl['t'])
            if fl['name'].startswith('mutation_id'): v = Ptr(Cell(M), True)
            elif b == 'dredd::Options': v = Ptr(Obj('Options', b), True)
            else: v = it.opaque('this.' + fl['name'], fl['t'], True)
            st.v.f[fl['name']] = Cell(v, fl['name'])
        return it.call_fn(f, st, [I] * len(f['params']))
    return [(c, r) for c, r in explore(make, run, 50) if r is not None]
MAGIC = 9001
def concretise(rope):
    """Text with distinct literals for the symbolic integers; {literal: expression}"""
    out, lits = [], {}
    for p in rope.p:
        if isinstance(p, str): out.append(p)
        elif isinstance(p, IntP):
            n = MAGIC + len(lits) * 2
            lits[n] = p.e; out.append(str(n))
        else: raise ToolLimit('prelude text piece %r' % (p,))
    t = ''.join(out)
    for n in lits:
        if len(re.findall(r'\b%d\b' % n, t)) != 1: raise ToolLimit('literal %d in the prelude' % n)
    return t, lits
def parse(extract, work, name, text, cxx):
    os.makedirs(work, exist_ok=True)
    f = '%s/%s.%s' % (work, name, 'cc' if cxx else 'c'); out = f + '.json'
    open(f, 'w').write(text + '\n')
    r = subprocess.run([extract, work + '/', '^$', out, f, '--', '-w', '-std=c++17' if cxx else '-std=gnu11'], capture_output=True, text=True)
    if not os.path.exists(out) or r.returncode: raise ToolLimit('prelude not parsed: ' + (r.stdout + r.stderr)[-300:])
    return json.load(open(out))
class Ctl(Exception): pass
class Vv:
    "Abstract pointers and strings over the list of the environment variable."
    def __init__(self, kind, **a): self.kind = kind; self.__dict__.update(a)
    def key(s): return (s.kind,) + tuple(sorted((k, str(v)) for k, v in s.__dict__.items() if k != 'kind'))
UNS = {'unsigned long': 64, 'unsigned int': 32, 'unsigned long long': 64, 'unsigned char': 8, 'unsigned short': 16}
SIG = {'int': 32, 'long': 64, 'long long': 64, 'char': 8, 'short': 16, 'signed char': 8}
def tb(t):
    t = bare(t)
    return t[8:-1] if t.startswith('_Atomic(') else 'bool' if t == '_Bool' else t
def width(t):
    t = tb(t)
    if t in UNS: return UNS[t], False
    if t in SIG: return SIG[t], True
    raise ToolLimit('type %s in the prelude' % t)
class St:
    def __init__(s): s.v = {}; s.pc = []; s.g = {}; s.ev = []
    def copy(s):
        n = St(); n.v = dict(s.v); n.pc = list(s.pc); n.g = dict(s.g); n.ev = list(s.ev); return n
class Ev:
    """Big-step evaluation over bit-vectors; statements map a state to a list of
    (state, outcome) with outcome None/'break'/'continue'/('return', v)."""
    def __init__(s, d, lits, axioms, ob):
        s.lits, s.ax, s.ob = lits, axioms, ob
        s.sol = z3.Solver(); s.sol.set('timeout', 60000); s.sol.add(*axioms)
        s.queries = 0; s.globals = {g['id']: g for g in d['globals']}; s.fn = d['functions']
    # ---- solver
    def sat(s, st, *e):
        s.queries += 1
        r = s.sol.check(*st.pc, *e)
        if r == z3.unknown: raise ToolLimit('solver gave up on the prelude')
        return r == z3.sat
    def prove(s, st, name, e): s.ob(name, not s.sat(st, z3.Not(e)), lambda: s.cex(st, e))
    def cex(s, st, e):
        s.sol.check(*st.pc, z3.Not(e)); m = s.sol.model()
        return 'counterexample: ' + ', '.join('%s=%s' % (d, m[d]) for d in m.decls() if m[d] is not None and 'K(' not in str(m[d]))[:400]
    # ---- values
    def lit(s, n): return s.lits.get(n)
    def bv(s, n, w):
        e = s.lit(n)
        if e is None: return z3.BitVecVal(n, w)
        e = tobv(e)
        return z3.Extract(w - 1, 0, e) if w < 64 else e
    def asbool(s, v, t):
        if isinstance(v, Vv): return z3.Not(v.null) if hasattr(v, 'null') else z3.BoolVal(True)
        if v is None: return z3.BoolVal(False)
        if z3.is_bool(v): return v
        return v != 0
    def conv(s, v, ft, t):
        ft, t = tb(ft), tb(t)
        if isinstance(v, Vv) or v is None: return v
        if t == 'bool': return s.asbool(v, ft)
        w, _ = width(t)
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        fw, fs = width(ft)
        if fw > w: return z3.Extract(w - 1, 0, v)
        if fw < w: return z3.SignExt(w - fw, v) if fs else z3.ZeroExt(w - fw, v)
        return v
    # ---- lvalues: ('var', id) or ('elt', id, index)
    def lv(s, n, st):
        k = n['k']
        if k == 'Paren' or k == 'Cast' and n.get('ck') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ArrayToPointerDecay'): return s.lv(n['e'], st)
        if k == 'Ref':
            if n['d']['dk'] in ('local', 'param', 'global'): return ('var', n['d']['id'])
        if k == 'Index':
            a = s.lv(n['a'], st); i = s.e(n['b'], st); w, sg = width(n['b']['t'])
            if a[0] != 'var': raise ToolLimit('index')
            arr = st.v.get(a[1])
            if not isinstance(arr, tuple): raise ToolLimit('indexing')
            i = s.conv(i, n['b']['t'], 'long') if w < 64 else i
            s.prove(st, 'array accesses of the prelude are in bounds', z3.And(i >= 0, i < arr[1]))
            return ('elt', a[1], i)
        if k == 'Un' and n['op'] == '*':
            p = s.e(n['e'], st)
            if isinstance(p, Vv) and p.kind == 'addr': return p.lv
        raise ToolLimit('lvalue %s in the prelude' % k)
    def load(s, l, st):
        if l[0] == 'var':
            v = st.v.get(l[1])
            if v is None and l[1] not in st.v: raise ToolLimit('variable in the prelude')
            return v
        return z3.Select(st.v[l[1]][0], l[2])
    def store(s, l, v, st):
        if l[0] == 'var': st.v[l[1]] = v
        else:
            a = st.v[l[1]]; st.v[l[1]] = (z3.Store(a[0], l[2], v),) + a[1:]
        st.g['w'] = st.g.get('w', frozenset()) | {l[1]}
    # ---- expressions (no forking: conditions become If-terms or are decided)
    def e(s, n, st):
        f = getattr(s, 'e_' + n['k'], None)
        if not f: raise ToolLimit('expression %s in the prelude' % n['k'])
        return f(n, st)
    def e_Int(s, n, st): return s.bv(int(n['v']), width(n['t'])[0])
    def e_Bool(s, n, st): return z3.BoolVal(n['v'])
    def e_Null(s, n, st): return None
    def e_Str(s, n, st): return Vv('lit', s=n['v'])
    def e_Paren(s, n, st): return s.e(n['e'], st)
    def e_DefaultArg(s, n, st): return s.e(n['e'], st) if n['e']['k'] != 'Construct' else Vv('alloc')
    def e_Load(s, n, st): return s.rv(n['e'], st)
    def rv(s, n, st):
        if n['k'] == 'Ref' and n['d']['dk'] == 'global' and n['d']['id'] not in st.v:
            return Vv('const', name=n['d']['q'])
        return s.load(s.lv(n, st), st)
    def e_Ref(s, n, st):
        if n['d']['dk'] == 'enum': return Vv('const', name=n['d']['q'])
        return s.rv(n, st)
    def e_Index(s, n, st): return s.load(s.lv(n, st), st)
    def e_Cast(s, n, st):
        ck = n['ck']; 
        if ck == 'NullToPointer': return None
        v = s.e(n['e'], st)
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral', 'PointerToBoolean'): return s.conv(v, n['ft'], n['t'])
        if ck in ('NoOp', 'BitCast', 'ToVoid', 'UncheckedDerivedToBase', 'DerivedToBase', 'ArrayToPointerDecay', 'ConstructorConversion', 'AtomicToNonAtomic', 'NonAtomicToAtomic'): return v
        raise ToolLimit('cast %s in the prelude' % ck)
    def e_Un(s, n, st):
        op = n['op']
        if op == '&': return Vv('addr', lv=s.lv(n['e'], st))
        if op in ('++', '--'):
            l = s.lv(n['e'], st); v = s.load(l, st); nv = v + 1 if op == '++' else v - 1
            s.store(l, nv, st); return v if n['post'] else nv
        v = s.e(n['e'], st)
        if op == '!': return s.conv(z3.Not(s.asbool(v, n['e']['t'])), 'bool', n['t'])
        if op == '-': return -v
        if op == '~': return ~v
        if op == '+': return v
        raise ToolLimit('unary %s' % op)
    CMP = {'==', '!=', '<', '<=', '>', '>='}
    def e_Bin(s, n, st):
        op = n['op']
        if op in ('&&', '||'):
            a = s.asbool(s.e(n['a'], st), n['at'])
            t = st.copy(); t.pc.append(a if op == '&&' else z3.Not(a))
            b = s.asbool(s.e(n['b'], t), n['at'])
            if t.v != st.v: 
                if any(x is not t.v[k] for k, x in st.v.items()): raise ToolLimit('side effect under ' + op)
            return s.conv((z3.And if op == '&&' else z3.Or)(a, b), 'bool', n['t'])
        if op == ',': s.e(n['a'], st); return s.e(n['b'], st)
        if op == '=':
            v = s.e(n['b'], st); l = s.lv(n['a'], st); s.store(l, v, st); return v
        if op.endswith('=') and op not in s.CMP:
            v = s.e(n['b'], st); l = s.lv(n['a'], st); a = s.load(l, st)
            ct = n.get('ct') or n['t']
            r = s.arith(op[:-1], s.conv(a, n['t'], ct), v, ct, n['b']['t'], st)
            r = s.conv(r, ct, n['t']); s.store(l, r, st); return r
        a, b = s.e(n['a'], st), s.e(n['b'], st)
        if op in s.CMP: return s.conv(s.cmp(op, a, b, n['at'], st), 'bool', n['t'])
        return s.arith(op, a, b, n['t'], n['b']['t'], st)
    def cmp(s, op, a, b, t, st):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Vv) and x.kind == 'pos' and isinstance(y, Vv) and y.kind == 'const' and y.name.endswith('::npos'):
                if op in ('==', '!='): return x.last if op == '==' else z3.Not(x.last)
            if isinstance(x, Vv) and y is None and op in ('==', '!='):
                nn = s.asbool(x, t); return nn if op == '!=' else z3.Not(nn)
        if isinstance(a, Vv) or isinstance(b, Vv) or a is None or b is None: raise ToolLimit('comparison in the prelude')
        if op == '==': return a == b
        if op == '!=': return a != b
        if z3.is_bool(a): raise ToolLimit('ordering of bool')
        sg = width(t)[1]
        return {'<': a < b if sg else z3.ULT(a, b), '<=': a <= b if sg else z3.ULE(a, b), '>': a > b if sg else z3.UGT(a, b), '>=': a >= b if sg else z3.UGE(a, b)}[op]
    def arith(s, op, a, b, t, bt, st):
        if isinstance(a, Vv) and a.kind == 'pos' and op == '+' and z3.is_bv(b) and z3.is_bv_value(z3.simplify(b)):
            return Vv('pos', ix=a.ix, last=a.last, off=a.off + z3.simplify(b).as_long())
        if isinstance(a, Vv) and a.kind == 'len' and op == '+' and z3.is_bv_value(z3.simplify(b)): return Vv('len', off=a.off + z3.simplify(b).as_long())
        if isinstance(b, Vv) and b.kind == 'len' and op == '+': return s.arith(op, b, a, t, bt, st)
        if isinstance(a, Vv) or isinstance(b, Vv) or a is None or b is None: raise ToolLimit('arithmetic in the prelude')
        w, sg = width(t)
        if op in ('<<', '>>'):
            bw, bs = width(bt); b = s.conv(b, bt, t) if bw != w else b
            s.prove(st, 'shift amounts of the prelude are below the width', z3.And(b >= 0, b < w))
            return a << b if op == '<<' else (a >> b if sg else z3.LShR(a, b))
        if z3.is_bool(a): a = s.conv(a, 'bool', t)
        if z3.is_bool(b): b = s.conv(b, 'bool', t)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '&': return a & b
        if op == '|': return a | b
        if op == '^': return a ^ b
        if op in '/%':
            s.prove(st, 'no division by zero in the prelude', b != 0)
            if op == '/': return a / b if sg else z3.UDiv(a, b)
            return z3.SRem(a, b) if sg else z3.URem(a, b)
        raise ToolLimit('operator ' + op)
    def e_Cond(s, n, st):
        c = s.asbool(s.e(n['c'], st), n['c']['t'])
        t, f = st.copy(), st.copy(); t.pc.append(c); f.pc.append(z3.Not(c))
        a, b = s.e(n['a'], t), s.e(n['b'], f)
        for x in (t, f):
            if any(x.v[k] is not y for k, y in st.v.items()): raise ToolLimit('side effect in ?:')
        if isinstance(a, Vv) and isinstance(b, Vv):
            if a.kind == 'item' or b.kind == 'item':        # "rest" equals the item where it is the last one
                for p, q, x in ((a, b, t), (b, a, f)):
                    if p.kind == 'rest' and q.kind == 'item' and p.ix == q.ix and not s.sat(x, z3.Not(s.last(p.ix))): return q
                    if p.kind == 'rest' and q.kind == 'item' and not s.sat(x): return q
            if a.key() == b.key(): return a
            raise ToolLimit('?: of strings in the prelude')
        return z3.If(c, a, b)
    # ---- the list
    def last(s, ix): return z3.Bool('last_%s%d' % ix)
    def empty(s, ix): return z3.Bool('empty_%s%d' % ix)
    def end(s, ix): return z3.Bool('end_%s%d' % ix)
    def value(s, ix): return z3.BitVec('item_%s%d' % ix, 32)
    def e_Construct(s, n, st):
        t = bare(n['t']); a = [x for x in n['args'] if x['k'] != 'DefaultArg']
        if t.startswith('std::basic_string<char') and len(a) == 1:
            v = s.e(a[0], st)
            if isinstance(v, Vv) and v.kind == 'env':
                s.prove(st, 'the variable is not read when it is unset', z3.Not(v.null)); return Vv('rest', ix=('0', 0))
            if isinstance(v, Vv) and v.kind in ('rest', 'item'): return v
        if t.startswith('std::basic_ofstream<'):
            if not a: return Vv('file')
            return s.openf([s.e(x, st) for x in a], st)
        raise ToolLimit('construction of %s in the prelude' % t[:60])
    def openf(s, a, st):
        if not (isinstance(a[0], Vv) and a[0].kind == 'env'): raise ToolLimit('file name in the prelude')
        s.prove(st, 'the variable is not read when it is unset', z3.Not(a[0].null))
        m = a[1].name if isinstance(a[1], Vv) and a[1].kind == 'const' else a[1].s if isinstance(a[1], Vv) and a[1].kind == 'lit' else ''
        s.ob('the tracking file is opened for appending', a[0].name == 'DREDD_MUTANT_TRACKING_FILE' and (m.endswith('::app') or m in ('a', 'a+')), f'{a[0].name} {m}')
        st.g['open'] = z3.BoolVal(True)
        return Vv('file', null=z3.Bool('fopen_fails'))
    def e_Atomic(s, n, st):
        p = s.e(n['args'][0], st); op = n['op'].split('atomic_')[-1].removesuffix('_n'); a = n['args'][2:]
        if not (isinstance(p, Vv) and p.kind == 'addr'): raise ToolLimit('atomic operation')
        if op == 'compare_exchange_strong':
            e = s.e(a[0], st)
            if not (isinstance(e, Vv) and e.kind == 'addr'): raise ToolLimit('atomic operation')
            return s.conv(s.atomic(op, p.lv, [e.lv, s.asbool(s.e(a[2], st), a[2]['t'])], st), 'bool', n['t'])
        return s.atomic(op, p.lv, [s.asbool(s.e(x, st), x['t']) for x in a[:1]], st)
    def atomic(s, op, l, a, st):
        "an atomic operation on the flag at l; 'claim' is the condition that this thread turned it from false to true"
        if op == 'load': return s.load(l, st)
        if op == 'store': s.store(l, a[0], st); return None
        if op == 'exchange':
            old = s.load(l, st); s.store(l, a[0], st); s.claim(st, z3.And(z3.Not(old), a[0])); return old
        if op == 'compare_exchange_strong':
            old = s.load(l, st); ex = s.asbool(s.load(a[0], st), 'bool'); ok = old == ex
            s.store(l, z3.If(ok, a[1], old), st); s.store(a[0], z3.If(ok, ex, old), st)
            s.claim(st, z3.And(ok, z3.Not(old), a[1])); return ok
        raise ToolLimit('atomic operation ' + op)
    def claim(s, st, c): st.g['claim'] = z3.Or(st.g.get('claim', z3.BoolVal(False)), c)
    def e_MCall(s, n, st):
        q, o = n['callee']['n'], n['obj']; a = [x for x in n['args'] if x['k'] != 'DefaultArg']; cls = n['callee'].get('cls', '')
        if cls.startswith(('std::atomic<', 'std::__atomic_base<')) or cls in ('std::atomic', 'std::__atomic_base'):
            l = s.lv(o, st)
            if q.startswith('operator ') or q == 'operator _Bool': return s.atomic('load', l, [], st)
            if q == 'compare_exchange_strong': return s.atomic(q, l, [s.lv(a[0], st), s.asbool(s.e(a[1], st), a[1]['t'])], st)
            return s.atomic(q, l, [s.asbool(s.e(x, st), x['t']) for x in a[:1] if q != 'load'], st)
        l = s.lv(o, st); v = s.load(l, st); a = [s.e(x, st) for x in a]
        if isinstance(v, Vv) and v.kind in ('rest', 'item'):
            if q == 'find' and v.kind == 'rest' and len(a) == 1 and (isinstance(a[0], Vv) and a[0].kind == 'lit' and a[0].s == ',' or z3.is_bv(a[0]) and str(z3.simplify(a[0])) == '44'):
                return Vv('pos', ix=v.ix, last=s.last(v.ix), off=0)
            if q == 'substr' and v.kind == 'rest' and str(z3.simplify(a[0])) == '0' and isinstance(a[1], Vv) and a[1].kind == 'pos' and a[1].off == 0 and a[1].ix == v.ix: return Vv('item', ix=v.ix)
            if q == 'substr' and v.kind == 'rest' and len(a) == 1 and isinstance(a[0], Vv) and a[0].kind == 'pos' and a[0].off == 1 and a[0].ix == v.ix:
                s.prove(st, 'the list is only advanced past a comma', z3.Not(s.last(v.ix))); return Vv('rest', ix=(v.ix[0], v.ix[1] + 1))
            if q == 'erase' and v.kind == 'rest' and str(z3.simplify(a[0])) == '0' and isinstance(a[1], Vv) and a[1].kind == 'pos' and a[1].off == 1 and a[1].ix == v.ix:
                s.prove(st, 'the list is only advanced past a comma', z3.Not(s.last(v.ix)))
                s.store(l, Vv('rest', ix=(v.ix[0], v.ix[1] + 1)), st); return st.v[l[1]]
            if q == 'empty': return s.empty(v.ix) if v.kind == 'item' else z3.And(s.empty(v.ix), s.last(v.ix))
        if isinstance(v, Vv) and v.kind == 'file':
            if q == 'open': s.store(l, s.openf(a, st), st); return None
            if q == 'close': return None
        raise ToolLimit('call of %s in the prelude' % q)
    def num(s, v, st, what):
        if isinstance(v, Vv) and v.kind in ('rest', 'item'):
            s.prove(st, 'only a non-empty item is parsed', z3.Not(s.empty(v.ix))); return s.value(v.ix)
        if isinstance(v, Vv) and v.kind == 'tok':
            s.prove(st, 'only a non-empty item is parsed', z3.Not(v.null)); return s.value(v.ix)
        raise ToolLimit('%s of something else' % what)
    def e_Call(s, n, st):
        q = n['callee']['n']; a = [s.e(x, st) for x in n['args'] if x['k'] != 'DefaultArg']
        if q == 'getenv' and isinstance(a[0], Vv) and a[0].kind == 'lit':
            st.g['getenv'] = a[0].s; return Vv('env', name=a[0].s, null=z3.Bool('unset_' + a[0].s))
        if q in ('stoi', 'stol', 'atoi', 'atol'):
            v = s.num(a[0], st, q); return s.conv(v, 'int', n['t'])
        if q == 'strlen' and isinstance(a[0], Vv) and a[0].kind == 'env': return Vv('len', off=0)
        if q == 'malloc':
            if not (isinstance(a[0], Vv) and a[0].kind == 'len'): raise ToolLimit('malloc')
            return Vv('buf', size=a[0].off)
        if q == 'strcpy' and isinstance(a[0], Vv) and a[0].kind == 'buf' and isinstance(a[1], Vv) and a[1].kind == 'env':
            s.prove(st, 'the variable is not read when it is unset', z3.Not(a[1].null))
            s.ob('the copy of the list fits its buffer', a[0].size >= 1, f'strlen + {a[0].size}')
            st.g['copied'] = True; return a[0]
        if q == 'strtok' and isinstance(a[1], Vv) and a[1].kind == 'lit' and a[1].s == ',':
            if a[0] is None:
                if 'tok' not in st.g: raise ToolLimit('strtok')
                ix = st.g['tok']; ix = (ix[0], ix[1] + 1)
            else:
                if not (a[0].kind == 'buf' and st.g.get('copied')): raise ToolLimit('strtok of something else')
                ix = ('0', 0)
            st.g['tok'] = ix; return Vv('tok', ix=ix, null=s.end(ix))
        if q == 'free': return None
        if q == 'fopen': return s.openf(a, st)
        if q == 'fclose':
            st.g['open'] = z3.BoolVal(False); return z3.BitVecVal(0, 32)
        if q == 'fprintf' and isinstance(a[0], Vv) and a[0].kind == 'file' and isinstance(a[1], Vv) and a[1].kind == 'lit':
            s.prove(st, 'only an open file is written', z3.Not(a[0].null))
            parts = re.split(r'(%[a-z])', a[1].s); k = 2
            for p in parts:
                if p == '%d': st.ev.append(a[k]); k += 1
                elif p.startswith('%'): raise ToolLimit('format ' + p)
                elif p: st.ev.append(p)
            return z3.BitVecVal(0, 32)
        raise ToolLimit('call of %s in the prelude' % q)
    def e_OpCall(s, n, st):
        if n['op'] == '<<':
            o = s.e(n['args'][0], st)
            if isinstance(o, Vv) and o.kind == 'file':
                b = n['args'][1]; 
                v = s.e(b, st)
                if isinstance(v, Vv) and v.kind == 'lit': st.ev.append(v.s)
                elif z3.is_bv(v) and v.size() == 8 and z3.is_bv_value(z3.simplify(v)): st.ev.append(chr(z3.simplify(v).as_long()))
                elif z3.is_bv(v) and v.size() == 32: st.ev.append(v)
                elif isinstance(v, Vv) and v.kind == 'const' and 'endl' in v.name: st.ev.append('\n')
                else: raise ToolLimit('<< in the prelude')
                return o
        if n['op'] == '=' :
            v = s.e(n['args'][1], st); s.store(s.lv(n['args'][0], st), v, st); return v
        raise ToolLimit('operator %s in the prelude' % n['op'])
    def e_Temp(s, n, st): return s.e(n['e'], st)
    e_MTE = e_Temp
    # ---- statements
    def x(s, n, st):
        if n is None: return [(st, None)]
        f = getattr(s, 'x_' + n['k'], None)
        if f: return f(n, st)
        if n['k'].startswith('e_') or hasattr(s, 'e_' + n['k']): s.e(n, st); return [(st, None)]
        raise ToolLimit('statement %s in the prelude' % n['k'])
    def x_Expr(s, n, st): s.e(n['e'], st); return [(st, None)]
    def x_Null(s, n, st): return [(st, None)]
    def x_Block(s, n, st):
        cur, out = [st], []
        for c in n['s']:
            nxt = []
            for t in cur:
                for u, o in s.x(c, t): (out if o else nxt).append((u, o))
            cur = [u for u, _ in nxt]
        return out + [(u, None) for u in cur]
    def arrlen(s, t):
        m = re.match(r'(.*)\[(\d+)\]$', t)
        return (m.group(1), s.bv(int(m.group(2)), 64)) if m else None
    def x_Decl(s, n, st):
        for v in n['vars']:
            if v['static']:
                if v['id'] not in st.v: raise ToolLimit('static variable')
                continue
            if v.get('init') is None: st.v[v['id']] = None; continue
            st.v[v['id']] = s.e(v['init'], st)
            st.g['locals'] = st.g.get('locals', frozenset()) | {v['id']}
        return [(st, None)]
    def x_If(s, n, st):
        if n.get('init'): 
            (st, o), = s.x(n['init'], st)
        c = s.asbool(s.e(n['c'], st), n['c']['t'])
        out = []
        for cond, br in ((c, n['a']), (z3.Not(c), n['b'])):
            u = st.copy(); u.pc.append(cond)
            if s.sat(u): out += s.x(br, u) if br else [(u, None)]
        return out
    def x_Break(s, n, st): return [(st, 'break')]
    def x_Continue(s, n, st): return [(st, 'continue')]
    def x_Return(s, n, st): return [(st, ('return', s.e(n['e'], st) if n['e'] else None))]
    def x_While(s, n, st): return s.loop(n['c'], n['a'], None, st)
    def x_For(s, n, st):
        (st, o), = s.x(n['init'], st) if n['init'] else [(st, None)]
        return s.loop(n['c'], n['a'], n['inc'], st)
    def x_Do(s, n, st): return s.loop(n['c'], n['a'], None, st, True)
    def loop(s, *a): raise ToolLimit('loop in the prelude')
    # ---- entry
    def statics(s, f):
        out = []
        def go(n):
            if isinstance(n, list):
                for x in n: go(x)
            elif isinstance(n, dict):
                if n.get('k') == 'Decl': out.extend(v for v in n['vars'] if v['static'])
                for x in n.values(): go(x)
        go(f['body']); return out
def tobv(e):
    "An integer expression over M and I (0 <= I < M < 2^31) as a 64-bit vector."
    e = e if isz(e) else z3.IntVal(e)
    if z3.is_int_value(e): return z3.BitVecVal(e.as_long(), 64)
    if z3.is_const(e) and str(e) in ('M', 'I'): return z3.ZeroExt(32, z3.BitVec(str(e), 32))
    k = e.decl().kind(); a = [tobv(x) if z3.is_int(x) else tobool(x) for x in e.children()]
    if k == z3.Z3_OP_ADD: return sum(a[1:], a[0])
    if k == z3.Z3_OP_SUB: return a[0] - a[1] if len(a) == 2 else a[0] - sum(a[2:], a[1])
    if k == z3.Z3_OP_UMINUS: return -a[0]
    if k == z3.Z3_OP_MUL:
        r = a[0]
        for x in a[1:]: r = r * x
        return r
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV):        # Euclidean, positive divisor
        q = a[0] / a[1]; return z3.If(z3.And(z3.SRem(a[0], a[1]) != 0, a[0] < 0), q - 1, q)
    if k == z3.Z3_OP_MOD: return z3.URem(a[0] + (a[1] << 32), a[1])
    if k == z3.Z3_OP_ITE: return z3.If(a[0], a[1], a[2])
    raise ToolLimit('integer in the prelude text: %s' % e)
def tobool(e):
    k = e.decl().kind()
    if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
        a = [tobool(x) for x in e.children()]
        return z3.Not(a[0]) if k == z3.Z3_OP_NOT else z3.And(*a) if k == z3.Z3_OP_AND else z3.Or(*a)
    if z3.is_true(e) or z3.is_false(e): return e
    a = [tobv(x) for x in e.children()]
    return {z3.Z3_OP_LE: lambda: a[0] <= a[1], z3.Z3_OP_LT: lambda: a[0] < a[1], z3.Z3_OP_GE: lambda: a[0] >= a[1], z3.Z3_OP_GT: lambda: a[0] > a[1], z3.Z3_OP_EQ: lambda: a[0] == a[1]}[k]()
class Enabled(Ev):
    """__dredd_enabled_mutation. Ghosts: En (mutant j of the list so far), Any."""
    def setup(s):
        s.j = z3.BitVec('j', 64); s.N = z3.ZeroExt(32, z3.BitVec('M', 32)) - z3.ZeroExt(32, z3.BitVec('I', 32)); s.I64 = z3.ZeroExt(32, z3.BitVec('I', 32))
        s.sol.add(s.j >= 0, s.j < s.N)
    def bit(s, arr, j=None):
        j = s.j if j is None else j
        return z3.LShR(z3.Select(arr, z3.LShR(j, 6)), j & 63) & 1 == 1
    def hit(s, ix): return z3.SignExt(32, s.value(ix)) - s.I64
    def loop(s, c, body, inc, st, first=False):
        vs = [k for k, v in st.v.items() if isinstance(v, Vv) and v.kind in ('rest', 'tok')]
        if len(vs) != 1 or s.envd(st) is None: raise ToolLimit('loop of the prelude')
        cur = vs[0]; kind = st.v[cur].kind
        if kind == 'tok' and (st.g.get('tok') != ('0', 0) or st.v[cur].ix != ('0', 0)) or kind == 'rest' and st.v[cur].ix != ('0', 0): raise ToolLimit('loop of the prelude')
        # the variables the loop assigns
        t = st.copy(); t.v[cur] = Vv(kind, ix=('K', 0), **({'null': s.end(('K', 0))} if kind == 'tok' else {})); t.g['tok'] = ('K', 0)
        s.check_state(st, z3.BoolVal(False), z3.BoolVal(False), 'on entry to the loop')
        t.v[s.B] = (z3.Array('B', z3.BitVecSort(64), z3.BitVecSort(64)),) + st.v[s.B][1:]
        flag = s.flag(st)
        old = t.v[flag]; t.v[flag] = z3.Bool('S') if z3.is_bool(old) else z3.BitVec('S', old.size())
        En, Any = z3.Bool('En'), z3.Bool('Any')
        t.pc += [s.bit(t.v[s.B][0]) == En, s.asbool(t.v[flag], '') == Any]
        t.g['w'] = frozenset(); before = dict(t.v)
        ix = ('K', 0); h = s.hit(ix)
        if kind == 'rest': En2 = z3.Or(En, z3.And(z3.Not(s.empty(ix)), h == s.j)); Any2 = z3.Or(Any, z3.And(z3.Not(s.empty(ix)), h >= 0, h < s.N))
        else: En2 = z3.Or(En, h == s.j); Any2 = z3.Or(Any, z3.And(h >= 0, h < s.N))
        out = []
        def leave(u, en, any_, doneif):
            s.prove(u, 'the loop ends only at the end of the list', doneif)
            s.check_state(u, en, any_, 'after the loop', flag)
            v = u.copy(); v.g['En'], v.g['Any'] = en, any_; out.append((v, None))
        states = []
        if not first:
            cc = s.asbool(s.e(c, t), c['t']) if c is not None else z3.BoolVal(True)
            u = t.copy(); u.pc.append(z3.Not(cc))
            if s.sat(u):
                leave(u, En, Any, s.end(ix) if kind == 'tok' else z3.BoolVal(False))
            u = t.copy(); u.pc.append(cc); states = [u] if s.sat(u) else []
        else: states = [t]
        done = (lambda: s.end(('K', 1))) if kind == 'tok' else (lambda: s.last(ix))
        for u in states:
            for w, o in s.x(body, u):
                if isinstance(o, tuple): out.append((w, o)); raise ToolLimit('return from the loop of the prelude')
                if o == 'break': leave(w, En2, Any2, done()); continue
                if inc is not None: s.e(inc, w)
                if first:
                    cc = s.asbool(s.e(c, w), c['t']); z = w.copy(); z.pc.append(z3.Not(cc))
                    if s.sat(z): leave(z, En2, Any2, done())
                    w.pc.append(cc)
                    if not s.sat(w): continue
                nv = w.v[cur]
                s.ob('the loop moves on to the next item', isinstance(nv, Vv) and nv.kind == kind and nv.ix == ('K', 1) and (kind == 'rest' or w.g['tok'] == ('K', 1)), lambda: f'{nv.key() if isinstance(nv, Vv) else nv}')
                if kind == 'rest': s.prove(w, 'the loop continues only after a comma', z3.Not(s.last(ix)))
                s.check_state(w, En2, Any2, 'after one item', flag)
                keep = [k for k, x in before.items() if k not in (cur, s.B, flag) and w.v[k] is not x and k not in w.g.get('locals', ())]
                if any(k in (s.init, s.G) for k in keep): raise ToolLimit('loop of the prelude changes %s' % keep)
        return out
    def envd(s, st): return st.g.get('getenv')
    def flag(s, st):
        "The local that collects whether some mutant is enabled (or the global itself)."
        c = [k for k, v in st.v.items() if k in st.g.get('locals', ()) and not isinstance(v, (Vv, tuple)) and v is not None and (z3.is_bool(v) or v.size() == 32)]
        if len(c) == 1: return c[0]
        if not c: return s.G
        raise ToolLimit('locals of the prelude')
    def check_state(s, st, en, any_, when, flag=None):
        flag = s.flag(st) if flag is None else flag
        s.prove(st, 'bit k of the set is on iff the list so far has first id + k, ' + when, s.bit(st.v[s.B][0]) == en)
        s.prove(st, 'the flag is on iff the list so far has a mutant of the file, ' + when, s.asbool(st.v[flag], '') == any_)
    def run(s, thread=True):
        fs = [f for f in s.fn if f['n'] == '__dredd_enabled_mutation']
        if len(fs) != 1 or len(s.fn) != 1: raise ToolLimit('functions of the prelude')
        f = fs[0]; stat = s.statics(f)
        arrs = [v for v in stat if s.arrlen(v['t'])]; rest = [v for v in stat if not s.arrlen(v['t'])]
        gs = [g for g in s.globals.values() if g['name'] == '__dredd_some_mutation_enabled']
        if len(gs) != 1 or len(s.globals) != 1 or len(arrs) != 1 or len(rest) != 1 or len(f['params']) != 1: raise ToolLimit('shape of the prelude')
        g, b, i = gs[0], arrs[0], rest[0]
        s.G, s.B, s.init = g['id'], b['id'], i['id']; s.setup()
        elt, ln = s.arrlen(b['t'])
        if width(elt) != (64, False): raise ToolLimit('bitset words')
        s.ob('the state of the prelude is per thread', all(v['tls'] for v in (g, b, i)), lambda: f"thread-local: {[(v['name'], v['tls']) for v in (g, b, i)]}")
        st = St()
        gv = s.e(g['init'], st) if g.get('init') else z3.BitVecVal(0, 32)
        s.ob('the flag is on before the first query', not s.sat(st, z3.Not(s.asbool(gv, ''))), '')
        iv = s.e(i['init'], st) if i.get('init') else None
        if iv is None or b.get('init'): raise ToolLimit('initialisers of the prelude')
        L = z3.BitVec('local', 32); L64 = z3.SignExt(32, L)
        s.sol.add(L64 >= 0, L64 < s.N, s.N > 0)
        def start(iv, arr, gv):
            t = St(); t.v = {s.G: gv, s.B: (arr, ln), s.init: iv, f['params'][0]['id']: L}; return t
        # first call of a thread
        z = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 64))
        t = start(iv, z, gv)
        r0 = s.x(f['body'], t)
        unset = z3.Bool('unset_DREDD_ENABLED_MUTATION')
        for u, o in r0:
            if not s.sat(u): continue
            s.ob('the list is that of DREDD_ENABLED_MUTATION', u.g.get('getenv') == 'DREDD_ENABLED_MUTATION', lambda: str(u.g.get('getenv')))
            en, any_ = u.g.get('En'), u.g.get('Any')
            if en is None:
                s.prove(u, 'a list that is set is read', unset); en = any_ = z3.BoolVal(False)
            s.prove(u, 'bit k of the set is on iff the list has first id + k', s.bit(u.v[s.B][0]) == en)
            s.prove(u, 'after the first query the flag is on iff some mutant of the file is enabled', s.asbool(u.v[s.G], '') == any_)
            s.prove(u, 'the list is read once', s.asbool(u.v[s.init], ''))
            s.result(u, o, L64)
        # any later call
        arr = z3.Array('B', z3.BitVecSort(64), z3.BitVecSort(64))
        iv2 = z3.Bool('inited') if z3.is_bool(iv) else z3.BitVec('inited', iv.size()); gv2 = z3.Bool('G') if z3.is_bool(gv) else z3.BitVec('G', gv.size())
        # the value the flag variable has after the first call
        inits = {str(z3.simplify(u.v[s.init])) for u, o in r0}
        if len(inits) != 1: raise ToolLimit('initialised flag of the prelude')
        iv2 = r0[0][0].v[s.init]
        t = start(iv2, arr, gv2)
        for u, o in s.x(f['body'], t):
            if not s.sat(u): continue
            s.prove(u, 'later queries leave the state alone', z3.And(u.v[s.B][0] == arr, u.v[s.G] == gv2, s.asbool(u.v[s.init], '')))
            s.ob('the list is read once', 'getenv' not in u.g, '')
            s.result(u, o, L64)
    def result(s, u, o, L64):
        if not o or o[0] != 'return' or o[1] is None: s.ob('a query returns a result', False, ''); return
        s.prove(u, 'query k returns bit k of the set', s.asbool(o[1], '') == s.bit(u.v[s.B][0], L64))
class Track(Ev):
    """__dredd_record_covered_mutants. Ghost: c, the number of lines written so far; claim, whether this thread turned
    the flag of the site on. Other threads may turn flags on before any of the reads (rely), none turns one off (guarantee)."""
    flags = None; reads = 0
    def load(s, l, st):
        if l[0] != 'elt' or l[1] != s.flags: return Ev.load(s, l, st)
        old = Ev.load(s, l, st); s.reads += 1; v = z3.Bool('read%d' % s.reads)
        st.pc += [z3.Implies(old, v), z3.Implies(z3.Bool('alone'), v == old)]
        w = st.g.get('w'); Ev.store(s, l, v, st); st.g['w'] = w or frozenset()
        return v
    def store(s, l, v, st):
        if l[0] == 'elt' and l[1] == s.flags: s.prove(st, 'no flag is turned off', z3.Implies(Ev.load(s, l, st), v))
        Ev.store(s, l, v, st)
    def run(s):
        fs = [f for f in s.fn if f['n'] == '__dredd_record_covered_mutants']
        if len(fs) != 1 or len(s.fn) != 1 or s.globals: raise ToolLimit('functions of the prelude')
        f = fs[0]; stat = s.statics(f); N = z3.ZeroExt(32, z3.BitVec('M', 32)) - z3.ZeroExt(32, z3.BitVec('I', 32))
        if len(stat) != 1 or not s.arrlen(stat[0]['t']) or len(f['params']) != 2: raise ToolLimit('shape of the tracking prelude')
        b = stat[0]; elt, ln = s.arrlen(b['t'])
        if tb(elt) not in ('bool',) and not tb(elt).startswith('std::atomic<bool>'): raise ToolLimit('flags of the tracking prelude')
        L, n = z3.BitVec('local', 32), z3.BitVec('num', 32); s.L, s.n = L, n
        L64, n64 = z3.SignExt(32, L), z3.SignExt(32, n)
        s.sol.add(L64 >= 0, n64 >= 1, L64 + n64 <= N)
        s.ob('a site is recorded once also with several threads', 'tomic' in elt, elt)
        s.ob('the record of sites is shared by all threads', not b['tls'], '')
        A = z3.Array('A', z3.BitVecSort(64), z3.BoolSort()); k = z3.BitVec('k', 64)
        t = St(); t.v = {b['id']: (A, ln), f['params'][0]['id']: L, f['params'][1]['id']: n}
        unset = z3.Bool('unset_DREDD_MUTANT_TRACKING_FILE'); fails = z3.Bool('fopen_fails')
        s.flags = b['id']; alone = z3.Bool('alone')
        for u, o in s.x(f['body'], t):
            if not s.sat(u): continue
            A2 = u.v[b['id']][0]
            s.prove(u, 'exactly the record of this site is set', z3.Implies(alone, z3.Select(A2, k) == z3.Or(z3.Select(A, k), k == L64)))
            s.prove(u, 'of several threads only the one that turns the flag of the site on writes', z3.Implies(z3.BoolVal(u.ev == ['LINES']), u.g.get('claim', z3.BoolVal(False))))
            if u.ev and u.ev != ['LINES']: raise ToolLimit('writes outside the loop: %s' % u.ev)
            wrote = z3.BoolVal(u.ev == ['LINES'])
            s.prove(u, 'lines are written iff the site is reached for the first time and the variable is set', z3.Implies(z3.And(alone, z3.Not(fails)), wrote == z3.And(z3.Not(z3.Select(A, L64)), z3.Not(unset))))
            if u.ev and not any(v.kind == 'file' and not hasattr(v, 'c') for v in u.v.values() if isinstance(v, Vv)): pass
    def loop(s, c, body, inc, st, first=False):
        if st.ev: raise ToolLimit('second loop of the tracking prelude')
        cnt = z3.BitVec('c', 32)
        # pass 1: which variables change, and by what
        t = st.copy(); probe = {}
        for k, v in st.v.items():
            if not isinstance(v, (Vv, tuple)) and v is not None and z3.is_bv(v): probe[k] = z3.BitVec('p%s' % k, v.size()); t.v[k] = probe[k]
        if not first and c is not None: t.pc.append(s.asbool(s.e(c, t), c['t']))
        quiet = s.ob; s.ob = lambda *a: None
        r = s.x(body, t); s.ob = quiet
        r = [(u, o) for u, o in r if s.sat(u)]
        if len(r) != 1 or r[0][1] not in (None, 'continue'): raise ToolLimit('loop of the tracking prelude')
        u = r[0][0]
        if inc is not None: s.e(inc, u)
        step = {}
        for k, p in probe.items():
            d = z3.simplify(u.v[k] - p)
            if not z3.is_bv_value(d): raise ToolLimit('loop variable of the tracking prelude')
            if d.as_long(): step[k] = d
        if any(u.v[k] is not v for k, v in st.v.items() if isinstance(v, (Vv, tuple))): raise ToolLimit('loop of the tracking prelude')
        # pass 2: with c lines written, every variable is its start + c steps
        t = st.copy(); t.pc += [cnt >= 0, cnt <= s.n]
        for k, d in step.items(): t.v[k] = st.v[k] + cnt * d
        if first: raise ToolLimit('do loop of the tracking prelude')
        cc = s.asbool(s.e(c, t), c['t']) if c is not None else z3.BoolVal(True)
        s.prove(t, 'the loop writes as many lines as the site has mutants', cc == (cnt < s.n))
        t.pc.append(cnt < s.n); t.ev = []
        for w, o in s.x(body, t):
            ok = len(w.ev) == 2 and not isinstance(w.ev[0], str) and w.ev[1] == '\n'
            s.ob('each iteration writes one id and a line end', ok, lambda: str(w.ev))
            if ok:      # in either order
                up, down = (w.ev[0] == z3.BitVec('I', 32) + s.L + x for x in (cnt, s.n - 1 - cnt))
                s.prove(w, 'the lines are the ids of the mutants of the site, each once', down if not s.sat(w, z3.Not(down)) else up)
        out = st.copy(); out.ev = ['LINES']
        for k, d in step.items(): out.v[k] = st.v[k] + s.n * d
        return [(out, None)]
KINDS = [('GetDreddPreludeCpp', True), ('GetDreddPreludeC', False)]
def job(prog, extract, work, cxx, track, prop, res):
    fn = 'GetDreddPreludeCpp' if cxx else 'GetDreddPreludeC'
    rs = generate(prog, fn, cxx, track)
    q = 0
    for c, r in rs:
        text, lits = concretise(r)
        d = parse(extract, work, '%s_%s_%d' % ('cc' if cxx else 'c', 't' if track else 'n', os.getpid()), text, cxx)
        M, I = z3.BitVec('M', 32), z3.BitVec('I', 32)
        tag = ('C++' if cxx else 'C') + (' tracking prelude' if track else ' prelude')
        ev = (Track if track else Enabled)(d, lits, [I >= 0, M > I], lambda name, ok, det='': res.ob(prop, name, ok, (lambda: tag + ': ' + (det() if callable(det) else det))))
        ev.run(); q += ev.queries
    return q
