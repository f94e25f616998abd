"""Symbolic values, path state and the AST interpreter of the VC generator.

The interpreter runs the JSON syntax trees that tools/extract produces from
/repo's current sources.  All inputs are symbolic (z3 terms or opaque clang
objects); `explore` enumerates every feasible path of a function exactly once,
so what holds on each path record holds for all inputs."""
import z3, sys
sys.setrecursionlimit(20000)

class ToolLimit(Exception):
    "The code uses something outside the supported subset: no verdict."
class NeedFork(Exception): pass
class Infeasible(Exception): pass
class RetEx(Exception):
    def __init__(s, v): s.v = v
class BrkEx(Exception): pass
class CntEx(Exception): pass

class Cell:
    __slots__ = ('v', 'name', 'n')
    serial = 0
    def __init__(s, v=None, name=''):
        s.v = v; s.name = name
        Cell.serial += 1; s.n = Cell.serial
    def __repr__(s): return f'Cell({s.v!r})'
class CharCell(Cell):
    "A character of a literal string in a cell."
    __slots__ = ('par', 'i')
    def __init__(s, par, i):
        s.par, s.i, s.name = par, i, ''
        Cell.serial += 1; s.n = Cell.serial
    @property
    def v(s): return ord(s.par.v.lit()[s.i])
    @v.setter
    def v(s, x):
        l = s.par.v.lit(); s.par.v = Rope((l[:s.i] + chr(x) + l[s.i + 1:],))
class Obj:
    __slots__ = ('name', 't')
    def __init__(s, name, t=''): s.name = name; s.t = t
    def __eq__(s, o): return isinstance(o, Obj) and o.name == s.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return f'<{s.name}>'
class Ptr:
    __slots__ = ('to', 'nn')
    def __init__(s, to, nn=True): s.to = to; s.nn = nn
    def __repr__(s): return f'Ptr({s.to!r},{s.nn})'
NULL = Ptr(None, False)
class Struct:
    __slots__ = ('cls', 'f', 'present')
    def __init__(s, cls): s.cls = cls; s.f = {}; s.present = Cell(())
    def copy(s):
        n = Struct(s.cls)
        for k, c in s.f.items(): n.f[k] = Cell(copyval(c.v), k)
        n.present = Cell(s.present.v)
        return n
    def __repr__(s): return f'{s.cls.split("::")[-1]}{s.f}'
class ListV:
    __slots__ = ('items',)
    def __init__(s, items=()): s.items = tuple(items)
    def __repr__(s): return f'List{list(s.items)}'
class SetV(ListV):
    pass
class Seq:
    "A sequence of unknown length (a clang range): name identifies it."
    __slots__ = ('name', 't')
    def __init__(s, name, t=''): s.name = name; s.t = t
    def __repr__(s): return f'Seq({s.name})'
class Iter:
    __slots__ = ('c', 'i')
    def __init__(s, c, i): s.c = c; s.i = i
class Opt:
    __slots__ = ('has', 'v')
    def __init__(s, has, v=None): s.has = has; s.v = v   # v : Cell
class LambdaV:
    __slots__ = ('node', 'env', 'this')
    def __init__(s, node, env, this): s.node, s.env, s.this = node, env, this
class FuncV:
    __slots__ = ('callee',)
    def __init__(s, c): s.callee = c
class PairV:
    __slots__ = ('a', 'b')
    def __init__(s, a, b): s.a = a; s.b = b
class Opaque:
    "An unspecified value (never inspected)."
    def __repr__(s): return 'Opaque'

# ---- ropes -----------------------------------------------------------------
class Rope:
    __slots__ = ('p',)
    def __init__(s, p=()):
        out = []
        for x in p:
            if isinstance(x, str):
                if x == '': continue
                if out and isinstance(out[-1], str): out[-1] += x; continue
            out.append(x)
        s.p = tuple(out)
    def __eq__(s, o): return isinstance(o, Rope) and s.p == o.p
    def __hash__(s): return hash(s.p)
    def __add__(s, o): return Rope(s.p + o.p)
    def __repr__(s): return 'R' + repr(list(s.p))
    def lit(s):
        if not s.p: return ''
        if len(s.p) == 1 and isinstance(s.p[0], str): return s.p[0]
        return None
class Hole:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __eq__(s, o): return isinstance(o, Hole) and o.name == s.name
    def __hash__(s): return hash(('H', s.name))
    def __repr__(s): return '{%s}' % s.name
class IntP:
    __slots__ = ('e', 'k')
    def __init__(s, e): s.e = e; s.k = str(z3.simplify(e))
    def __eq__(s, o): return isinstance(o, IntP) and o.k == s.k
    def __hash__(s): return hash(('I', s.k))
    def __repr__(s): return '{#%s}' % s.k
class IteP:
    __slots__ = ('c', 'a', 'b', 'k')
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b; s.k = c.get_id()
    def __eq__(s, o): return isinstance(o, IteP) and z3.eq(o.c, s.c) and o.a == s.a and o.b == s.b
    def __hash__(s): return hash(('?', s.a, s.b))
    def __repr__(s): return '(%s ? %r : %r)' % (str(s.c)[:60], s.a, s.b)
class MapP:
    "Character-wise map of a rope that is not a literal (e.g. ' ' -> '_')."
    __slots__ = ('m', 'r')
    def __init__(s, m, r): s.m = m; s.r = r
    def __eq__(s, o): return isinstance(o, MapP) and o.m == s.m and o.r == s.r
    def __hash__(s): return hash(('M', s.m, s.r))
    def __repr__(s): return '%s(%r)' % (s.m, s.r)
EMPTY = Rope()
def R(x): return x if isinstance(x, Rope) else Rope((x,))
def rope_map(m, r):
    (a, b) = m
    out = []
    for x in r.p:
        if isinstance(x, str): out.append(x.replace(a, b))
        elif isinstance(x, IntP): out.append(x)
        elif isinstance(x, IteP): out.append(IteP(x.c, rope_map(m, x.a), rope_map(m, x.b)))
        elif isinstance(x, MapP) and x.m == m: out.append(x)
        else: out.append(MapP(m, Rope((x,))))
    return Rope(out)
def rope_ite(c, a, b):
    if a == b: return a
    pa, pb = list(a.p), list(b.p)
    pre = []
    while pa and pb and pa[0] == pb[0]: pre.append(pa.pop(0)); pb.pop(0)
    if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
        n = 0
        while n < min(len(pa[0]), len(pb[0])) and pa[0][n] == pb[0][n]: n += 1
        # only peel when one is a prefix of the other, so appends stay readable
        if n and (n == len(pa[0]) or n == len(pb[0])):
            pre.append(pa[0][:n]); pa[0] = pa[0][n:]; pb[0] = pb[0][n:]
            if not pa[0]: pa.pop(0)
            if not pb[0]: pb.pop(0)
            while pa and pb and pa[0] == pb[0]: pre.append(pa.pop(0)); pb.pop(0)
    suf = []
    while pa and pb and pa[-1] == pb[-1]: suf.insert(0, pa.pop()); pb.pop()
    return Rope(pre + [IteP(c, Rope(pa), Rope(pb))] + suf)

def isz(x): return isinstance(x, z3.ExprRef)
def isint(x): return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and z3.is_int(x))
def isbool(x): return isinstance(x, bool) or (isz(x) and z3.is_bool(x))
def copyval(v):
    if isinstance(v, Struct): return v.copy()
    if isinstance(v, ListV):
        return type(v)(Cell(copyval(c.v)) for c in v.items)
    if isinstance(v, Opt): return Opt(v.has, Cell(copyval(v.v.v)) if v.v is not None else None)
    if isinstance(v, PairV): return PairV(Cell(copyval(v.a.v)), Cell(copyval(v.b.v)))
    return v
def val(x): return x.v if isinstance(x, Cell) else x

class CannotMerge(Exception): pass
def same(a, b):
    if a is b: return True
    if type(a) != type(b): return False
    if isz(a): return z3.eq(a, b)
    if isinstance(a, (int, bool, Rope, Obj, str, float)): return a == b
    if isinstance(a, Ptr): return same(a.nn, b.nn) and (a.to is b.to or (isinstance(a.to, Obj) and a.to == b.to))
    if isinstance(a, ListV): return len(a.items) == len(b.items) and all(x is y for x, y in zip(a.items, b.items))
    if isinstance(a, tuple): return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    return False
def merge(c, a, b):
    if same(a, b): return a
    if isinstance(a, Rope) and isinstance(b, Rope): return rope_ite(c, a, b)
    if isbool(a) and isbool(b):
        if a is True and b is False: return c
        if a is False and b is True: return z3.Not(c)
        return z3.simplify(z3.If(c, zb(a), zb(b)))
    if isint(a) and isint(b) and not isinstance(a, bool) and not isinstance(b, bool):
        return z3.If(c, zi(a), zi(b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if b.to is None: return Ptr(a.to, zand(c, a.nn))
        if a.to is None: return Ptr(b.to, zand(znot(c), b.nn))
        if a.to is b.to or (isinstance(a.to, Obj) and a.to == b.to): return Ptr(a.to, merge(c, a.nn, b.nn))
    if isinstance(a, Opaque) and isz(b): return z3.If(c, unspec(c, b), b)
    if isinstance(b, Opaque) and isz(a): return z3.If(c, a, unspec(c, a))
    raise CannotMerge((type(a), type(b)))
_unspec = []
def unspec(c, like):
    "A fresh unspecified value: what an object holds that was not written on this path."
    _unspec.append(c)
    return z3.FreshConst(like.sort(), 'unspec')
class ZK:
    "Structural identity of a term, for table keys."
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
    def __eq__(s, o): return isinstance(o, ZK) and z3.eq(s.e, o.e)
    def __hash__(s): return s.e.hash()
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def zi(x): return z3.IntVal(int(x)) if isinstance(x, (int, bool)) else x
def zand(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def zor(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def znot(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def tobool(x):
    "Contextual conversion to bool."
    if isbool(x): return x
    if isint(x): return (x != 0) if not isz(x) else x != 0
    if isinstance(x, Ptr): return x.nn
    if isinstance(x, Opt): return x.has
    if isinstance(x, Rope): return True     # a character pointer to a string
    raise ToolLimit(f'bool of {type(x).__name__}')

# ---- program ---------------------------------------------------------------
class Program:
    def __init__(s, tus):
        s.fn, s.rec, s.glob, s.enums, s.byname = {}, {}, {}, {}, {}
        s.opstr = {}
        for tu, d in tus.items():
            for f in d['functions']:
                f['tu'] = tu
                old = s.fn.get(f['key'])
                if old is None: s.fn[f['key']] = f
            for r in d['records']: s.rec.setdefault(r['t'], r); s.rec.setdefault(r['q'], r)
            for g in d['globals']: s.glob.setdefault((tu, g['id']), g)
            for e in d.get('enums', []): s.enums[e['q']] = e
            if d.get('opcode_str'): s.opstr = d['opcode_str']
        for f in s.fn.values(): s.byname.setdefault(f['q'], []).append(f)
    def find(s, q, npar=None):
        c = [f for f in s.byname.get(q, []) if npar is None or len(f['params']) == npar]
        return c[0] if c else None

class Path: pass

class Ctx:
    """State of one execution. `prefix` replays recorded decide() outcomes."""
    MAXREGION = 24
    def __init__(s, prog, models, axioms, prefix=(), budget=None):
        s.prog, s.models = prog, models
        s.prefix, s.out = list(prefix), []
        s.pc = []                 # global path condition
        s.lits = {}
        s.axioms = axioms
        s.solver = None
        s.pending = []            # prefixes to explore
        s.region = []             # stack of local explorations
        s.log = []                # write logs of regions
        s.effects = Cell(())
        s.obl = []                # (kind, ok, description)
        s.memo = {}; s.summaries = {}; s.keep = []
        s.ghost = {}
        s.steps = 0
        s.depth = 0
        s.callstack = []
        s.statics = {}
        s.globals = {}
        s.contracts = {}
        s.stats = {'checks': 0}
    # solver
    def sol(s):
        if s.solver is None:
            s.solver = z3.Solver(); s.solver.set('timeout', 20000)
            for a in s.axioms: s.solver.add(a)
            for c in s.pc: s.solver.add(c)
        return s.solver
    def assume(s, c):
        if c is True: return
        if c is False: raise Infeasible()
        s.pc.append(c)
        s._lit(c, s.lits)
        if s.solver is not None: s.solver.add(c)
    def _lit(s, c, d):
        if z3.is_not(c):
            a = c.arg(0)
            if z3.is_or(a):
                for x in a.children(): s._lit(z3.Not(x), d)
            d[a.get_id()] = (a, False)
        else:
            if z3.is_and(c):
                for x in c.children(): s._lit(x, d)
            d[c.get_id()] = (c, True)
    def sat(s, *cs):
        s.stats['checks'] += 1
        r = s.sol().check(*cs)
        if r == z3.unknown: raise ToolLimit('solver gave up')
        return r == z3.sat
    def assumptions(s):
        out = []
        for r in s.region: out += r.conds
        return out
    def model(s, *cs):
        if not s.sat(*cs): return None
        return s.sol().model()
    def entailed(s, c):
        "True/False if implied by the path condition, else None (recorded)."
        if isinstance(c, bool): return c
        known = s.lits.get(c.get_id())
        if known is None and z3.is_not(c):
            k = s.lits.get(c.arg(0).get_id())
            if k is not None: return not k[1]
        if known is not None: return known[1]
        for r in s.region:
            k = r.lits.get(c.get_id())
            if k is not None: return k[1]
            if z3.is_not(c):
                k = r.lits.get(c.arg(0).get_id())
                if k is not None: return not k[1]
        i = len(s.out)
        if i < len(s.prefix):
            o = s.prefix[i]
            if isinstance(o, tuple): raise ToolLimit('replay divergence')
            s.out.append(o); return o
        a = s.assumptions()
        if not s.sat(*a, c): o = False
        elif not s.sat(*a, z3.Not(c)): o = True
        else: o = None
        s.out.append(o)
        return o
    def decide(s, c):
        c = tobool(c)
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        e = s.entailed(c)
        if e is not None: return e
        if s.region:
            return s.region[-1].choose(s, c)
        i = len(s.out)
        if i < len(s.prefix):
            ch = s.prefix[i][0]
        else:
            ch = True
            s.pending.append(s.out + [(False,)])
        s.out.append((ch,))
        s.assume(c if ch else z3.Not(c))
        return ch
    # memory
    def write(s, cell, v):
        for l in reversed(s.log):
            if cell not in l: l[cell] = cell.v
            break
        cell.v = v
    def effect(s, *e): s.write(s.effects, s.effects.v + (e,))
    def oblige(s, kind, c, desc):
        c = tobool(c)
        if c is True: return
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c): return
            if z3.is_false(c): c = False
        e = s.entailed(c)
        if e is True: return
        if s.region: raise NeedFork()
        if (kind, desc) not in [(o[0], o[2]) for o in s.obl]:
            s.obl.append((kind, False, desc))
        if c is False or e is False: raise Infeasible()
        s.assume(c)
    # regions: explore all local paths of `thunk` and merge them
    def explore_region(s, thunk):
        """Runs thunk() under every local decision; merges results and writes.
        Raises NeedFork when the outcomes cannot be merged."""
        reg = Region()
        start = Cell.serial
        s.region.append(reg)
        runs = []
        nobl = len(s.obl)
        outer_log = s.log
        try:
            todo = [[]]
            while todo:
                if len(runs) >= s.MAXREGION: raise NeedFork()
                reg.start(todo.pop())
                log = {}
                s.log = outer_log + [log]
                try:
                    v = thunk()
                except (RetEx, BrkEx, CntEx):
                    raise NeedFork()
                finally:
                    new = {c: c.v for c in log}
                    for c, old in log.items(): c.v = old
                    s.log = outer_log
                todo += reg.pending; reg.pending = []
                runs.append((list(reg.conds), v, new))
        finally:
            s.region.pop()
            s.log = outer_log
        if len(runs) == 1:
            conds, v, new = runs[0]
            for c, x in new.items(): s.write(c, x)
            return v
        # merge right to left
        try:
            conds, v, new = runs[-1]
            cells = []
            for r in runs:
                for c in r[2]:
                    if c not in cells: cells.append(c)
            acc = {c: new.get(c, c.v) for c in cells}
            for conds, v2, new2 in reversed(runs[:-1]):
                g = zand(*conds)
                v = merge(g, v2, v) if not (v2 is None and v is None) else None
                for c in cells:
                    if c.n > start:          # made by one of the runs: only that run's value matters
                        if c in new2: acc[c] = new2[c]
                    else: acc[c] = merge(g, new2.get(c, c.v), acc[c])
        except CannotMerge:
            raise NeedFork()
        for c, x in acc.items(): s.write(c, x)
        return v
    def summary(s, key, run):
        """Path-independent result of a side-effect-free boolean function, computed
        once from the axioms alone (None if it has effects, obligations or paths
        that cannot be merged)."""
        tab = s.summaries
        if key in tab: return tab[key][0]
        sub = Ctx(s.prog, s.models, s.axioms)
        sub.summaries, sub.contracts, sub.globals, sub.callstack = tab, s.contracts, s.globals, list(s.callstack)
        sub.base = Cell.serial
        log = {}; sub.log = [log]; start = Cell.serial
        tab[key] = (None, ())
        try:
            v = run(sub)
            if isbool(v) and not sub.pending and not sub.obl and not sub.effects.v and not any(c.n <= start and c is not sub.effects for c in log):
                tab[key] = (z3.simplify(v) if isz(v) else v, (v,))
        except (Infeasible, NeedFork): pass
        finally:
            for c, o in log.items(): c.v = o
            s.stats['checks'] += sub.stats['checks']
        return tab[key][0]
    def try_region(s, thunk):
        """Merged execution if possible; otherwise plain (forking) execution."""
        i = len(s.out)
        if i < len(s.prefix) and s.prefix[i] == 'nf':
            s.out.append('nf')
            return thunk()
        n_out = len(s.out)
        s.out.append('rg')
        st = len(s.callstack)
        nr = len(s.region)
        try:
            return s.explore_region(thunk)
        except NeedFork:
            del s.region[nr:]
            del s.callstack[st:]
            del s.out[n_out:]
            s.out.append('nf')
            s.prefix = s.prefix[:n_out]
            return thunk()
    def atom(s, name): return z3.Bool(name)

class Region:
    def __init__(s): s.conds = []; s.lits = {}; s.pending = []; s.pre = []; s.trail = []
    def start(s, pre): s.pre = pre; s.trail = []; s.conds = []; s.lits = {}
    def choose(s, ctx, c):
        i = len(s.trail)
        if i < len(s.pre): ch = s.pre[i]
        else:
            ch = True
            s.pending.append(s.trail + [False])
        s.trail.append(ch)
        x = c if ch else z3.Not(c)
        s.conds.append(x); ctx._lit(x, s.lits)
        return ch

def explore(make, run, maxpaths=4000):
    """Enumerates all paths. make(prefix) -> Ctx ; run(ctx) -> record."""
    todo = [[]]; recs = []
    while todo:
        if len(recs) >= maxpaths: raise ToolLimit('too many paths')
        ctx = make(todo.pop())
        try:
            r = run(ctx)
            recs.append((ctx, r))
        except Infeasible:
            if ctx.obl: recs.append((ctx, None))
        todo += ctx.pending
    return recs
