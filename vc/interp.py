"""Interpreter of extracted function bodies over symbolic state (see core.py)."""
import re, z3
from core import *

def strip_targs(q):
    if 'operator<' in q or 'operator>' in q or 'operator->' in q:
        i = q.rfind('operator')
        return strip_targs(q[:i]) + q[i:].replace('operator<<', 'operator<<')
    out, d = [], 0
    for ch in q:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out.append(ch)
    return ''.join(out)
_sq = {}
def sq(q):
    r = _sq.get(q)
    if r is None: r = _sq[q] = strip_targs(q)
    return r
def isref(t): return t.rstrip().endswith('&')
def isptr(t): return t.rstrip().endswith('*') or t.rstrip().endswith('*const')
def bare(t):
    t = t.strip()
    while True:
        n = re.sub(r'^(const|volatile) ', '', t)
        n = re.sub(r'\s*(\*const|\*|&&|&)$', '', n).strip()
        if n == t: return t
        t = n
INTT = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short',
        'unsigned short', 'char', 'signed char', 'unsigned char', 'wchar_t'}
def isstr(t):
    b = bare(t)
    return b.startswith('std::basic_string<char') or b.startswith('llvm::StringRef') or b.startswith('std::basic_string_view<char')

TYPENAMES = ['bool', '_Bool', 'char', 'signed char', 'unsigned char', 'wchar_t', 'char8_t', 'char16_t', 'char32_t', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long',
             '__int128', 'unsigned __int128', 'half', '__fp16', '_Float16', '__bf16', 'float', 'double', 'long double', '__float128', '__ibm128']
_hasctl = {}
def has_ctl(n):
    "Statement transfers control out of itself (return/break/continue)."
    if n is None: return False
    i = id(n)
    r = _hasctl.get(i)
    if r is None: r = _hasctl[i] = _ctl(n, False)
    return r
def _ctl(n, inloop):
    if isinstance(n, list): return any(_ctl(x, inloop) for x in n)
    if not isinstance(n, dict): return False
    k = n.get('k')
    if k == 'Lambda': return False
    if k == 'Return' or k == 'Throw': return True
    if k in ('Break', 'Continue'): return not inloop
    if k in ('While', 'For', 'Do', 'ForRange', 'Switch'): inloop = True
    return any(_ctl(v, inloop) for v in n.values())

class Interp:
    MAXSTEPS = 400000
    def __init__(s, ctx):
        s.c = ctx; ctx.it = s
    # ---------- names of values (for uninterpreted accessors)
    def nm(s, v):
        v = val(v)
        if isinstance(v, Obj): return v.name
        if isinstance(v, Ptr):
            if v.to is None: return 'null'
            return s.nm(v.to) if isinstance(v.to, Obj) else '&' + s.nm(val(v.to))
        if isinstance(v, Rope):
            l = v.lit()
            return repr(l) if l is not None else repr(v)
        if isinstance(v, (int, bool, float)): return str(v)
        if isz(v): return str(z3.simplify(v))
        if isinstance(v, Struct): return v.cls + '{' + ','.join(s.nm(c) for c in v.f.values()) + '}'
        if v is None: return ''
        return type(v).__name__
    # ---------- opaque results by type
    def opaque(s, name, t, nonnull=False):
        b = bare(t)
        if isref(t): return s.opaque_val(name, t[:-1].rstrip('& '), True, nonnull)
        return s.opaque_val(name, t, False, nonnull)
    def opaque_val(s, name, t, lv, nonnull):
        t = t.strip()
        if isptr(t):
            if bare(t) in ('char',): return R(Hole(name))
            return Ptr(Obj(name, bare(t)), True if nonnull else z3.Bool('nn(%s)' % name))
        b = bare(t)
        if b == 'bool': return z3.Bool(name)
        if b in INTT or b in s.c.prog.enums or b.startswith('clang::') and s.c.models.is_enum(b):
            return z3.Int(name)
        if isstr(t): return R(Hole(name))
        if b == 'void': return None
        if b.startswith('std::optional<'):
            inner = b[len('std::optional<'):-1]
            return Opt(z3.Bool('has(%s)' % name), Cell(s.opaque_val(name + '.value', inner, False, True)))
        if b.startswith('llvm::iterator_range<') or b.startswith('llvm::ArrayRef<') or b == 'clang::DynTypedNodeList':
            return Seq(name, b)
        if b in ('double', 'float'): return z3.Real(name)
        return Obj(name, b)
    # ---------- statements
    def run_body(s, st, env):
        try:
            s.ex(st, env)
        except RetEx as r:
            return r.v
        return None
    def ex(s, n, env):
        if n is None: return
        s.c.steps += 1
        if s.c.steps > s.MAXSTEPS: raise ToolLimit('step limit')
        getattr(s, 's_' + n['k'])(n, env)
    def s_Block(s, n, env):
        raii = []
        for x in n['s']:
            if x and x['k'] == 'Decl':
                s.ex(x, env)
                for v in x['vars']:
                    d = s.c.models.dtor(bare(v['t'])) if not isref(v['t']) and not isptr(v['t']) else None
                    if d: raii.append((d, env[v['id']]))
            else:
                try: s.ex(x, env)
                except (RetEx, BrkEx, CntEx):
                    for d, c in reversed(raii): d(s, c)
                    raise
        for d, c in reversed(raii): d(s, c)
    def s_Decl(s, n, env):
        for v in n['vars']: s.declare(v, env)
    def declare(s, v, env):
        t = v['t']
        if v.get('static'):
            key = ('static', v['id'], v['name'])
            if key in s.c.statics: env[v['id']] = s.c.statics[key]; return
        if v.get('init') is None:
            c = Cell(s.c.models.default(s, t), v['name'])
        else:
            x = s.ev(v['init'], env)
            if isref(t):
                c = x if isinstance(x, (Cell, Obj)) else Cell(x, v['name'])
            else:
                c = Cell(s.conv(copyval(val(x)), t), v['name'])
        env[v['id']] = c
        if v.get('static'): s.c.statics[('static', v['id'], v['name'])] = c
        if v.get('bindings'):
            p = val(c)
            if isinstance(p, PairV): parts = [p.a, p.b]
            elif isinstance(p, Struct): parts = list(p.f.values())
            else: raise ToolLimit('structured binding')
            for b, x in zip(v['bindings'], parts): env[b['id']] = x
    def conv(s, v, t):
        b = bare(t)
        if isinstance(v, bool) and b in INTT: return int(v)
        return v
    def s_Expr(s, n, env): s.ev(n['e'], env)
    def s_Nop(s, n, env): pass
    def s_Return(s, n, env):
        v = s.ev(n['e'], env) if n.get('e') is not None else None
        raise RetEx(v)
    def s_Break(s, n, env): raise BrkEx()
    def s_Continue(s, n, env): raise CntEx()
    def s_UnsupportedStmt(s, n, env): raise ToolLimit('statement ' + n.get('cls', '?'))
    def s_If(s, n, env):
        if n.get('init'): s.ex(n['init'], env)
        if n.get('var'): s.declare(n['var'], env)
        c = tobool(val(s.ev(n['c'], env)))
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c): c = True
            elif z3.is_false(c): c = False
            else:
                e = s.c.entailed(c)
                if e is not None: c = e
        if isinstance(c, bool):
            s.ex(n['a'] if c else n.get('b'), env); return
        def go():
            if s.c.decide(c): s.ex(n['a'], env)
            else: s.ex(n.get('b'), env)
        if has_ctl(n['a']) or has_ctl(n.get('b')): go()
        else: s.c.try_region(go)
    def s_Switch(s, n, env):
        if n.get('init'): s.ex(n['init'], env)
        if n.get('var'): s.declare(n['var'], env)
        c = val(s.ev(n['c'], env))
        body = n['a']['s'] if n['a']['k'] == 'Block' else [n['a']]
        flat = []          # (labels, stmt)
        for x in body:
            labs = []
            while x and x['k'] in ('Case', 'Default'):
                labs.append(None if x['k'] == 'Default' else val(s.ev(x['c'], env)))
                x = x['a']
            flat.append((labs, x))
        start = None
        for i, (labs, _) in enumerate(flat):
            hit = [l for l in labs if l is not None]
            for l in hit:
                if s.c.decide(c == l): start = i; break
            if start is not None: break
        if start is None:
            for i, (labs, _) in enumerate(flat):
                if None in labs: start = i; break
        if start is None: return
        try:
            for labs, x in flat[start:]: s.ex(x, env)
        except BrkEx: pass
    def loop(s, step, what):
        n = 0
        while True:
            n += 1
            if n > 300: raise ToolLimit('unbounded loop: ' + what)
            try:
                if not step(): return
            except BrkEx: return
            except CntEx: pass
    def s_While(s, n, env):
        inv = s.c.models.loop_contract(s, n, env)
        if inv: return inv()
        def cond():
            if n.get('var'): s.declare(n['var'], env)
            return s.c.decide(val(s.ev(n['c'], env)))
        s.c.models.while_loop(s, n, env, cond, lambda: s.ex(n['a'], env))
    def s_Do(s, n, env):
        first = [True]
        def step():
            if not first[0] and not s.c.decide(val(s.ev(n['c'], env))): return False
            first[0] = False
            s.ex(n['a'], env); return True
        s.loop(step, f'do at line {n["l"]}')
    def s_For(s, n, env):
        if n.get('init'): s.ex(n['init'], env)
        inv = s.c.models.loop_contract(s, n, env)
        if inv: return inv()
        if n.get('inc') is None:                 # a while loop written as a for loop
            return s.c.models.while_loop(s, n, env, lambda: n.get('c') is None or s.c.decide(val(s.ev(n['c'], env))), lambda: s.ex(n['a'], env))
        k = 0
        while True:
            k += 1
            if k > 300: raise ToolLimit(f'unbounded loop at line {n["l"]}')
            if n.get('c') is not None and not s.c.decide(val(s.ev(n['c'], env))): return
            try: s.ex(n['a'], env)
            except BrkEx: return
            except CntEx: pass
            if n.get('inc'): s.ev(n['inc'], env)
    def s_ForRange(s, n, env):
        r = s.ev(n['range'], env)
        rv = val(r)
        if isinstance(rv, Seq) or isinstance(rv, Obj):
            return s.c.models.seq_loop(s, n, env, rv)
        v = n['var']
        if isinstance(rv, Rope) and rv.lit() is not None:
            par = r if isinstance(r, Cell) else Cell(rv)
            rv = ListV([CharCell(par, i) for i in range(len(rv.lit()))])
        if not isinstance(rv, ListV): raise ToolLimit(f'range of {type(rv).__name__}')
        for it in rv.items:
            s.bindvar(v, it, env)
            try: s.ex(n['a'], env)
            except BrkEx: return
            except CntEx: pass
    def bindvar(s, v, x, env):
        if isref(v['t']): env[v['id']] = x if isinstance(x, (Cell, Obj)) else Cell(x)
        else: env[v['id']] = Cell(copyval(val(x)), v['name'])
        if v.get('bindings'):
            p = val(x)
            parts = [p.a, p.b] if isinstance(p, PairV) else list(p.f.values())
            for b, y in zip(v['bindings'], parts): env[b['id']] = y
    s_Case = s_Default = lambda s, n, env: s.ex(n['a'], env)
    # ---------- expressions
    def ev(s, e, env):
        k = e['k']
        return getattr(s, 'e_' + k)(e, env)
    def rv(s, e, env): return val(s.ev(e, env))
    def e_Load(s, e, env): return val(s.ev(e['e'], env))
    def e_Cast(s, e, env):
        ck = e['ck']
        v = s.ev(e['e'], env)
        if ck == 'ToVoid': return None
        x = val(v)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'): return tobool(x)
        if ck == 'NullToPointer': return NULL
        if ck in ('IntegralCast', 'BooleanToSignedIntegral', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'):
            if isinstance(x, bool): return int(x)
            if isz(x) and z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
            return x
        return v
    def e_Int(s, e, env): return int(e['v'])
    def e_Char(s, e, env): return int(e['v'])
    def e_Bool(s, e, env): return bool(e['v'])
    def e_Float(s, e, env): return float(e['v'])
    def e_Str(s, e, env): return Rope((e['v'],))
    def e_Null(s, e, env): return NULL
    def e_ZeroInit(s, e, env): return s.c.models.default(s, e['t'])
    def e_This(s, e, env): return env['this']
    def e_DefaultArg(s, e, env): return s.ev(e['e'], env)
    def e_Unsupported(s, e, env):
        if e.get('cls') == 'SourceLocExpr': return Opaque()
        raise ToolLimit('expression ' + e.get('cls', '?'))
    def e_Ref(s, e, env):
        d = e['d']; k = d['dk']
        if k == 'enum': return int(d['v'])
        if k in ('local', 'binding'):
            if d['id'] in env: return env[d['id']]
            raise ToolLimit('unbound local ' + d['name'])
        if k == 'func': return FuncV(d['callee'])
        if k == 'global': return s.global_(d, env)
        raise ToolLimit('reference to ' + d['q'])
    def global_(s, d, env):
        m = s.c.models.glob(s, d)
        if m is not None: return m
        key = (env.get('tu'), d['id'])
        if key in s.c.globals: return s.c.globals[key]
        g = s.c.prog.glob.get(key)
        if g is None or g.get('init') is None: raise ToolLimit('global ' + d['q'])
        c = Cell(copyval(val(s.ev(g['init'], {'tu': key[0]}))), d['name'])
        s.c.globals[key] = c
        return c
    def deref(s, p, what=''):
        if isinstance(p, (Cell, Obj)): return p
        if isinstance(p, Iter):
            l = val(p.c)
            if isinstance(l, ListV):
                if not 0 <= p.i < len(l.items): raise ToolLimit('iterator out of range')
                return l.items[p.i]
        if not isinstance(p, Ptr): raise ToolLimit('deref of ' + type(p).__name__)
        if p.nn is not True:
            s.c.oblige('null', p.nn, f'pointer is not null: {s.nm(p)} {what}')
        if p.to is None: raise Infeasible()
        return p.to
    def e_Member(s, e, env):
        b = s.ev(e['base'], env)
        if e.get('d'): return s.e_Ref({'d': e['d']}, env)
        o = s.deref(val(b), 'in ->' + e['name']) if e['arrow'] else b
        return s.member(o, e['name'], e['t'])
    def member(s, o, name, t):
        v = val(o)
        if isinstance(v, Struct):
            if name not in v.f: v.f[name] = Cell(s.c.models.default(s, t), name)
            c = v.f[name]
            if isinstance(c.v, (Obj,)) and isref(t): return c.v
            return c
        if isinstance(v, Obj):
            m = s.c.models.field(s, v, name, t)
            if m is not None: return m
            return s.opaque(f'{v.name}.{name}', t)
        if isinstance(v, PairV): return v.a if name == 'first' else v.b
        raise ToolLimit(f'member {name} of {type(v).__name__}')
    def e_Un(s, e, env):
        op = e['op']
        if op == '&':
            x = s.ev(e['e'], env)
            if isinstance(x, (Cell, Obj)): return Ptr(x, True)
            if isinstance(x, FuncV): return x
            raise ToolLimit('address of value')
        x = s.ev(e['e'], env)
        if op == '*': return s.deref(val(x))
        if op in ('++', '--'):
            old = val(x); d = 1 if op == '++' else -1
            if isinstance(old, Iter): new = Iter(old.c, old.i + d)
            else: new = old + d
            s.c.write(x, new)
            return old if e['post'] else x
        v = val(x)
        if op == '!':  return znot(tobool(v))
        if op == '-': return -v
        if op == '+': return v
        if op == '~':
            if isinstance(v, int): return ~v
        raise ToolLimit('unary ' + op)
    def e_Bin(s, e, env):
        op = e['op']
        if op in ('&&', '||'):
            a = tobool(s.rv(e['a'], env))
            if not isinstance(a, bool):
                a = z3.simplify(a)
                if z3.is_true(a) or z3.is_false(a): a = z3.is_true(a)
                else:
                    en = s.c.entailed(a)
                    if en is not None: a = en
            if isinstance(a, bool):
                if op == '&&' and not a: return False
                if op == '||' and a: return True
                return tobool(s.rv(e['b'], env))
            def go():
                if s.c.decide(a if op == '&&' else znot(a)): return tobool(s.rv(e['b'], env))
                return op == '||'
            return s.c.try_region(go)
        if op == ',':
            s.ev(e['a'], env); return s.ev(e['b'], env)
        if op == '=':
            b = s.rv(e['b'], env); a = s.ev(e['a'], env)
            return s.assign(a, b)
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            b = s.rv(e['b'], env); a = s.ev(e['a'], env)
            return s.assign(a, s.arith(op[:-1], val(a), b))
        a = s.rv(e['a'], env); b = s.rv(e['b'], env)
        return s.arith(op, a, b)
    def assign(s, a, b):
        if not isinstance(a, Cell): raise ToolLimit('assignment to opaque object')
        s.c.write(a, copyval(b)); return a
    def arith(s, op, a, b):
        if op in ('==', '!='):
            r = s.equal(a, b)
            return r if op == '==' else znot(r)
        if isinstance(a, Iter) and isinstance(b, Iter) and op == '-': return a.i - b.i
        if isinstance(a, Iter) and op in '+-': return Iter(a.c, a.i + (b if op == '+' else -b))
        if not (isint(a) or isbool(a) or isz(a) or isinstance(a, float)) or not (isint(b) or isbool(b) or isz(b) or isinstance(b, float)):
            raise ToolLimit(f'{type(a).__name__} {op} {type(b).__name__}')
        if isz(a) and z3.is_bool(a): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isz(b) and z3.is_bool(b): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '<': return a < b
        if op == '>': return a > b
        if op == '<=': return a <= b
        if op == '>=': return a >= b
        if op in ('/', '%'):
            s.c.oblige('div', (b != 0), 'division by zero')
            if isz(a) or isz(b):
                # C truncation, for a divisor known positive
                zb_ = zi(b); za = zi(a)
                q = z3.If(za >= 0, za / zb_, -((-za) / zb_))
                return q if op == '/' else za - zb_ * q
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
            return q if op == '/' else a - b * q
        if isinstance(a, int) and isinstance(b, int):
            if op == '&': return a & b
            if op == '|': return a | b
            if op == '^': return a ^ b
            if op == '<<': return a << b
            if op == '>>': return a >> b
        raise ToolLimit('operator ' + op)
    def equal(s, a, b):
        a, b = val(a), val(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Opt): # optional<T*> == T*
                return zand(a.has, s.equal(a.v, b))
            if isinstance(b, Opt): return zand(b.has, s.equal(b.v, a))
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise ToolLimit('pointer comparison')
            if b.to is None: return znot(a.nn)
            if a.to is None: return znot(b.nn)
            if a.to is b.to or (isinstance(a.to, Obj) and a.to == b.to):
                if same(a.nn, b.nn): return True
                return zb(a.nn) == zb(b.nn)
            if isinstance(a.to, Obj) and isinstance(b.to, Obj):
                n = sorted([a.to.name, b.to.name])
                same_ = z3.Bool('same(%s,%s)' % tuple(n))
                return zor(zand(a.nn, b.nn, same_), zand(znot(a.nn), znot(b.nn)))
            if isinstance(a.to, Cell) and isinstance(b.to, Cell): return False
            raise ToolLimit('pointer comparison')
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a == b: return True
            return z3.Bool('eq(%s,%s)' % tuple(sorted([a.name, b.name])))
        if isinstance(a, Rope) and isinstance(b, Rope):
            if a == b: return True
            la, lb = a.lit(), b.lit()
            if la is not None and lb is not None: return la == lb
            return s.rope_equal(a, b)
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.c is b.c: return a.i == b.i
            raise ToolLimit('iterators of different containers')
        if isinstance(a, Opt) and isinstance(b, Opt): raise ToolLimit('optional comparison')
        if isbool(a) and isbool(b):
            if isinstance(a, bool) and isinstance(b, bool): return a == b
            return zb(a) == zb(b)
        if (isint(a) or isbool(a) or isinstance(a, float) or isz(a)) and (isint(b) or isbool(b) or isinstance(b, float) or isz(b)):
            if isz(a) and z3.is_bool(a): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if isz(b) and z3.is_bool(b): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            return a == b
        if isinstance(a, ListV) and isinstance(b, ListV):
            if len(a.items) != len(b.items): return False
            return zand(*[s.equal(x, y) for x, y in zip(a.items, b.items)])
        raise ToolLimit(f'equality of {type(a).__name__} and {type(b).__name__}')
    def rope_equal(s, a, b):
        # lift Ites whose arms are concrete enough
        for x, y in ((a, b), (b, a)):
            for i, p in enumerate(x.p):
                if isinstance(p, IteP):
                    t = Rope(x.p[:i] + p.a.p + x.p[i+1:]); f = Rope(x.p[:i] + p.b.p + x.p[i+1:])
                    et, ef = s.equal(t, y), s.equal(f, y)
                    return zor(zand(p.c, et), zand(znot(p.c), ef))
        return z3.Bool('streq(%s)' % ','.join(sorted([repr(a), repr(b)])))
    def e_Cond(s, e, env):
        b = e['b']
        if b and b['k'] == 'Call' and b.get('callee', {}).get('n') == '__assert_fail':
            c = s.rv(e['c'], env)
            msg = ''
            try: msg = b['args'][0]['v'][:120]
            except Exception: pass
            s.c.oblige('assert', tobool(c), f'assert at {s.c.callstack[-1] if s.c.callstack else "?"}:{e["l"]}: {msg}')
            return None
        c = tobool(s.rv(e['c'], env))
        if not isinstance(c, bool):
            en = s.c.entailed(z3.simplify(c)) if not (z3.is_true(z3.simplify(c)) or z3.is_false(z3.simplify(c))) else z3.is_true(z3.simplify(c))
            if en is not None: c = en
        if isinstance(c, bool): return s.ev(e['a'] if c else e['b'], env)
        def go():
            return val(s.ev(e['a'] if s.c.decide(c) else e['b'], env))
        return s.c.try_region(go)
    def e_Index(s, e, env):
        a = s.ev(e['a'], env); i = s.rv(e['b'], env)
        return s.c.models.index(s, a, i)
    def e_InitList(s, e, env):
        r = s.c.prog.rec.get(bare(e['t']))
        vals = [copyval(s.rv(a, env)) for a in e['args']]
        if r:
            st = Struct(bare(e['t']))
            for f, v in zip(r['fields'], vals): st.f[f['name']] = Cell(v, f['name'])
            return st
        m = s.c.models.initlist(s, e, vals)
        if m is not None: return m
        if len(vals) == 1 and (bare(e['t']) in INTT or bare(e['t']) == 'bool'): return vals[0]
        return ListV(Cell(v) for v in vals)
    def e_Lambda(s, e, env):
        if e.get('body') is None: raise ToolLimit('generic lambda')
        ne = dict(env)
        for c in e['captures']:
            if 'id' in c and not c.get('byref') and c['id'] in env:
                x = env[c['id']]
                if isinstance(x, Cell): ne[c['id']] = Cell(copyval(x.v))
            if c.get('init') is not None:
                x = s.ev(c['init'], env); ne[c['id']] = Cell(copyval(val(x)))
        return LambdaV(e, ne, env.get('this'))
    def call_lambda(s, l, args):
        env = dict(l.env)
        for p, a in zip(l.node['params'], args):
            env[p['id']] = (a if isinstance(a, (Cell, Obj)) else Cell(a)) if isref(p['t']) else Cell(copyval(val(a)))
        r = s.run_body(l.node['body'], env)
        return r if isref(l.node.get('rt', '')) else val(r)
    def call_value(s, f, args):
        f = val(f)
        if isinstance(f, LambdaV): return s.call_lambda(f, args)
        if isinstance(f, FuncV): return s.invoke(f.callee, None, args, {}, {})
        raise ToolLimit('call of ' + type(f).__name__)
    # ---------- calls
    def args(s, e, env, skip=0): return [s.ev(a, env) for a in e['args'][skip:]]
    def e_Call(s, e, env):
        c = e.get('callee')
        if c is None:
            return s.call_value(s.ev(e['fn'], env), s.args(e, env))
        return s.invoke(c, None, s.args(e, env), e, env)
    def e_MCall(s, e, env):
        o = s.ev(e['obj'], env)
        if e['arrow']: o = s.deref(val(o), f'in call of {e["callee"]["n"]} line {e["l"]}')
        return s.invoke(e['callee'], o, s.args(e, env), e, env)
    def e_OpCall(s, e, env):
        c = e.get('callee')
        if c is None: raise ToolLimit('operator call')
        a = s.args(e, env)
        if 'cls' in c and not c.get('static'): 
            return s.invoke(c, a[0], a[1:], e, env)
        return s.invoke(c, None, a, e, env)
    def e_Construct(s, e, env):
        c = e['callee']; a = s.args(e, env)
        if (c.get('copy') or c.get('move')) and len(a) == 1:
            v = val(a[0])
            if c.get('move') and isinstance(a[0], Cell):
                s.c.models.moved(s, a[0])
                return v
            return copyval(v)
        m = s.c.models.construct(s, e, c, a)
        if m is not NotImplemented: return m
        f = s.c.prog.fn.get(c['key'])
        return s.construct(c, f, a, e)
    def construct(s, c, f, a, e):
        cls = c['cls']
        st = Struct(cls)
        rec = s.c.prog.rec.get(cls)
        if rec:
            for fl in rec['fields']:
                if fl.get('init') is not None:
                    st.f[fl['name']] = Cell(copyval(s.rv(fl['init'], {'this': None})), fl['name'])
                else:
                    st.f[fl['name']] = Cell(s.c.models.default(s, fl['t']), fl['name'])
        cell = Cell(st)
        if f is None:
            if not c.get('repo'): raise ToolLimit('constructor ' + c['q'])
            if not a: return st
            raise ToolLimit('constructor without body ' + c['q'])
        s.construct_into(cell, f, a)
        return cell.v
    def construct_into(s, cell, f, a):
        env = s.bind(f, Ptr(cell, True), a)
        s.c.callstack.append(f['q'])
        st = cell.v
        for i in f.get('inits', []):
            if i.get('field'):
                x = s.ev(i['e'], env) if i.get('e') is not None else None
                fld = st.f.get(i['field'])
                ft = ''
                rec = s.c.prog.rec.get(st.cls)
                if rec:
                    for fl in rec['fields']:
                        if fl['name'] == i['field']: ft = fl['t']
                if isref(ft) and isinstance(x, (Cell, Obj)):
                    st.f[i['field']] = x if isinstance(x, Cell) else Cell(x, i['field'])
                else:
                    v = copyval(val(x))
                    if fld is None: st.f[i['field']] = Cell(v, i['field'])
                    else: s.c.write(fld, v)
            elif i.get('base'):
                if i.get('e') is not None and i['e']['k'] == 'Construct':
                    bc = i['e']['callee']
                    bf = s.c.prog.fn.get(bc['key'])
                    if bf is not None:
                        s.construct_into(cell, bf, s.args(i['e'], env))
            elif i.get('e') is not None and i['e']['k'] == 'Construct' and i['e']['callee']['cls'] == st.cls:
                bf = s.c.prog.fn.get(i['e']['callee']['key'])   # delegating
                if bf is not None: s.construct_into(cell, bf, s.args(i['e'], env))
        if f.get('body'): s.run_body(f['body'], env)
        s.c.callstack.pop()
    def bind(s, f, this, a):
        env = {'this': this, 'tu': f.get('tu')}
        for i, p in enumerate(f['params']):
            if i >= len(a): raise ToolLimit('missing argument for ' + f['q'])
            x = a[i]
            if isref(p['t']): env[p['id']] = x if isinstance(x, (Cell, Obj)) else Cell(x, p['name'])
            else: env[p['id']] = Cell(s.conv(copyval(val(x)), p['t']), p['name'])
        return env
    def invoke(s, c, this, a, e, env):
        s.c.steps += 1
        if s.c.steps > s.MAXSTEPS: raise ToolLimit('step limit')
        ct = s.c.contracts.get(c['key']) or s.c.contracts.get(c['q'])
        if ct is not None:
            r = ct(s, c, this, a)
            if r is not NotImplemented: return r
        m = s.c.models.call(s, c, this, a, e)
        if m is not NotImplemented: return m
        f = s.c.prog.fn.get(c['key'])
        if f is not None and c.get('virtual') and isinstance(val(this), Struct) and not e.get('nonvirtual'):
            g = s.override(val(this).cls, f)
            if g: f = g
        if f is None or f.get('body') is None:
            if c.get('virtual') and isinstance(val(this), Struct):
                g = s.override(val(this).cls, c)
                if g: f = g
        if f is None or f.get('body') is None:
            return s.c.models.external(s, c, this, a, e)
        if this is None and len(a) == 1 and len(f['params']) == 1 and isstr(f['params'][0]['t']) and isstr(f['rt']) and s.branches(f):
            v = val(a[0])
            if isinstance(v, Rope) and v.lit() is None: return s.charmap(f, v)
        return s.call_fn(f, this, a)
    _cm = {}
    def charmap(s, f, v):
        """A function of a string with a loop, applied to text built of names of types: its contract is a map of
        characters, which is established by running the body on every character and on every name of a builtin type."""
        k = id(f)
        if k not in s._cm:
            def run(x):
                r = val(s.call_fn(f, None, [Cell(Rope((x,)))]))
                if not isinstance(r, Rope) or r.lit() is None: raise ToolLimit('result of ' + f['q'])
                return r.lit()
            m = {}
            for i in range(32, 127):
                o = run(chr(i))
                if len(o) != 1: raise ToolLimit('not a map of characters: ' + f['q'])
                if o != chr(i): m[chr(i)] = o
            if set(m) & set(m.values()): raise ToolLimit('map of characters: ' + f['q'])
            for n in TYPENAMES:
                for x in (n, 'volatile ' + n, 'const volatile ' + n):
                    if run(x) != ''.join(m.get(ch, ch) for ch in x): raise ToolLimit('not a map of characters: ' + f['q'])
            s._cm[k] = sorted(m.items())
        for p in s._cm[k]: v = rope_map(p, v)
        return v
    def override(s, cls, f):
        cls = cls.split('<')[0]
        for g in s.c.prog.byname.get(cls + '::' + f['n'], []):
            if len(g['params']) == len(f.get('params', f.get('pt'))): return g
        return None
    def call_fn(s, f, this, a):
        if len(s.c.callstack) > 60: raise ToolLimit('recursion')
        t = this
        if isinstance(this, (Cell, Obj)): t = Ptr(this, True)
        elif this is not None and not isinstance(this, Ptr): t = Ptr(Cell(this), True)
        def go():
            env = s.bind(f, t, a)
            s.c.callstack.append(f['q'])
            try:
                r = s.run_body(f['body'], env)
            finally:
                s.c.callstack.pop()
            return r if isref(f['rt']) else val(r)
        if f['rt'] == 'bool' and s.branches(f):
            k = s.memo_key(f, t, a)
            if k is not None:
                def run(sub):
                    it = type(s)(sub)
                    env = it.bind(f, t, a)
                    def body():
                        sub.callstack.append(f['q'])
                        try: return val(it.run_body(f['body'], dict(env)))
                        finally: sub.callstack.pop()
                    return sub.try_region(body)
                v = s.c.summary(k, run)
                if v is not None: return v
            return s.c.try_region(go)
        return go()
    def memo_key(s, f, t, a):
        "Identity of the inputs of a call, or None if they cannot be compared."
        out = [f['key']]
        def w(v, d):
            if d > 4: raise KeyError
            if isinstance(v, Cell): v = v.v
            if isz(v): out.append(ZK(v))
            elif isinstance(v, (bool, int, str, float)) or v is None: out.append(v)
            elif isinstance(v, Obj): out.append(('o', v.name))
            elif isinstance(v, Rope): out.append(v)
            elif isinstance(v, Ptr): out.append('p'); w(v.nn, d); w(v.to, d + 1)
            elif isinstance(v, Struct):
                out.append(v.cls)
                for n in sorted(v.f): out.append(n); w(v.f[n], d + 1)
            else: raise KeyError
        try:
            w(t, 0)
            for x in a: w(x, 0)
        except KeyError: return None
        return tuple(out)
    _br = {}
    def branches(s, f):
        k = id(f)
        r = s._br.get(k)
        if r is None:
            def w(n):
                if isinstance(n, dict):
                    if n.get('k') in ('If', 'Switch', 'While', 'For', 'ForRange'): return True
                    return any(w(v) for v in n.values())
                if isinstance(n, list): return any(w(v) for v in n)
                return False
            r = s._br[k] = w(f['body'])
        return r
    def e_New(s, e, env):
        v = s.ev(e['e'], env) if e.get('e') is not None else s.c.models.default(s, e['at'])
        return Ptr(Cell(copyval(val(v))), True)
    def e_Delete(s, e, env): return None
    def e_Throw(s, e, env): raise ToolLimit('throw')
    def e_Atomic(s, e, env): raise ToolLimit('atomic')
