"""Assumed contracts of the standard library, LLVM/clang and protobuf API used
by dredd.  This file is the trusted base of the proofs: every entry states what
a dependency's function does to the symbolic state."""
import re, z3
from core import *
from interp import sq, bare, isref, isptr, isstr, INTT

INC = '/usr/lib/llvm-17/include/clang/AST/'
def _hier():
    par = {}
    for f in ('StmtNodes.inc', 'DeclNodes.inc'):
        try: txt = open(INC + f).read()
        except OSError: continue
        for m in re.finditer(r'^(?:ABSTRACT_\w+\()?([A-Z]+[A-Z_0-9]*)\((\w+), (\w+)\)', txt, re.M):
            if m.group(1).endswith('RANGE'): continue
            c, p = m.group(2), m.group(3)
            if f.startswith('Decl'):
                par[c + 'Decl'] = 'Decl' if p == 'Decl' else p if p.endswith('Decl') else p + 'Decl'
            else: par[c] = p
    par.setdefault('Stmt', None); par.setdefault('Decl', None)
    return par
PAR = _hier()
def ancestors(c):
    out = []
    while c: out.append(c); c = PAR.get(c)
    return out

# builtin kinds, in clang's order (fixed-point kinds are neither integer nor floating)
KINDS = ['Bool', 'Char_U', 'UChar', 'WChar_U', 'Char8', 'Char16', 'Char32', 'UShort', 'UInt', 'ULong', 'ULongLong',
         'UInt128', 'Char_S', 'SChar', 'WChar_S', 'Short', 'Int', 'Long', 'LongLong', 'Int128',
         'Half', 'Float', 'Double', 'LongDouble', 'Float16', 'BFloat16', 'Float128', 'Ibm128', 'Other']
K = {k: i for i, k in enumerate(KINDS)}
def kind(t): return z3.Int('kind(%s)' % t)
def k_integer(k): return z3.And(k >= 0, k <= K['Int128'])
def k_signed(k): return z3.And(k >= K['Char_S'], k <= K['Int128'])
def k_unsigned(k): return z3.And(k >= 0, k <= K['UInt128'])
def k_float(k): return z3.And(k >= K['Half'], k <= K['Ibm128'])
def k_bool(k): return k == 0

PURE = re.compile(r'^(get|is|has|uses|refersTo|body|arguments|children|template_arguments|begin|end|size|empty|str|contains|capture|explicit_captures|decls|inits|IgnoreParen|IgnoreImp|operator bool|operator\*|operator->|type_|Is|Has|hasAttr|value|first|second)')
NONNULL = {'getLHS', 'getRHS', 'getSubExpr', 'getSubStmt', 'getAssertExpr', 'getSizeExpr', 'getTypePtr', 'getArg',
           'getBase', 'getDecl', 'getTypeSourceInfo', 'getAsArrayTypeUnsafe', 'getTranslationUnitDecl', 'getAsExpr',
           'getFileEntryForID', 'getStmtClassName', 'getCallee', 'getClient', 'getSubExprAsWritten', 'IgnoreParenImpCasts',
           'IgnoreParens', 'IgnoreImpCasts', 'IgnoreParenCasts'}
ENUMS = {'clang::BinaryOperatorKind', 'clang::UnaryOperatorKind', 'clang::TemplateArgument::ArgKind',
         'clang::UnaryExprOrTypeTrait', 'clang::Expr::NullPointerConstantKind', 'clang::tok::TokenKind',
         'clang::Expr::NullPointerConstantValueDependence', 'clang::BuiltinType::Kind', 'clang::CastKind',
         'clang::ExprValueKind', 'clang::DiagnosticsEngine::Level', 'clang::ExprObjectKind', 'clang::Stmt::StmtClass',
         'clang::StorageDuration', 'clang::ConstexprSpecKind'}

class Models:
    def __init__(s, prog, cfg=None):
        s.prog = prog
        s.cfg = cfg or {}
        s.table = dict(TABLE)
        s.loops = None
        s.extra = {}        # sq name -> fn(it, c, this, a)  (harness contracts)
        s.seqh = None
    def is_enum(s, b): return b in ENUMS
    def default(s, it, t):
        b = bare(t)
        if isptr(t): return NULL
        if b == 'bool': return Opaque()
        if b in INTT or b in ('double', 'float') or s.is_enum(b) or b in s.prog.enums: return Opaque()
        if isstr(t) or 'stringstream' in b or 'ostringstream' in b: return EMPTY
        if b.startswith(('std::vector<', 'std::array<', 'llvm::SmallVector<', 'std::initializer_list<', 'std::deque<')): return ListV()
        if b.startswith(('std::unordered_set<', 'std::set<', 'llvm::SmallPtrSet<', 'llvm::DenseSet<')): return SetV()
        if b.startswith('std::optional<'): return Opt(False, None)
        if b.startswith(('std::unique_ptr<', 'std::shared_ptr<')): return NULL
        if b.startswith('dredd::protobufs::'): return Struct(b)
        r = s.prog.rec.get(b)
        if r:
            st = Struct(b)
            for f in r['fields']:
                st.f[f['name']] = Cell(s.default(it, f['t']) if f.get('init') is None else copyval(it.rv(f['init'], {'this': None})), f['name'])
            return st
        return Opaque()
    def dtor(s, b):
        m = s.cfg.get('dtors')
        if m and b.startswith('std::optional<') and m.get(bare(b[len('std::optional<'):-1])):
            d = m[bare(b[len('std::optional<'):-1])]
            def f(it, cell):
                v = val(cell)
                if v.has is True: d(it, v.v)
                elif v.has is not False: raise ToolLimit('optional object of unknown presence')
            return f
        return m.get(b) if m else None
    def moved(s, it, cell):
        v = cell.v
        if isinstance(v, ListV): it.c.write(cell, type(v)())
        elif isinstance(v, Ptr): it.c.write(cell, NULL)
    def glob(s, it, d):
        g = s.cfg.get('globals', {}).get(d['q'])
        if g is not None: return g
        if d['q'] == 'std::nullopt': return Opt(False, None)
        if d['q'].endswith('::npos'): return -1
        return None
    def field(s, it, o, name, t):
        h = s.cfg.get('fields')
        if h and (o.name, name) in h: return h[(o.name, name)]
        return None
    def index(s, it, a, i):
        v = val(a)
        if isinstance(v, ListV) and isinstance(i, int):
            if not 0 <= i < len(v.items): raise ToolLimit('index out of range')
            return v.items[i]
        if isinstance(v, ListV) and isz(i):
            for k in range(len(v.items)):
                if it.c.decide(i == k): return v.items[k]
            raise ToolLimit('index')
        if isinstance(v, Rope) and v.lit() is not None and isinstance(i, int):
            return ord((v.lit() + '\0')[i])
        if isinstance(v, (Obj, Rope)): return z3.Int('char(%s,%s)' % (it.nm(v), it.nm(i)))
        raise ToolLimit('subscript of ' + type(v).__name__)
    def initlist(s, it, e, vals):
        b = bare(e['t'])
        if b.startswith('std::array<'):
            if len(vals) == 1 and isinstance(vals[0], ListV): return vals[0]
            return ListV(Cell(v) for v in vals)
        if b.startswith('clang::SourceLocation') and not vals: return Obj('invalidloc', 'clang::SourceLocation')
        if b in INTT and not vals: return 0
        return None
    def loop_contract(s, it, n, env):
        f = s.cfg.get('loop')
        return f(it, n, env) if f else None
    def while_loop(s, it, n, env, cond, body):
        return havoc_loop(it, n, env, cond, body, f'while at line {n["l"]}')
    def seq_loop(s, it, n, env, rng):
        f = s.cfg.get('seq_loop')
        if f: return f(it, n, env, rng)
        return generic_seq_loop(it, n, env, rng)
    # ------------------------------------------------------------------
    def construct(s, it, e, c, a):
        q = sq(c['q']); cls = bare(c['cls'])
        f = s.extra.get(q) or s.table.get(q)
        if f: 
            r = f(it, c, None, a)
            if r is not NotImplemented: return r
        if isstr(cls) or q.endswith('::basic_string'):
            return s.mkstr(it, a)
        if 'basic_stringstream' in cls or 'basic_ostringstream' in cls:
            return val(a[0]) if a and isinstance(val(a[0]), Rope) else EMPTY
        if cls.startswith('std::allocator'): return None
        if cls.startswith(('std::vector<', 'std::unordered_set<', 'std::set<', 'std::initializer_list<', 'llvm::SmallVector<', 'std::deque<', 'llvm::ArrayRef<')):
            kind_ = SetV if 'set<' in cls[:22] else ListV
            a = [x for x in a if x is not None and not isinstance(val(x), Opaque)]
            if not a: return kind_()
            v = val(a[0])
            if isinstance(v, ListV): return kind_(Cell(copyval(x.v)) for x in v.items)
            if isinstance(v, Iter) and len(a) >= 2:
                l = val(v.c)
                if isinstance(l, ListV): return kind_(Cell(copyval(x.v)) for x in l.items[v.i:val(a[1]).i])
            raise ToolLimit('constructor ' + q)
        if cls.startswith('std::optional<'):
            if not a: return Opt(False, None)
            v = val(a[0])
            return v if isinstance(v, Opt) else Opt(True, Cell(copyval(v)))
        if cls.startswith(('std::unique_ptr<', 'std::shared_ptr<')):
            if not a: return NULL
            v = val(a[0])
            if isinstance(a[0], Cell) and isinstance(v, Ptr) and c['pt'] and 'unique_ptr' in c['pt'][0]: it.c.write(a[0], NULL)
            return v
        if cls.startswith('std::pair<'):
            if len(a) == 2: return PairV(Cell(copyval(val(a[0]))), Cell(copyval(val(a[1]))))
            if len(a) == 1: return copyval(val(a[0]))
        if cls.startswith('dredd::protobufs::'):
            if not a: return Struct(cls)
            return copyval(val(a[0]))
        if cls.startswith('__gnu_cxx::__normal_iterator') and a: return val(a[0])
        if cls.startswith('std::function<') and a: return val(a[0])
        if not c.get('repo'):
            if cls.startswith(('clang::', 'llvm::', 'std::', 'google::')):
                if len(a) == 1 and isinstance(val(a[0]), Obj): return val(a[0])
                if len(a) == 0:
                    if cls in ('clang::SourceLocation', 'clang::SourceRange'): return Obj('invalid:' + cls, cls)
                    return Obj('default:' + cls, cls)
                return Obj(cls + '(' + ','.join(it.nm(x) for x in a) + ')', cls)
        return NotImplemented
    def mkstr(s, it, a):
        a = [x for x in a if x is not None and not isinstance(val(x), Opaque)]
        if not a: return EMPTY
        v = val(a[0])
        if isinstance(v, Rope): return v
        if isinstance(v, int) and len(a) == 2 and isinstance(val(a[1]), int): return Rope((chr(val(a[1])) * v,))
        raise ToolLimit('string constructor')
    # ------------------------------------------------------------------
    def call(s, it, c, this, a, e):
        q = sq(c['q'])
        f = s.extra.get(q) or s.extra.get(c['q'])
        if f:
            r = f(it, c, this, a)
            if r is not NotImplemented: return r
        if c.get('lambda') and isinstance(val(this), LambdaV): return it.call_lambda(val(this), a)
        if c.get('repo') or c.get('inl'):
            if it.c.prog.fn.get(c['key']) is not None and not isinstance(val(this), Obj): return NotImplemented
            if it.c.prog.fn.get(c['key']) is not None: return NotImplemented
        f = s.table.get(q)
        if f:
            r = f(it, c, this, a)
            if r is not NotImplemented: return r
        cls = bare(c.get('cls', ''))
        if cls.startswith('dredd::protobufs::'): return proto(it, c, this, a)
        if 'cls' in c and this is not None:
            v = val(this)
            if isinstance(v, Rope): return ropecall(it, c, this, a)
            if isinstance(v, ListV): return listcall(it, c, this, a)
            if isinstance(v, Iter): return itercall(it, c, this, a)
            if isinstance(v, Opt): return optcall(it, c, this, a)
            if isinstance(v, Ptr) and cls.startswith(('std::unique_ptr<', 'std::shared_ptr<')): return uptr(it, c, this, a)
            if isinstance(v, (LambdaV, FuncV)) and c['n'] == 'operator()': return it.call_value(v, a)
        return NotImplemented
    def external(s, it, c, this, a, e):
        q = sq(c['q']); n = c['n']
        if this is not None:
            v = val(this)
            if isinstance(v, Obj):
                if n == 'operator=' and isinstance(this, Cell):
                    it.c.write(this, val(a[0])); return this
                if n in ('operator==', 'operator!='):
                    r = it.equal(v, val(a[0])); return r if n == 'operator==' else znot(r)
                if PURE.match(n) and (c.get('cls', '').startswith(('clang::', 'llvm::', 'std::'))):
                    nm_ = n
                    if c.get('targs'): nm_ += '<' + ','.join(c['targs']) + '>'
                    args = [x for x in a if not canonical(it.nm(x))]
                    name = f'{v.name}.{nm_}' + ('(' + ','.join(it.nm(x) for x in args) + ')' if args else '')
                    return it.opaque(name, c['rt'], n in NONNULL)
            if isinstance(v, Seq):
                return it.opaque(f'{v.name}.{n}({",".join(it.nm(x) for x in a)})', c['rt'])
            if isinstance(v, Opaque) and n == 'operator=' and isinstance(this, Cell):
                it.c.write(this, copyval(val(a[0]))); return this
        elif q.startswith(('clang::', 'llvm::')) and (PURE.match(n) or n in PUREFN):
            args = [x for x in a if not canonical(it.nm(x))]
            return it.opaque(f'{n}(' + ','.join(it.nm(x) for x in args) + ')', c['rt'])
        raise ToolLimit(f'call of {c["q"]}')
PUREFN = {'MeasureTokenLength', 'maybeExtendRange'}
def canonical(n): return n in ('ASTContext', 'SourceManager', 'LangOpts', 'Preprocessor', 'PrintingPolicy', 'Opaque', 'null')

def extbase(n):
    "Strips range extensions, which keep the beginning of the range."
    while n.startswith('ext<'):
        n = n[n.index('>(') + 2:-1]
    return n
def havocval(it, v, tag, t=''):
    if isinstance(v, bool) or isz(v) and z3.is_bool(v): return z3.Bool(tag)
    if isint(v): return z3.Int(tag)
    if isinstance(v, Obj):
        if v.t == 'clang::CharSourceRange' or v.name.startswith('ext<'): return Obj('ext<*>(%s)' % extbase(v.name), v.t)
        return Obj(tag, v.t)
    if isinstance(v, Ptr) and isinstance(v.to, Obj): return Ptr(Obj(tag, v.to.t), v.nn)
    if isinstance(v, Opaque): return v
    raise ToolLimit('loop modifies a ' + type(v).__name__)
def havoc_ok(old, new):
    "The value the body leaves is an instance of the havoc'd one (the invariant is kept)."
    if isinstance(old, Obj) and old.name.startswith('ext<*>('): return isinstance(new, Obj) and extbase(new.name) == extbase(old.name)
    if isinstance(old, Ptr): return isinstance(new, Ptr) and isinstance(new.to, Obj) and (old.nn is not True or new.nn is True)
    if isinstance(old, Opaque): return True
    if isinstance(old, Obj): return isinstance(new, Obj)
    return (isbool(old) and isbool(new)) or (isint(old) and isint(new))
def havoc_loop(it, n, env, cond, body, what):
    """Sound rule for a loop of unknown length: the cells the body writes get
    arbitrary values (of the shape of their candidate invariant, which is checked
    to be inductive); the loop is then left normally, or by return/break from an
    arbitrary iteration.  `cond()` decides the guard or returns None (range for)."""
    c = it.c
    tag = 'loop%s@%s' % (n['l'], len(c.callstack))
    def collect():
        """All local runs of one iteration: [(how, writes)]"""
        reg = Region(); c.region.append(reg); runs = []
        outer = c.log
        i0 = len(c.out)
        try:
            todo = [[]]
            while todo:
                if len(runs) > 64: raise ToolLimit('loop body too large: ' + what)
                reg.start(todo.pop())
                log = {}; c.log = outer + [log]
                how = 'next'
                cs = len(c.callstack)
                try:
                    if cond() is False: how = 'exit'
                    else:
                        body()
                        for k in list(log):
                            if isinstance(k.v, Ptr) and isz(k.v.nn) and c.entailed(k.v.nn) is True: k.v = Ptr(k.v.to, True)
                except RetEx: how = 'ret'
                except BrkEx: how = 'brk'
                except CntEx: how = 'next'
                except Infeasible: how = 'dead'
                finally:
                    new = {k: k.v for k in log}
                    for k, o in log.items(): k.v = o
                    c.log = outer
                    del c.callstack[cs:]
                todo += reg.pending; reg.pending = []
                runs.append((how, new))
        finally:
            c.region.pop(); c.log = outer
        return runs
    import core
    known = set(id(x) for x in env.values() if isinstance(x, Cell))
    start = {}
    hav = {}
    for rnd in range(6):
        runs = collect()
        grew = False
        for how, new in runs:
            if how not in ('next',): continue
            for k, v in new.items():
                if k is c.effects: raise ToolLimit('loop with effects: ' + what)
                if k not in hav:
                    if id(k) not in known and k.name == '' : continue
                    start[k] = k.v; hav[k] = havocval(it, k.v, '%s.%s' % (tag, k.name)); grew = True
        if not grew:
            for how, new in runs:
                if how != 'next': continue
                for k, v in new.items():
                    if k in hav and not havoc_ok(hav[k], v): raise ToolLimit('loop invariant not kept: ' + what)
            break
        for k, v in hav.items(): c.write(k, v)
    else: raise ToolLimit('loop not summarised: ' + what)
    nxt = [new for h, new in runs if h == 'next']
    const = {k: nxt[0][k] for k in hav if nxt and all(k in n_ and type(n_[k]) in (bool, int) and n_[k] == nxt[0].get(k) for n_ in nxt)}
    if const:
        # at least one completed iteration, which leaves constants in these cells, or none
        if c.decide(z3.Bool('iterates(%s)' % tag)):
            for k, v in const.items(): c.write(k, v)
        else:
            for k in hav: c.write(k, start[k])
    hows = set(h for h, _ in runs)
    leave = hows & {'ret', 'brk'}
    if leave and c.decide(z3.Bool('leaves(%s)' % tag)):
        if cond() is False: raise Infeasible()
        try: body()
        except CntEx: pass
        except BrkEx: return
        raise Infeasible()
    if cond() not in (False, None): raise Infeasible()
def generic_seq_loop(it, n, env, rng):
    v = n['var']
    t = v['t']
    name = getattr(rng, 'name', '?')
    e = it.opaque('elem(%s)' % name, t, True)
    def body():
        it.bindvar(v, e, env)
        it.ex(n['a'], env)
    havoc_loop(it, n, env, lambda: None, body, f'for at line {n["l"]}')

# ---- strings
def rs(it, x):
    v = val(x)
    if isinstance(v, Rope): return v
    if isinstance(v, int) and not isinstance(v, bool): return Rope((chr(v),))
    if isinstance(v, Obj): return R(Hole('str:' + v.name))
    raise ToolLimit('string operand ' + type(v).__name__)
def minlen(r):
    n = 0
    for p in r.p:
        if isinstance(p, str): n += len(p)
        elif isinstance(p, IteP): n += min(minlen(p.a), minlen(p.b))
        else: n += 1
    return n
def ends_with(r, suf):
    "z3/py bool: rope ends with literal suf"
    if not suf: return True
    if not r.p: return False
    last = r.p[-1]
    if isinstance(last, str):
        if len(last) >= len(suf): return last.endswith(suf)
        if not suf.endswith(last): return False
        return ends_with(Rope(r.p[:-1]), suf[:-len(last)])
    if isinstance(last, IteP):
        return zor(zand(last.c, ends_with(Rope(r.p[:-1] + last.a.p), suf)), zand(znot(last.c), ends_with(Rope(r.p[:-1] + last.b.p), suf)))
    if isinstance(last, Hole) and last.name.startswith('tname:'):
        if re.fullmatch(r'[^A-Za-z0-9_]+', suf[-1]): return False     # a builtin type name ends in an identifier character
    return z3.Bool('endswith(%r,%r)' % (r, suf))
def starts_with(r, pre):
    if not pre: return True
    if not r.p: return False
    f = r.p[0]
    if isinstance(f, str):
        if len(f) >= len(pre): return f.startswith(pre)
        if not pre.startswith(f): return False
        return starts_with(Rope(r.p[1:]), pre[len(f):])
    if isinstance(f, IteP):
        return zor(zand(f.c, starts_with(Rope(f.a.p + r.p[1:]), pre)), zand(znot(f.c), starts_with(Rope(f.b.p + r.p[1:]), pre)))
    return z3.Bool('startswith(%r,%r)' % (r, pre))
def ropecall(it, c, this, a):
    n, v = c['n'], val(this)
    def upd(x): it.c.write(this, x); return this
    if n in ('operator+=', 'append'):
        if len(a) > 1 and isinstance(val(a[0]), int): return upd(v + Rope((chr(val(a[1])) * val(a[0]),)))
        return upd(v + rs(it, a[0]))
    if n == 'push_back': upd(v + rs(it, a[0])); return None
    if n in ('operator=', 'assign'): return upd(rs(it, a[0]))
    if n in ('str', 'c_str', 'data', 'string', 'operator basic_string_view', 'operator basic_string', 'view', 'rdbuf'):
        if n == 'str' and a: upd(rs(it, a[0])); return None
        return v
    if n == 'empty':
        l = v.lit()
        if l is not None: return l == ''
        return False if minlen(v) > 0 else z3.Bool('empty(%r)' % v)
    if n in ('size', 'length'):
        if v.lit() is not None: return len(v.lit())
        return z3.Int('len(%r)' % v)
    if n in ('ends_with', 'endswith'):
        l = rs(it, a[0]).lit()
        if l is not None: return ends_with(v, l)
    if n in ('starts_with', 'startswith'):
        l = rs(it, a[0]).lit()
        if l is not None: return starts_with(v, l)
    if n == 'back':
        if v.lit(): return ord(v.lit()[-1])
        if v.p and isinstance(v.p[-1], str): return ord(v.p[-1][-1])
        return z3.Int('back(%r)' % v)
    if n == 'clear': upd(EMPTY); return None
    if n == 'insert' and len(a) == 2 and val(a[0]) == 0: return upd(rs(it, a[1]) + v)
    if n == 'begin': return Iter(this if isinstance(this, Cell) else Cell(v), 0)
    if n == 'end': return Iter(this if isinstance(this, Cell) else Cell(v), -1)
    if n in ('reserve', 'shrink_to_fit', 'precision', 'width', 'setf', 'flush'): return None
    if n == 'operator<<':
        return stream_out(it, this, a[0], c['pt'][0] if c.get('pt') else '')
    if n in ('operator==', 'equals'): return it.equal(v, rs(it, a[0]))
    if n in ('operator!=',): return znot(it.equal(v, rs(it, a[0])))
    if n == 'substr':
        return R(Hole('substr(%r,%s)' % (v, ','.join(it.nm(x) for x in a))))
    if n == 'operator[]' or n == 'at': return z3.Int('char(%r,%s)' % (v, it.nm(a[0]))) if v.lit() is None else CharCell(this, val(a[0])) if isinstance(this, Cell) and isinstance(val(a[0]), int) and 0 <= val(a[0]) < len(v.lit()) else ord(v.lit()[val(a[0])])
    if n == 'find' and v.lit() is not None:
        x = val(a[0]); x = chr(x) if isinstance(x, int) else x.lit() if isinstance(x, Rope) else None
        if x is not None and all(isinstance(val(y), int) for y in a[1:2]):
            i = v.lit().find(x, *[val(y) for y in a[1:2]])
            return i                                      # npos is -1
    if n == 'replace' and v.lit() is not None and len(a) == 3 and isinstance(val(a[0]), int) and isinstance(val(a[1]), int) and isinstance(val(a[2]), Rope) and val(a[2]).lit() is not None:
        l = v.lit(); i = val(a[0]); return upd(Rope((l[:i] + val(a[2]).lit() + l[i + val(a[1]):],)))
    raise ToolLimit('string method ' + n)
def stream_out(it, st, x, pt=''):
    if isinstance(val(st), Obj): return st                       # llvm::errs() and the like
    v = val(x)
    if isinstance(v, Rope): r = v
    elif isinstance(v, bool): r = Rope(('1' if v else '0',))
    elif isinstance(v, int): r = Rope((chr(v),)) if bare(pt) == 'char' else Rope((str(v),))
    elif isz(v) and z3.is_int(v): r = R(IntP(v))
    elif isz(v) and z3.is_bool(v): r = rope_ite(v, Rope(('1',)), Rope(('0',)))
    elif isinstance(v, Ptr): r = R(Hole('addr:' + it.nm(v)))
    elif isinstance(v, FuncV): return st
    else: raise ToolLimit('stream output of ' + type(v).__name__)
    it.c.write(st, val(st) + r)
    return st
# ---- containers
def insert_elem(it, this, x):
    v = val(this); y = val(x)
    for k in v.items:
        try: q = it.equal(k.v, y)
        except ToolLimit: q = False
        if q is True: return PairV(Cell(Iter(this, v.items.index(k))), Cell(False))
        # undecided equality: keep both (a set of texts; duplicates are harmless)
    it.c.write(this, type(v)(v.items + (Cell(copyval(y)),)))
    return PairV(Cell(Iter(this, len(v.items))), Cell(True))
def member_of(it, items, y): return zor(*[it.equal(k.v, y) for k in items])
def listcall(it, c, this, a):
    n, v = c['n'], val(this)
    if isinstance(v, SetV):
        if n in ('insert', 'emplace'):
            if len(a) == 2 and isinstance(val(a[0]), Iter):
                src = val(val(a[0]).c)
                for k in src.items[val(a[0]).i:val(a[1]).i]: insert_elem(it, this, k)
                return None
            return insert_elem(it, this, a[0])
        if n == 'contains': return member_of(it, v.items, val(a[0]))
        if n == 'count': 
            m = member_of(it, v.items, val(a[0]))
            return int(m) if isinstance(m, bool) else z3.If(m, z3.IntVal(1), z3.IntVal(0))
        if n == 'find': return find(it, this, a[0])
    if n in ('push_back', 'emplace_back'):
        x = val(a[0])
        if isinstance(a[0], Cell) and isinstance(x, Ptr) and 'unique_ptr' in c['cls'] and c['pt'] and c['pt'][0].endswith('&&'):
            it.c.write(a[0], NULL)
        k = Cell(copyval(x))
        it.c.write(this, type(v)(v.items + (k,)))
        return k
    if n == 'size': return len(v.items)
    if n == 'empty': return not v.items
    if n in ('begin', 'cbegin'): return Iter(this if isinstance(this, Cell) else Cell(v), 0)
    if n in ('end', 'cend'): return Iter(this if isinstance(this, Cell) else Cell(v), len(v.items))
    if n == 'back':
        if not v.items: raise ToolLimit('back of empty')
        return v.items[-1]
    if n == 'front': return v.items[0]
    if n in ('operator[]', 'at'): return it.c.models.index(it, this, val(a[0]))
    if n == 'pop_back': it.c.write(this, type(v)(v.items[:-1])); return None
    if n == 'clear': it.c.write(this, type(v)()); return None
    if n == 'operator=':
        x = val(a[0])
        if c['pt'] and c['pt'][0].endswith('&&') and isinstance(a[0], Cell) and 'initializer_list' not in c['pt'][0]:
            it.c.write(a[0], type(x)()); it.c.write(this, type(v)(x.items)); return this
        it.c.write(this, type(v)(copyval(x).items)); return this
    if n == 'erase' and len(a) == 1 and isinstance(val(a[0]), Iter):
        i = val(a[0]).i
        it.c.write(this, type(v)(v.items[:i] + v.items[i+1:])); return Iter(this, i)
    if n == 'erase' and len(a) == 2:
        i, j = val(a[0]).i, val(a[1]).i
        it.c.write(this, type(v)(v.items[:i] + v.items[j:])); return Iter(this, i)
    if n == 'insert' and isinstance(val(a[0]), Iter):
        i = val(a[0]).i
        if len(a) == 2: new = (Cell(copyval(val(a[1]))),)
        elif isinstance(val(a[1]), Iter): new = tuple(Cell(copyval(k.v)) for k in val(val(a[1]).c).items[val(a[1]).i:val(a[2]).i])
        else: raise ToolLimit('vector insert')
        it.c.write(this, type(v)(v.items[:i] + new + v.items[i:])); return Iter(this, i)
    if n == 'reserve': return None
    if n == 'data': return this
    if n == 'contains': return member_of(it, v.items, val(a[0]))
    if n in ('operator==',): return it.equal(v, val(a[0]))
    raise ToolLimit('container method ' + n)
def itercall(it, c, this, a):
    n, v = c['n'], val(this)
    if n == 'operator*': return it.deref(v)
    if n == 'operator->':
        x = it.deref(v); return Ptr(x, True)
    if n in ('operator++', 'operator--'):
        d = 1 if n == 'operator++' else -1
        new = Iter(v.c, v.i + d)
        if isinstance(this, Cell): it.c.write(this, new)
        return v if a else (this if isinstance(this, Cell) else new)
    if n == 'operator=': it.c.write(this, val(a[0])); return this
    if n == 'operator+': return Iter(v.c, v.i + val(a[0]))
    if n == 'operator-': return Iter(v.c, v.i - val(a[0])) if isinstance(val(a[0]), int) else v.i - val(a[0]).i
    if n in ('operator==', 'operator!='):
        r = v.i == val(a[0]).i
        return r if n == 'operator==' else not r
    raise ToolLimit('iterator method ' + n)
def optcall(it, c, this, a):
    n, v = c['n'], val(this)
    if n in ('operator bool', 'has_value'): return v.has
    if n in ('value', 'operator*', 'operator->'):
        if v.has is not True: it.c.oblige('null', v.has, 'optional has a value')
        if v.v is None: raise Infeasible()
        x = v.v if not isinstance(v.v.v, Obj) else v.v.v
        return Ptr(x, True) if n == 'operator->' else x
    if n == 'operator=':
        x = val(a[0])
        it.c.write(this, x if isinstance(x, Opt) else Opt(True, Cell(copyval(x)))); return this
    if n in ('emplace', 'reset'):
        T = bare(c['cls'])[len('std::optional<'):-1].strip(); d = it.c.models.dtor(bare(T))
        if v.has is not False and d: raise ToolLimit('optional %s of a live object' % n)
        if n == 'reset': it.c.write(this, Opt(False, None)); return None
        fs = [f for f in it.c.prog.fn.values() if f['q'] == bare(T) + '::' + bare(T).split('::')[-1] and len(f['params']) == len(a)
              and not (len(a) == 1 and bare(f['params'][0]['t']) == bare(T))]
        if len(fs) == 1: x = it.construct({'cls': bare(T), 'q': fs[0]['q'], 'repo': True}, fs[0], a, None)
        elif not fs and len(a) == 1 and not it.c.prog.rec.get(bare(T)): x = copyval(val(a[0]))
        else: raise ToolLimit('optional emplace of ' + T)
        it.c.write(this, Opt(True, Cell(x))); return val(this).v
    raise ToolLimit('optional method ' + n)
def uptr(it, c, this, a):
    n, v = c['n'], val(this)
    if n in ('get', 'operator->'): return v
    if n == 'operator*': return it.deref(v)
    if n == 'operator bool': return v.nn
    if n == 'release': it.c.write(this, NULL); return v
    if n == 'reset': it.c.write(this, val(a[0]) if a else NULL); return None
    if n == 'operator=':
        x = val(a[0])
        if isinstance(a[0], Cell): it.c.write(a[0], NULL)
        it.c.write(this, x); return this
    raise ToolLimit('unique_ptr method ' + n)
def find(it, cont, x):
    v = val(cont)
    for i, k in enumerate(v.items):
        if it.c.decide(it.equal(k.v, val(x))): return Iter(cont, i)
    return Iter(cont, len(v.items))
# ---- protobuf messages
def proto(it, c, this, a):
    n = c['n']; st = val(this)
    if not isinstance(st, Struct): raise ToolLimit('protobuf ' + n)
    rt = c['rt']
    def fcell(f, mk):
        if f not in st.f: st.f[f] = Cell(None, f)
        cell = st.f[f]
        if cell.v is None or f not in st.present.v:
            it.c.write(cell, mk())
            it.c.write(st.present, st.present.v + (f,) if f not in st.present.v else st.present.v)
        return cell
    if n == 'operator=' or n in ('CopyFrom', 'MergeFrom'):
        o = val(a[0])
        if n == 'MergeFrom': raise ToolLimit('MergeFrom')
        it.c.write(this, o.copy()); return this
    if n in ('Clear',): it.c.write(this, Struct(st.cls)); return None
    if n.startswith('set_allocated_'):
        raise ToolLimit(n)
    if n.startswith('set_') and len(a) == 1:
        cell = fcell(n[4:], lambda: None)
        it.c.write(cell, copyval(val(a[0]))); return None
    if n.startswith('mutable_'):
        if isptr(rt) and isstr(rt): return Ptr(fcell(n[8:], lambda: EMPTY), True)
        if 'RepeatedPtrField' in rt or 'RepeatedField' in rt: return Ptr(fcell(n[8:], lambda: ListV()), True)
        return Ptr(fcell(n[8:], lambda: Struct(bare(rt))), True)
    if n.startswith('add_'):
        cell = fcell(n[4:], lambda: ListV())
        k = Cell(copyval(val(a[0])) if a else Struct(bare(rt)))
        it.c.write(cell, ListV(cell.v.items + (k,)))
        return Ptr(k, True) if not a else None
    if n.endswith('_size'):
        f = n[:-5]
        if f not in st.f or st.f[f].v is None: return 0
        l = st.f[f].v
        return len(l.items) if isinstance(l, ListV) else l
    if n.startswith('has_'): return n[4:] in st.present.v
    if n in st.f:
        v = st.f[n]
        if a and isinstance(v.v, ListV): return it.c.models.index(it, v, val(a[0]))
        return v
    if not a:
        return EMPTY if isstr(rt) else Struct(bare(rt)) if 'protobufs' in rt else 0
    raise ToolLimit('protobuf ' + n)

# ---- clang
TYPEPRED = {'isBooleanType': k_bool, 'isIntegerType': k_integer, 'isSignedIntegerType': k_signed,
            'isUnsignedIntegerType': k_unsigned, 'isFloatingType': k_float, 'isRealFloatingType': k_float,
            'isInteger': k_integer, 'isSignedInteger': k_signed, 'isUnsignedInteger': k_unsigned,
            'isFloatingPoint': k_float, 'isArithmeticType': lambda k: z3.Or(k_integer(k), k_float(k)),
            'isIntegralType': k_integer, 'isSpecificBuiltinType': None}
def tname(v): return v.name
def typepred(it, c, this, a):
    v = val(this)
    if not isinstance(v, Obj): return NotImplemented
    p = TYPEPRED[c['n']]
    if p is None: return NotImplemented
    t = v.name
    if bare(c['cls']) == 'clang::BuiltinType': return p(kind(t))
    return z3.If(z3.Bool('builtin(%s)' % t), p(kind(t)), z3.Bool('%s.%s' % (t, c['n'])))
def isa(it, o, T):
    T = bare(T).split('::')[-1]
    a = z3.Bool('isa(%s,%s)' % (o.name, T))
    st = (o.t or '').split('::')[-1]
    if st in PAR and T in ancestors(st): return True
    seen = it.c.memo.setdefault(('isa', o.name), [])
    if T not in seen and T in PAR:
        new = []
        for U in seen:
            b = z3.Bool('isa(%s,%s)' % (o.name, U))
            if U in ancestors(T): new.append(z3.Implies(a, b))
            elif T in ancestors(U): new.append(z3.Implies(b, a))
            elif not (set(ancestors(T)) & {U} or set(ancestors(U)) & {T}): new.append(z3.Not(z3.And(a, b)))
        if st in PAR and st not in ('Stmt', 'Decl') and T not in ancestors(st) and st not in ancestors(T):
            new.append(z3.Not(a))
        seen.append(T)
        for x in new: it.c.axioms = it.c.axioms + [x]
        if it.c.solver is not None:
            for x in new: it.c.solver.add(x)
    return a
def dyn_cast(it, c, this, a):
    p = val(a[0]); T = bare(c['targs'][0] if c.get('targs') else c['rt'])
    if isinstance(p, Obj): p = Ptr(p, True)
    if not isinstance(p, Ptr): raise ToolLimit('cast of ' + type(p).__name__)
    if p.to is None: return NULL
    if not isinstance(p.to, Obj): raise ToolLimit('cast of a local')
    n = c['n']
    if n.startswith('isa'):
        if len(c['targs']) < 2 or '?' in c['targs']: raise ToolLimit('isa with unknown template arguments')
        k = zor(*[isa(it, p.to, bare(U)) for U in c['targs'][:-1]])
        return zand(p.nn, k) if n != 'isa' else k
    k = isa(it, p.to, T)
    keep = p.to.t if (p.to.t or '').split('::')[-1] in PAR and T.split('::')[-1] in ancestors((p.to.t or '').split('::')[-1]) else T
    o = Obj(p.to.name, keep)
    if n == 'cast':
        it.c.oblige('cast', k, f'cast<{T}>({p.to.name})')
        return Ptr(o, p.nn) if isptr(c['rt']) else o
    return Ptr(o, zand(p.nn, k))
def getas(it, c, this, a):
    v = val(this)
    if not isinstance(v, Obj): return NotImplemented
    T = bare(c['rt'])
    if T == 'clang::BuiltinType': return Ptr(Obj(v.name, T), z3.Bool('builtin(%s)' % v.name))
    if isptr(c['rt']):
        return Ptr(Obj(v.name + '.as<' + T + '>', T), z3.Bool('as(%s,%s)' % (v.name, T)))
    return Obj(v.name + '.as<' + T + '>', T)
def opstr(kind_):
    def f(it, c, this, a):
        v = val(a[0])
        if isz(v):
            v = z3.simplify(v)
            if z3.is_int_value(v): v = v.as_long()
            else:
                raise ToolLimit('opcode string of a symbolic opcode')
        return Rope((it.c.prog.opstr[kind_][v] if isinstance(it.c.prog.opstr[kind_], list) else it.c.prog.opstr[kind_][str(v)],))
    return f
def const_obj(name, t=''):
    return lambda it, c, this, a: Obj(name, t)
def evalint(it, c, this, a):
    e = val(this).name
    ev = it.deref(a[0]) if isinstance(a[0], Ptr) else a[0]
    st = val(ev)
    v = z3.Int('ival(%s)' % e)
    if isinstance(ev, Cell):
        if not isinstance(st, Struct): st = Struct('clang::Expr::EvalResult'); it.c.write(ev, st)
        if 'Val' not in st.f: st.f['Val'] = Cell(Opaque(), 'Val')
        it.c.write(st.f['Val'], v)
    return z3.Bool('iconst(%s)' % e)
def evalfloat(it, c, this, a):
    e = val(this).name
    it.c.write(a[0], z3.Real('fval(%s)' % e))
    return z3.Bool('fconst(%s)' % e)
def evalbool(it, c, this, a):
    e = val(this).name
    it.c.write(a[0], z3.Bool('bval(%s)' % e))
    return z3.Bool('bconst(%s)' % e)
def mk_eval(it, c, this, a):
    st = Struct('clang::Expr::EvalResult'); st.f['Val'] = Cell(Opaque(), 'Val')
    return st
def rewriter(kind_):
    def f(it, c, this, a):
        args = tuple(val(x) for x in a)
        it.c.effect(kind_, *args)
        return False
    return f
def fplus(it, c, this, a):
    x, y = val(a[0]), val(a[1])
    if isinstance(x, Iter) or isinstance(y, Iter): return Iter(x.c, x.i + y)
    return rs(it, a[0]) + rs(it, a[1])
def alg(name):
    def f(it, c, this, a):
        b, e = val(a[0]), val(a[1])
        if isinstance(b, Ptr): b = b.to
        if not isinstance(b, Iter): raise ToolLimit('algorithm over ' + type(b).__name__)
        l = val(b.c)
        if isinstance(l, Rope):
            if name == 'replace':
                x, y = val(a[2]), val(a[3])
                it.c.write(b.c, rope_map((chr(x), chr(y)), l)); return None
            raise ToolLimit('algorithm on a string')
        items = l.items[b.i:e.i]
        if name == 'find':
            for i, k in enumerate(items):
                if it.c.decide(it.equal(k.v, val(a[2]))): return Iter(b.c, b.i + i)
            return Iter(b.c, e.i)
        if name == 'find_if':
            for i, k in enumerate(items):
                if it.c.decide(it.call_value(a[2], [k])): return Iter(b.c, b.i + i)
            return Iter(b.c, e.i)
        if name in ('any_of', 'all_of', 'none_of'):
            rs_ = [tobool(val(it.call_value(a[2], [k]))) for k in items]
            if name == 'any_of': return zor(*rs_)
            if name == 'all_of': return zand(*rs_)
            return znot(zor(*rs_))
        if name == 'for_each':
            for k in items: it.call_value(a[2], [k])
            return None
        if name == 'count':
            return sum(1 for k in items if it.c.decide(it.equal(k.v, val(a[2]))))
        if name == 'copy_if':
            out = a[2]
            for k in items:
                if it.c.decide(it.call_value(a[3], [k])): inserter_push(it, out, k)
            return out
        if name == 'remove_if':
            keep = [k for k in items if not it.c.decide(it.call_value(a[2], [k]))]
            n = len(keep)
            it.c.write(b.c, type(l)(l.items[:b.i] + tuple(keep) + tuple(Cell(Opaque()) for _ in range(len(items) - n)) + l.items[e.i:]))
            return Iter(b.c, b.i + n)
        raise ToolLimit('std::' + name)
    return f
def inserter_push(it, out, k):
    o = val(out)
    if isinstance(o, Struct) and o.cls == 'back_inserter':
        cont = o.f['c'].v.to
        it.c.write(cont, ListV(val(cont).items + (Cell(copyval(k.v)),)))
        return
    raise ToolLimit('output iterator')
def back_inserter(it, c, this, a):
    st = Struct('back_inserter'); st.f['c'] = Cell(Ptr(a[0], True)); return st
def make_unique(it, c, this, a):
    T = bare(c['targs'][0] if c.get('targs') else c['rt'].split('<', 1)[1].split(',')[0])
    short = T.split('::')[-1].split('<')[0]
    cands = [f for f in it.c.prog.byname.get(T + '::' + short, []) if f.get('ctor') and len(f['params']) == len(a)]
    h = it.c.models.extra.get('make_unique:' + T)
    if h: return h(it, c, this, a)
    st = Cell(it.c.models.default(it, T))
    if not isinstance(st.v, Struct): st.v = Struct(T)
    if cands: it.construct_into(st, cands[0], a)
    elif a: raise ToolLimit('make_unique<' + T + '>')
    return Ptr(st, True)
def ident(it, c, this, a): return a[0]
def tostring(it, c, this, a):
    v = val(a[0])
    if isinstance(v, int): return Rope((str(v),))
    if isz(v): return R(IntP(v))
    raise ToolLimit('to_string')
def shl(it, c, this, a): return stream_out(it, a[0], a[1], c['pt'][1] if len(c.get('pt', [])) > 1 else '')
def eqop(it, c, this, a):
    r = it.equal(a[0], a[1]); return r if c['n'] == 'operator==' else znot(r)
def mk_getopcode(it, c, this, a):
    o = val(this)
    k = it.c.models.cfg.get('opcode', {}).get(o.name)
    if k is not None: return k
    return z3.Int('opcode(%s)' % o.name)
def lvalue(it, c, this, a): return z3.Bool('lvalue(%s)' % val(this).name)
def cs_begin(it, c, this, a):
    return Obj('%s.getBegin' % extbase(val(this).name), 'clang::SourceLocation')
def extend(it, c, this, a):
    r = val(a[0]); tok = it.nm(a[1])
    if not isinstance(r, Obj): return NotImplemented
    if r.name.startswith('ext<*>(') : return Obj('ext<%s>(%s)' % (tok, r.name), 'clang::CharSourceRange')
    return Obj('ext<%s>(%s)' % (tok, r.name), 'clang::CharSourceRange')
def rawtoken(it, c, this, a):
    "Lexer::getRawToken(loc, token&, ...): sets the token to the one at loc."
    ws = val(a[4]) if len(a) > 4 else False
    n = 'rawtok%s(%s)' % ('ws' if ws is True else '', it.nm(a[0]))
    if isinstance(a[1], Cell): it.c.write(a[1], Obj(n, 'clang::Token'))
    else: return NotImplemented
    return z3.Bool('fails(%s)' % n)
def toklen(it, c, this, a):
    n = val(this).name
    if n.startswith('rawtok('): return z3.Int('MeasureTokenLength(%s)' % n[7:-1])
    return NotImplemented
TABLE = {
    'clang::Lexer::getRawToken': rawtoken, 'clang::Token::getLength': toklen,
    'clang::CharSourceRange::getTokenRange': lambda it, c, this, a: Obj(val(a[0]).name, 'clang::CharSourceRange') if len(a) == 1 else NotImplemented,
    'clang::CharSourceRange::isTokenRange': lambda it, c, this, a: True,
    'clang::CharSourceRange::getBegin': cs_begin, 'clang::CharSourceRange::getAsRange': lambda it, c, this, a: Obj(val(this).name, 'clang::SourceRange'),
    'clang::SourceRange::getBegin': cs_begin,
    'clang::SourceRange::isInvalid': lambda it, c, this, a: z3.Not(z3.Bool(val(this).name + '.isValid')), 'clang::SourceLocation::isInvalid': lambda it, c, this, a: z3.Not(z3.Bool(val(this).name + '.isValid')),
    'clang::SourceRange::isValid': lambda it, c, this, a: z3.Bool(val(this).name + '.isValid'), 'clang::SourceLocation::isValid': lambda it, c, this, a: z3.Bool(val(this).name + '.isValid'),
    'clang::tooling::maybeExtendRange': extend,
    'std::operator+': fplus, 'std::operator<<': shl, 'llvm::raw_ostream::operator<<': lambda it, c, this, a: this,
    'std::operator==': eqop, 'std::operator!=': eqop, '__gnu_cxx::operator==': eqop, '__gnu_cxx::operator!=': eqop,
    'std::__detail::operator==': eqop, 'std::__detail::operator!=': eqop, 'clang::operator==': eqop, 'clang::operator!=': eqop,
    'llvm::operator==': eqop, 'llvm::operator!=': eqop, 'clang::SourceRange::operator==': lambda it, c, this, a: it.equal(this, a[0]),
    'clang::SourceRange::operator!=': lambda it, c, this, a: znot(it.equal(this, a[0])),
    '__gnu_cxx::operator-': lambda it, c, this, a: it.arith('-', val(a[0]), val(a[1])),
    'std::to_string': tostring, 'std::move': ident, 'std::forward': ident, 'std::as_const': ident, 'std::ref': ident, 'std::cref': ident,
    'std::find': alg('find'), 'std::find_if': alg('find_if'), 'std::any_of': alg('any_of'), 'std::all_of': alg('all_of'),
    'std::none_of': alg('none_of'), 'std::for_each': alg('for_each'), 'std::replace': alg('replace'), 'std::count': alg('count'),
    'std::copy_if': alg('copy_if'), 'std::remove_if': alg('remove_if'), 'std::back_inserter': back_inserter,
    'std::begin': lambda it, c, this, a: listcall(it, dict(c, n='begin'), a[0], []), 'std::end': lambda it, c, this, a: listcall(it, dict(c, n='end'), a[0], []),
    'std::make_unique': make_unique, 'std::make_pair': lambda it, c, this, a: PairV(Cell(copyval(val(a[0]))), Cell(copyval(val(a[1])))),
    'llvm::dyn_cast': dyn_cast, 'llvm::dyn_cast_or_null': dyn_cast, 'llvm::dyn_cast_if_present': dyn_cast, 'llvm::isa': dyn_cast,
    'llvm::cast': dyn_cast, 'llvm::isa_and_nonnull': dyn_cast, 'llvm::isa_and_present': dyn_cast,
    'clang::DynTypedNode::get': lambda it, c, this, a: dyn_cast(it, dict(c, n='dyn_cast', targs=[bare(c['rt'])]), None, [Ptr(val(this), True)]),
    'clang::Type::getAs': getas, 'clang::Type::castAs': lambda it, c, this, a: Ptr(getas(it, c, this, a).to, True),
    'clang::QualType::operator->': lambda it, c, this, a: Ptr(Obj(val(this).name, 'clang::Type'), True),
    'clang::QualType::getTypePtr': lambda it, c, this, a: Ptr(Obj(val(this).name, 'clang::Type'), True),
    'clang::QualType::operator*': lambda it, c, this, a: Obj(val(this).name, 'clang::Type'),
    'clang::QualType::isNull': lambda it, c, this, a: z3.Bool('nulltype(%s)' % val(this).name),
    'clang::QualType::isVolatileQualified': lambda it, c, this, a: z3.Bool('volatile(%s)' % val(this).name),
    'clang::QualType::isConstQualified': lambda it, c, this, a: z3.Bool('const(%s)' % val(this).name),
    'clang::Expr::getType': lambda it, c, this, a: Obj('type(%s)' % val(this).name, 'clang::QualType'),
    'clang::ValueDecl::getType': lambda it, c, this, a: Obj('type(%s)' % val(this).name, 'clang::QualType'),
    'clang::Expr::isLValue': lvalue, 'clang::Expr::isGLValue': lvalue,
    'clang::Expr::isPRValue': lambda it, c, this, a: z3.Not(z3.Bool('lvalue(%s)' % val(this).name)),
    'clang::Expr::HasSideEffects': lambda it, c, this, a: z3.Bool('sideeffects(%s)' % val(this).name),
    'clang::Expr::refersToBitField': lambda it, c, this, a: z3.Bool('bitfield(%s)' % val(this).name),
    'clang::Expr::isValueDependent': lambda it, c, this, a: z3.Bool('valuedependent(%s)' % val(this).name),
    'clang::Expr::EvaluateAsInt': evalint, 'clang::Expr::EvaluateAsFloat': evalfloat, 'clang::Expr::EvaluateAsBooleanCondition': evalbool,
    'clang::Expr::isCXX11ConstantExpr': lambda it, c, this, a: z3.Bool('cxx11const(%s)' % val(this).name),
    'clang::Expr::EvalResult::EvalResult': mk_eval,
    'clang::APValue::getInt': lambda it, c, this, a: val(this),
    'llvm::APSInt::get': lambda it, c, this, a: val(a[0]),
    'llvm::APSInt::isSameValue': lambda it, c, this, a: it.equal(val(a[0]), val(a[1])),
    'llvm::APFloat::APFloat': lambda it, c, this, a: float(val(a[0])) if isinstance(val(a[0]), (int, float)) else val(a[0]),
    'llvm::APFloat::isExactlyValue': lambda it, c, this, a: it.equal(val(this), val(a[0])),
    'llvm::APFloat::operator==': lambda it, c, this, a: it.equal(val(this), val(a[0])),
    'clang::BuiltinType::getName': lambda it, c, this, a: R(Hole('tname:' + val(this).name)),
    'clang::BuiltinType::getNameAsCString': lambda it, c, this, a: R(Hole('tname:' + val(this).name)),
    'clang::BinaryOperator::getOpcodeStr': lambda it, c, this, a: opstr('binary')(it, c, this, a if a else [mk_getopcode(it, c, this, a)]),
    'clang::UnaryOperator::getOpcodeStr': opstr('unary'),
    'clang::BinaryOperator::getOpcode': mk_getopcode, 'clang::UnaryOperator::getOpcode': mk_getopcode,
    'clang::BinaryOperator::getLHS': lambda it, c, this, a: Ptr(Obj('lhs(%s)' % val(this).name, 'clang::Expr'), True),
    'clang::BinaryOperator::getRHS': lambda it, c, this, a: Ptr(Obj('rhs(%s)' % val(this).name, 'clang::Expr'), True),
    'clang::UnaryOperator::getSubExpr': lambda it, c, this, a: Ptr(Obj('sub(%s)' % val(this).name, 'clang::Expr'), True),
    'clang::ASTContext::getLangOpts': const_obj('LangOpts'), 'clang::Preprocessor::getLangOpts': const_obj('LangOpts'),
    'clang::CompilerInstance::getLangOpts': const_obj('LangOpts'),
    'clang::ASTContext::getSourceManager': const_obj('SourceManager'), 'clang::Preprocessor::getSourceManager': const_obj('SourceManager'),
    'clang::CompilerInstance::getSourceManager': const_obj('SourceManager'), 'clang::Rewriter::getSourceMgr': const_obj('SourceManager'),
    'clang::CompilerInstance::getASTContext': const_obj('ASTContext'), 'clang::CompilerInstance::getPreprocessor': const_obj('Preprocessor'),
    'clang::ASTContext::getPrintingPolicy': const_obj('PrintingPolicy'),
    'clang::Rewriter::InsertTextBefore': rewriter('InsertBefore'), 'clang::Rewriter::InsertTextAfterToken': rewriter('InsertAfterToken'),
    'clang::Rewriter::ReplaceText': rewriter('Replace'), 'clang::Rewriter::InsertTextAfter': rewriter('InsertAfter'),
    'clang::Rewriter::InsertText': rewriter('Insert'), 'clang::Rewriter::RemoveText': rewriter('Remove'),
    'llvm::errs': const_obj('errs'), 'llvm::outs': const_obj('errs'),
    'std::basic_ostream::operator<<': lambda it, c, this, a: stream_out(it, this, a[0], c['pt'][0]),
    'llvm::StringRef::StringRef': lambda it, c, this, a: rs(it, a[0]) if a else EMPTY,
    '__assert_fail': lambda it, c, this, a: it.c.oblige('assert', False, 'assertion failure'),
}
for n in TYPEPRED:
    TABLE['clang::Type::' + n] = typepred
    TABLE['clang::BuiltinType::' + n] = typepred
