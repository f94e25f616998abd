"""C08, C11, C12: contracts of MutateAstConsumer, of the frontend action, of the
diagnostic consumer and of GetSourceRangeInMainFile (C09)."""
import re, z3
from core import *
import interp, models
from interp import Interp, bare, isptr
from models import Models
from mutharness import mk_options, norm_range
from visitor import Post, EndIter, isa, B, rngok
AC = 'dredd::MutateAstConsumer'
Z = z3.Int
def noregion(it):
    if it.c.region: raise NeedFork()
def execute(prog, q, this, args, cxx=True, extra=None, cfg=None, pre=(), maxpaths=2000, track=False, show=False):
    f = prog.find(q) if isinstance(q, str) else q
    if not f or f.get('body') is None: raise ToolLimit('no ' + q)
    out = []
    def make(prefix):
        c_ = {'fields': {('LangOpts', 'CPlusPlus'): cxx}, 'opcode': {}, 'dtors': {}}; c_.update(cfg or {})
        m = Models(prog, c_); m.extra.update(mk_options(True, track, show)); m.extra['dredd::GetSourceRangeInMainFile'] = norm_range
        m.extra.update(extra or {})
        c = Ctx(prog, m, list(pre), prefix); c.summaries = {}
        return c
    def run(ctx):
        it = Interp(ctx)
        st = this(it, ctx)
        a = args(it, ctx, f)
        try: r = it.call_fn(f, st, a)
        except EndIter: r = 'iteration'
        return dict(effects=ctx.effects.v, ret=r, this=st)
    return [(c, r) for c, r in explore(make, run, maxpaths) if r is not None and c.sat()]
def consumer(it, ctx, mid='id0', info=None):
    st = Cell(Struct(AC))
    for fl in it.c.prog.rec[AC]['fields']:
        b = bare(fl['t'])
        if fl['name'] == 'compiler_instance_': v = Ptr(Obj('CompilerInstance', 'clang::CompilerInstance'), True)
        elif fl['name'] == 'options_': v = Ptr(Obj('Options', 'dredd::Options'), True)
        elif fl['name'] == 'visitor_': v = Ptr(Obj('visitor', 'dredd::MutateVisitor'), True)
        elif fl['name'] == 'rewriter_': v = Obj('rewriter', 'clang::Rewriter')
        elif fl['name'] == 'mutation_id_': v = Ptr(Cell(Z(mid), 'mutation_id'), True)
        elif fl['name'] == 'mutation_info_': v = Ptr(Cell(info if info is not None else Opt(B('info'), Cell(Struct('dredd::protobufs::MutationInfo'), 'info')), 'mutation_info'), True)
        else: raise ToolLimit('field ' + fl['name'])
        st.v.f[fl['name']] = Cell(v, fl['name'])
    return st
def one_iteration(it, n, env, rng):
    "An arbitrary iteration (the path ends with it) or none; sets of the enclosing function are arbitrary."
    noregion(it)
    if not it.c.decide(B('iteration@%s' % n['l'])): return
    for k, c in list(env.items()):
        if isinstance(c, Cell) and isinstance(c.v, ListV) and c.name and k != 'this': it.c.write(c, Obj('set:' + c.name, ''))
    e = it.opaque('elem(%s)' % getattr(rng, 'name', '?'), n['var']['t'], True)
    it.c.effect('iteration', getattr(rng, 'name', '?'), it.nm(e))
    it.bindvar(n['var'], e, env)
    try: it.ex(n['a'], env)
    except CntEx: pass
    except BrkEx: it.c.effect('break'); return
    raise EndIter()
def set_ops(it, c, this, a):
    v = val(this)
    if not isinstance(v, Obj) or not v.name.startswith('set:'): return NotImplemented
    n = c['n']
    if n in ('contains', 'count'):
        b = B('in(%s,%s)' % (it.nm(a[0]), v.name)); return b if n == 'contains' else z3.If(b, 1, 0)
    if n in ('insert', 'emplace'):
        b = B('in(%s,%s)' % (it.nm(a[0]), v.name))
        it.c.effect('insert', v.name, it.nm(a[0])); return PairV(Cell(Obj('it', '')), Cell(z3.Not(b)))
    raise ToolLimit('set operation ' + n)
SETS = {'std::%s::%s' % (s, o): set_ops for s in ('set', 'unordered_set') for o in ('contains', 'insert', 'count', 'emplace')}
# ---- C11
def to_constant(prog, cxx, opt, res):
    fn = 'RewriteExpressionInMainFileToIntegerConstant'
    P = Post(res, fn); n = 0
    u, neg = Z('u'), B('neg')
    def args(it, ctx, f):
        if len(f['params']) != 3: raise ToolLimit('parameters of ' + fn)
        return [Ptr(Obj('X', 'clang::Expr'), True), u, neg]
    recs = execute(prog, AC + '::' + fn, consumer, args, cxx, pre=[u >= 0, u < 2**64, z3.Implies(neg, z3.And(u >= 1, u <= 2**63))])
    for c, r in recs:
        n += 1
        ed = [e for e in r['effects'] if e[0] not in ('iteration',)]
        if not ed: P.need(c, 'C11', 'an expression written in full in the main file is replaced', z3.Not(rngok('X'))); continue
        P.need(c, 'C11', 'an expression is replaced at most once, by nothing but the literal', len(ed) == 1 and ed[0][0] == 'Replace')
        P.need(c, 'C11', 'only expressions written in full in the main file are replaced', rngok('X'))
        if len(ed) != 1 or ed[0][0] != 'Replace': continue
        P.need(c, 'C11', 'the expression itself is replaced', base_name(ed[0][1]) == 'R(X)', str(ed[0][1]))
        for cond, rope in flatten(ed[0][2]):
            v, side = literal(rope)
            P.need(c, 'C11', 'the literal denotes the given value', z3.Implies(cond, z3.And(v == z3.If(neg, -u, u), side)), str(ed[0][2])[:200])
    return n, recs
def base_name(x):
    x = val(x) if not isinstance(x, str) else x
    return getattr(x, 'name', str(x))
def flatten(rope):
    "The texts a rope with conditional pieces can be, with their conditions."
    out = [(z3.BoolVal(True), ())]
    for p in rope.p:
        if isinstance(p, IteP): out = [(z3.And(c, d), t + r.p) for c, t in out for b, x in ((p.c, p.a), (z3.Not(p.c), p.b)) for d, r in [(z3.And(b, k), y) for k, y in flatten(x)]]
        else: out = [(c, t + (p,)) for c, t in out]
    return [(c, Rope(t)) for c, t in out]
def literal(rope):
    """Value of the emitted text as a constant expression, and the condition that each
    literal in it has a type (decimal literals above 2^63-1 are unsigned, so they must
    not be negated)."""
    toks = []
    for p in rope.p if hasattr(rope, 'p') else rope.parts:
        if isinstance(p, str): toks += re.findall(r'\d+|[-+()]|\S', p)
        else: toks.append(num(p))
    pos = [0]; side = []
    def peek(): return toks[pos[0]] if pos[0] < len(toks) else None
    def nxt(): pos[0] += 1; return toks[pos[0] - 1]
    def atom():
        t = peek()
        if isinstance(t, str) and t == '-':
            nxt(); v, lit = atom()
            side.append(v < 2**63)
            return -v, None
        if isinstance(t, str) and t == '(':
            nxt(); v = expr()
            if nxt() != ')': raise ToolLimit('literal text')
            return v, None
        if t is None or (isinstance(t, str) and not t.isdigit()): raise ToolLimit('literal text')
        nxt()
        v = z3.IntVal(int(t)) if isinstance(t, str) else t
        side.append(v >= 0)     # a hole that prints a negative number is no literal
        return v, True
    def expr():
        v, _ = atom()
        while isinstance(peek(), str) and peek() in '+-':
            op = nxt(); w, _ = atom(); side.append(z3.And(v < 2**63, w < 2**63)); v = v + w if op == '+' else v - w
            side.append(z3.And(v >= -2**63, v < 2**63))
        return v
    v = expr()
    if pos[0] != len(toks): raise ToolLimit('literal text')
    return v, z3.And(*side)
def num(p):
    v = getattr(p, 'e', None)
    if v is None: v = getattr(p, 'v', None)
    if v is None or not (isz(v) or isinstance(v, int)): raise ToolLimit('literal text %r' % (p,))
    return v if isz(v) else z3.IntVal(v)
def leaves(e):
    if not isz(e): return []
    if z3.is_const(e): return [] if z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e) else [e]
    out = []
    for x in e.children(): out += [y for y in leaves(x) if not any(z3.eq(y, z) for z in out)]
    return out
def rewrite_all(prog, cxx, opt, res):
    """The recorded arrays, static assertions and arguments. Loop contract of the loop
    over nested arrays: `typeloc` is the location of the declared type or of the
    element type of the array rewritten before."""
    P = Post(res, 'RewriteExpressionsInMainFile'); n = 0
    def rw(it, c, this, a):
        noregion(it)
        it.c.effect('rewrite', it.nm(a[0]), val(a[1]), val(a[2]) if len(a) > 2 else False); return B('rewritten')
    def loop(it, nd, env):
        if nd['k'] != 'While': return None
        def go():
            noregion(it)
            cells = [(k, c) for k, c in env.items() if isinstance(c, Cell) and c.name and isinstance(c.v, Obj) and 'TypeLoc' in c.v.t]
            if len(cells) != 1: raise ToolLimit('loop over nested arrays')
            x = cells[0][1]
            it.c.effect('start', x.v.name)
            it.c.write(x, Obj('TL', x.v.t))
            if nd.get('var'): it.declare(nd['var'], env)
            if not it.c.decide(val(it.ev(nd['c'], env))): raise EndIter()
            k = len(it.c.effects.v)
            try: it.ex(nd['a'], env)
            except CntEx: pass
            except BrkEx:
                if len(it.c.effects.v) == k: raise EndIter()
                it.c.effect('step', 'none'); raise EndIter()
            it.c.effect('step', x.v.name)
            raise EndIter()
        return go
    def limited(it, c, this, a):
        v = Z(it.nm(this)) if isinstance(val(this), Obj) else val(this)
        lim = val(a[0]) if a else 2**64 - 1
        if isinstance(lim, int) and lim < 0: lim += 2**64
        if not isinstance(lim, int) and not isz(lim): raise ToolLimit('limit of getLimitedValue')
        w = z3.If(v < 0, v + 2**64, v)
        return z3.If(w > lim, lim, w)
    def zext(it, c, this, a):
        v = Z(it.nm(this)) if isinstance(val(this), Obj) else val(this)
        return z3.If(v < 0, v + 2**64, v)
    extra = {AC + '::RewriteExpressionInMainFileToIntegerConstant': rw}; extra.update(SETS)
    extra['llvm::APInt::getLimitedValue'] = limited
    extra['llvm::APSInt::isNegative'] = extra['llvm::APInt::isNegative'] = lambda it, c, this, a: Z(it.nm(this)) < 0 if isinstance(val(this), Obj) else val(this) < 0
    extra['llvm::APSInt::operator-'] = extra['llvm::APInt::operator-'] = lambda it, c, this, a: -Z(it.nm(this)) if not a and isinstance(val(this), Obj) else NotImplemented
    extra['llvm::APInt::getZExtValue'] = zext
    extra['llvm::APInt::getSExtValue'] = lambda it, c, this, a: Z(it.nm(this)) if isinstance(val(this), Obj) else val(this)
    recs = execute(prog, AC + '::RewriteExpressionsInMainFile', consumer, lambda it, ctx, f: [], cxx, extra=extra, cfg={'seq_loop': one_iteration, 'loop': loop})
    for c, r in recs:
        its = [e for e in r['effects'] if e[0] == 'iteration']
        if not its: continue
        src, el = its[-1][1], its[-1][2]
        low = re.sub(r'(?<=[a-z])(?=[A-Z])', '_', src).lower()
        rws = [e for e in r['effects'] if e[0] == 'rewrite']
        P.need(c, 'C11', 'each expression is replaced at most once', len(rws) <= 1)
        n += 1
        if 'constant_sized_array' in low:
            st = [e for e in r['effects'] if e[0] == 'start']; sp = [e for e in r['effects'] if e[0] == 'step']
            for e in st: P.need(c, 'C11', 'the arrays of a declaration are rewritten from the type as written', el + '.getTypeSourceInfo.getTypeLoc' == e[1], e[1])
            for e in rws:
                m = re.match(r'(.*)\.getSizeExpr$', e[1])
                P.need(c, 'C11', 'the size of an array is replaced', m is not None and m.group(1).startswith('TL'), e[1])
                if not m: continue
                A = m.group(1)
                lv = leaves(e[2])
                if len(lv) != 1:
                    P.need(c, 'C11', 'the size of an array is replaced by the size of that very array', False if not lv else z3.BoolVal(any(A in str(x) for x in lv)), str(e[2])[:200])
                    if lv: raise ToolLimit('size of array')
                    continue
                nm_ = re.sub(r'\.as<[^>]*>|\.getAsArrayTypeUnsafe|\.getTypePtr|\.getUnqualifiedType|\.getCanonicalType', '', str(lv[0]))
                if nm_ != A + '.getType.getSize' and A in nm_ and 'Element' not in nm_: raise ToolLimit('size of array: ' + nm_[:120])
                P.need(c, 'C11', 'the size of an array is replaced by the size of that very array', z3.Implies(z3.And(lv[0] >= 0, lv[0] < 2**64), e[2] == lv[0]) if nm_ == A + '.getType.getSize' and e[3] is False else False, str(e[2])[:200])
            for e in sp: P.need(c, 'C11', 'nested arrays are rewritten level by level', e[1].startswith('TL') and e[1].endswith('.getElementLoc') and 'ConstantArrayTypeLoc' in e[1], e[1])
        elif 'static_assert' in low:
            P.need(c, 'C11', 'the condition of a static assertion is replaced by 1', len(rws) == 1 and rws[0][1] == el + '.getAssertExpr' and (rws[0][2] == 1 if not isz(rws[0][2]) else False) and rws[0][3] is False, str(rws))
        elif 'constant_argument' in low:
            done = [B(x) for x in set(re.findall(r'in\([^ ]*,set:\w+\)', str(c.pc)))]
            for e in rws:
                P.need(c, 'C11', 'the recorded constant argument itself is replaced', e[1] == el, e[1])
                P.need(c, 'C11', 'an enumerator is not replaced by an integer literal', z3.Not(B('type(%s).isEnumeralType' % el)))
                ice = [x for x in set(re.findall(r'has\((%s\.getIntegerConstantExpr(?:\([^()]*\))?)\)' % re.escape(el), str(c.pc)))]
                P.need(c, 'C11', 'only integer constant expressions are replaced', z3.Or(*[B('has(%s)' % x) for x in ice]))
                V = Z((ice[0] if ice else '?') + '.value')
                u, ng = e[2], e[3]
                c.assume(z3.And(V >= -2**63, V < 2**64))
                val_ = z3.If(ng, -u, u) if isz(ng) else (-u if ng else u)
                P.need(c, 'C11', 'a constant argument is replaced by its own value', z3.And(val_ == V, z3.Implies(ng, z3.And(u >= 1, u <= 2**63)) if isz(ng) else True, u >= 0), str((u, ng))[:200])
                P.need(c, 'C11', 'each expression is replaced at most once', z3.And(*[z3.Not(d) for d in done]) if done else False)
                P.need(c, 'C11', 'each expression is replaced at most once', any(x[0] == 'insert' and x[2] == el for x in r['effects']))
        else: raise ToolLimit('loop over ' + src)
    return n, recs
# ---- C12 (and C04-C06): one translation unit
def unit(prog, cxx, opt, res):
    P = Post(res, 'HandleTranslationUnit, ' + ('C++' if cxx else 'C')); n = 0
    id0, id1 = Z('id0'), Z('id1')
    ev = lambda name, r=None: (lambda it, c, this, a: (noregion(it), it.c.effect(name, *[it.nm(x) for x in a[:1]]), r)[2])
    def apply_(it, c, this, a):
        noregion(it)
        st = val(this)
        m = val(st.f['mutation_id_'])
        pars = {p_['name']: x for p_, x in zip(it.c.prog.find(AC + '::ApplyMutations')['params'], a)}
        ints = [val(x) for x in a if isz(val(x)) and val(x).sort() == z3.IntSort()]
        it.c.effect('apply', it.nm(a[0]), ints[0] if ints else None, [val(x) for x in a if isinstance(val(x), bool) or (isz(val(x)) and z3.is_bool(val(x)))])
        it.c.write(m.to, id1)
        for x, p_ in zip(a, it.c.prog.find(AC + '::ApplyMutations')['params']):
            if 'set<' in p_['t'] and isinstance(x, Cell): it.c.write(x, Obj('set:decls', ''))
            if 'MutationInfoForFile' in p_['t'] and isinstance(x, Cell) and isinstance(x.v, Struct): it.c.write(x.v.f.setdefault('mutation_tree', Cell(None, 'mutation_tree')), Obj('treeinfo', '')); it.c.write(x.v.present, tuple(set(x.v.present.v) | {'mutation_tree'}))
        return None
    def pre(lang):
        def f(it, c, this, a):
            return R(Hole('prelude:%s:%s:%s' % (lang, a[0] if isz(a[0]) else val(a[0]), val(val(val(this).f['mutation_id_']).to))))
        return f
    def ins(it, c, this, a):
        v = val(this)
        if isinstance(v, ListV) and not v.items and len(a) == 2 and all(isinstance(val(x), Obj) and val(x).name.startswith('set:decls.') for x in a):
            it.c.write(this, Obj('set:sorted(decls)' if 'unordered' not in c['q'] else 'set:unsorted(decls)', '')); return None
        return set_ops(it, c, this, a)
    def mkset(it, c, this, a):
        a = [x for x in a if isinstance(val(x), Obj) and val(x).name.startswith('set:decls.')]
        return Obj('set:sorted(decls)' if 'unordered' not in c['q'] else 'set:unsorted(decls)', '') if len(a) == 2 else NotImplemented
    def loop(it, nd, env, rng):
        noregion(it)
        it.c.effect('foreach', rng.name)
        it.bindvar(nd['var'], R(Hole('elem(%s)' % rng.name)), env)
        try: it.ex(nd['a'], env)
        except CntEx: pass
        except BrkEx: it.c.effect('break')
        it.c.effect('endforeach')
    V = 'dredd::MutateVisitor::'
    extra = dict(SETS)
    for q in ('std::set::begin', 'std::set::end', 'std::unordered_set::begin', 'std::unordered_set::end'):
        extra[q] = lambda it, c, this, a: Obj(val(this).name + '.' + c['n'], 'iterator') if isinstance(val(this), Obj) else NotImplemented
    extra.update({'std::set::set': mkset, 'std::unordered_set::unordered_set': mkset, 'std::set::insert': ins, 'std::unordered_set::insert': ins, AC + '::ApplyMutations': apply_, AC + '::RewriteExpressionsInMainFile': ev('rewriteall'),
        AC + '::GetDreddPreludeCpp': pre('C++'), AC + '::GetDreddPreludeC': pre('C'), V + 'TraverseDecl': ev('traverse', True), V + 'GetMutations': lambda it, c, this, a: Obj('tree', 'dredd::MutationTreeNode'),
        V + 'HasDreddPreludeStartLocation': lambda it, c, this, a: B('hasstart'), V + 'GetDreddPreludeStartLocation': lambda it, c, this, a: Obj('startloc', 'clang::SourceLocation'),
        'clang::SourceManager::translateLineCol': lambda it, c, this, a: Obj('loc(%s,%s,%s)' % tuple(it.nm(x) for x in a), 'clang::SourceLocation'),
        'clang::Rewriter::setSourceMgr': ev('setsm'), 'clang::Rewriter::overwriteChangedFiles': ev('overwrite', B('werr')), 'clang::Decl::dump': lambda it, c, this, a: None,
        'clang::DiagnosticsEngine::hasErrorOccurred': lambda it, c, this, a: B('errors'), 'clang::DiagnosticsEngine::hasFatalErrorOccurred': lambda it, c, this, a: B('fatal'), 'clang::DiagnosticsEngine::hasUncompilableErrorOccurred': lambda it, c, this, a: B('uncompilable'),
        'clang::Rewriter::InsertTextBefore': lambda it, c, this, a: (noregion(it), it.c.effect('insertbefore', it.nm(a[0]), models.rs(it, a[1])), B('rerr%d' % len(it.c.effects.v)))[2]})
    infocell = []
    def this(it, ctx):
        st = consumer(it, ctx); ctx.ghost['info'] = val(val(st.v.f['mutation_info_']).to).c if hasattr(Opt, '__slots__') and 'c' in Opt.__slots__ else None
        return st
    try:
        recs = execute(prog, AC + '::HandleTranslationUnit', this, lambda it, ctx, f: [Obj('ASTContext', 'clang::ASTContext')], cxx, extra=extra, cfg={'seq_loop': loop}, pre=[id0 >= 0, id1 >= id0, z3.Implies(B('fatal'), B('errors')), z3.Implies(B('uncompilable'), B('errors'))])
    finally: pass
    EDIT = ('insertbefore', 'Replace', 'InsertBefore', 'InsertAfter', 'InsertAfterToken', 'Insert', 'Remove', 'rewriteall', 'overwrite')
    for c, r in recs:
        n += 1
        E = r['effects']; names = [e[0] for e in E]
        st = r['this'].v
        idnow = val(val(st.f['mutation_id_']).to)
        o = val(val(st.f['mutation_info_']).to)
        info = opt_struct(o)
        added = []
        if info is not None:
            l = info.f.get('info_for_files')
            if l is not None and l.v is not None: added = list(l.v.items)
        err = B('errors')
        if 'apply' not in names:
            P.need(c, 'C12', 'a file is left alone only if it has errors', err)
            P.need(c, 'C12', 'a file with errors is not modified', not any(x in EDIT for x in names), str(names))
            P.need(c, 'C12', 'a file with errors consumes no ids', z3.BoolVal(z3.eq(idnow, id0)) if isz(idnow) else False)
            P.need(c, 'C12', 'a file with errors contributes no mutants to the info', not added)
            continue
        P.need(c, 'C12', 'a file with errors is not modified', z3.Not(err))
        P.need(c, 'C12', 'the mutations of a file are applied once, after it was visited', names.count('apply') == 1 and names.count('traverse') == 1 and names.index('traverse') < names.index('apply') and not any(x in EDIT for x in names[:names.index('apply')]), str(names))
        ap = next(e for e in E if e[0] == 'apply')
        P.need(c, 'C03', 'the ids local to a file count from the first id of the file', ap[2] is not None and z3.eq(ap[2], id0), str(ap))
        if info is not None or True:
            P.need(c, 'C12', 'the tree written to the info is built iff the info is wanted', len(ap[3]) != 1 or (ap[3][0] == B('info') if isz(ap[3][0]) else z3.BoolVal(ap[3][0]) == B('info')), str(ap[3]))
        none = id0 == id1
        wrote = names.count('overwrite')
        if not wrote:
            P.need(c, 'C12', 'a file with mutants is written', none, str(names))
            P.need(c, 'C12', 'a file without mutants does not appear in the info', not added)
            continue
        P.need(c, 'C12', 'a file is written once, after all its edits', wrote == 1 and names[-1] == 'overwrite', str(names))
        P.need(c, 'C12', 'a file without mutants is not modified', z3.Not(none))
        P.need(c, 'C11', 'the recorded constants are rewritten once', names.count('rewriteall') == 1, str(names))
        P.need(c, 'C12', 'a mutated file appears in the info exactly once iff the info is wanted', B('info') if len(added) == 1 else z3.Not(B('info')) if not added else False, str(len(added)))
        for k in added:
            m = val(k)
            ok = isinstance(m, Struct) and 'filename' in m.f and 'MainFileID' in str(val(m.f['filename'])) and 'mutation_tree' in m.f
            P.need(c, 'C12', 'the info of a file names the file and holds its mutation tree', ok, str({x: y.v for x, y in m.f.items()})[:300] if isinstance(m, Struct) else '')
        ib = [(i, e) for i, e in enumerate(E) if e[0] == 'insertbefore']
        dl = [(i, e) for i, e in ib if any(x[0] == 'foreach' for x in E[:i]) and not any(x[0] == 'endforeach' for x in E[:i])]
        fe = [e for e in E if e[0] == 'foreach']
        P.need(c, 'C06', 'each helper collected for the file is emitted exactly once, in an order that depends on the texts only', len(fe) == 1 and fe[0][1] == 'set:sorted(decls)' and len(dl) == 1 and dl[0][1][2] == R(Hole('elem(set:sorted(decls))')), str(fe) + str(dl)[:200])
        pr = [(i, e) for i, e in ib if (i, e) not in dl]
        okp = len(pr) == 1 and pr[0][1][2] == R(Hole('prelude:%s:id0:id1' % ('C++' if cxx else 'C')))
        for p_ in ('C04', 'C05'): P.need(c, p_, 'the prelude is that of the language of the file, for its first id and its number of mutants', okp, str(pr)[:200])
        P.need(c, 'C06', 'the prelude ends up in front of the helpers, at the same place', len(pr) == 1 and bool(dl) and pr[0][0] > dl[-1][0] and all(e[1] == pr[0][1][1] for _, e in dl), str(ib)[:300])
    return n, recs
def opt_struct(o):
    if not isinstance(o, Opt): return None
    for a in ('c', 'cell', 'v', 'val'):
        x = getattr(o, a, None)
        if isinstance(x, Cell) and isinstance(x.v, Struct): return x.v
    return None
# ---- C12: files seen before, and the list of files with errors
def begin_invocation(prog, cxx, opt, res):
    q = 'dredd::MutateFrontendAction::BeginInvocation'; P = Post(res, 'BeginInvocation'); n = 0
    def this(it, ctx):
        st = Cell(Struct('dredd::MutateFrontendAction'))
        for fl in prog.rec['dredd::MutateFrontendAction']['fields']:
            st.v.f[fl['name']] = Cell(Ptr(Obj('set:' + fl['name'] if 'set<' in fl['t'] else fl['name'], bare(fl['t'])), True), fl['name'])
        return st
    extra = dict(SETS)
    S1 = lambda it, x: models.rs(it, x) if not isinstance(val(x), Obj) else R(Hole(val(x).name))
    def canon(it, c, this_, a):
        noregion(it)
        out = a[1]
        if not isinstance(out, Cell): raise ToolLimit('real_path')
        it.c.write(out, R(Hole('real(%s)' % it.nm(a[0])))); return B('real_path_fails(%s)' % it.nm(a[0]))
    extra.update({'llvm::sys::fs::real_path': canon, 'std::error_code::operator bool': lambda it, c, this_, a: val(this_),
        'llvm::sys::path::append': lambda it, c, this_, a: it.c.write(a[0], models.rs(it, a[0]) + R('/') + models.rs(it, a[1])) if isinstance(a[0], Cell) else None,
        'llvm::sys::path::parent_path': lambda it, c, this_, a: R(Hole('parent(%s)' % it.nm(a[0]))), 'llvm::sys::path::filename': lambda it, c, this_, a: R(Hole('name(%s)' % it.nm(a[0]))),
        'clang::FrontendAction::getCurrentFile': lambda it, c, this_, a: R(Hole('file')), 'clang::FrontendAction::getCurrentFileOrBufferName': lambda it, c, this_, a: R(Hole('file')),
        'clang::FrontendAction::getCurrentInput': lambda it, c, this_, a: Obj('input', 'clang::FrontendInputFile'), 'clang::FrontendInputFile::isEmpty': lambda it, c, this_, a: False,
        'clang::DiagnosticConsumer::clear': lambda it, c, this_, a: it.c.effect('clear'), 'clang::DiagnosticsEngine::getClient': lambda it, c, this_, a: Ptr(Obj('client', 'clang::DiagnosticConsumer'), True),
        'clang::CompilerInstance::getDiagnostics': lambda it, c, this_, a: Obj('diagnostics', 'clang::DiagnosticsEngine'),
        'llvm::StringRef::str': lambda it, c, this_, a: models.rs(it, this_), 'llvm::SmallString::str': lambda it, c, this_, a: models.rs(it, this_), 'llvm::SmallString::operator=': lambda it, c, this_, a: (it.c.write(this_, models.rs(it, a[0])), this_)[1]})
    recs = execute(prog, q, this, lambda it, ctx, f: [Obj('CompilerInstance', 'clang::CompilerInstance')], cxx, extra=extra)
    for c, r in recs:
        n += 1
        v = r['ret']
        seen = [(m, B(m)) for m in sorted(set(re.findall(r"in\(.*?,set:processed_files_\)", ' '.join(str(x).replace('\n', '') for x in c.pc))))]
        inserted = [e[2] for e in r['effects'] if e[0] == 'insert']
        if not (isinstance(v, bool) or isz(v)): raise ToolLimit('result of BeginInvocation')
        vt = v if isz(v) else z3.BoolVal(v)
        if len(seen) != 1: raise ToolLimit('set of processed files')
        key = re.match(r'in\((.*),set:processed_files_\)$', seen[0][0]).group(1)
        P.need(c, 'C12', 'a file is processed iff it was not seen before in the run', vt == z3.Not(seen[0][1]))
        P.need(c, 'C12', 'a file that is processed is remembered under the name it is looked up by', z3.Implies(vt, z3.BoolVal(inserted == [key])), str((inserted, key)))
        P.need(c, 'C12', 'files are told apart by the canonical path of their directory and their name', z3.Or(B("real_path_fails(R[{parent(R[{file}])}])"), B('real_path_fails(parent(file))'), z3.BoolVal('real(' in key and 'name(' in key)), key)
        P.need(c, 'C12', 'errors of earlier files do not affect later files', 'clear' in [e[0] for e in r['effects']])
    return n, recs
def diagnostics(prog, cxx, opt, res):
    q = 'LogFailedFilesDiagnosticConsumer::HandleDiagnostic'; P = Post(res, 'HandleDiagnostic'); n = 0
    lv = Z('level')
    def this(it, ctx):
        st = Cell(Struct('LogFailedFilesDiagnosticConsumer'))
        for fl in prog.rec['LogFailedFilesDiagnosticConsumer']['fields']: st.v.f[fl['name']] = Cell(Obj('set:' + fl['name'], ''), fl['name'])
        return st
    recs = execute(prog, q, this, lambda it, ctx, f: [lv, Obj('info', 'clang::Diagnostic')], cxx, extra=SETS, pre=[lv >= 0, lv <= 5])
    for c, r in recs:
        n += 1
        ins = [e for e in r['effects'] if e[0] == 'insert']
        bad = z3.Or(lv == 4, lv == 5)
        ok = z3.And(bad, B('info.getSourceManager.getMainFileID.isValid'))
        P.need(c, 'C12', 'exactly the main files with errors are listed', ok if len(ins) == 1 else z3.Not(ok) if not ins else False, str(ins)[:200])
        for e in ins: P.need(c, 'C12', 'the file listed is the main file of the unit with the error', 'getMainFileID' in e[2] and 'getName' in e[2], e[2])
    return n, recs
# ---- C09: where a range lies in the main file
def main_range(prog, cxx, opt, res):
    """The contract that the other functions assume for GetSourceRangeInMainFile: a valid
    range begins and ends at places of the main file that are the places given, or the
    start (end) of the macro expansion that the place given starts (ends)."""
    q = 'dredd::GetSourceRangeInMainFile'; P = Post(res, 'GetSourceRangeInMainFile'); n = 0
    f = [g for g in prog.byname.get(q, []) if g.get('body') is not None and len(g['params']) == 2 and 'SourceRange' in g['params'][1]['t']] if isinstance(prog.byname.get(q), list) else [prog.find(q)]
    if len(f) != 1 or f[0] is None: raise ToolLimit('no ' + q)
    SM = 'clang::SourceManager::'
    def exp(which):
        def g(it, c, this, a):
            noregion(it)
            L = it.nm(a[0])
            if len(a) > 1 and isinstance(val(a[1]), Ptr) and val(a[1]).nn is not False:
                it.c.write(val(a[1]).to, Obj('%sof(%s)' % (which, L), 'clang::SourceLocation'))
            b = B('at%s(%s)' % (which, L)); return b
        return g
    extra = {'clang::Preprocessor::isAtStartOfMacroExpansion': exp('start'), 'clang::Preprocessor::isAtEndOfMacroExpansion': exp('end'),
             SM + 'getFileID': lambda it, c, this, a: Obj('fid(%s)' % it.nm(a[0]), 'clang::FileID'), SM + 'getMainFileID': lambda it, c, this, a: Obj('mainfid', 'clang::FileID'),
             SM + 'isInMainFile': lambda it, c, this, a: B('expansioninmain(%s)' % it.nm(a[0])), SM + 'isWrittenInMainFile': lambda it, c, this, a: B('same(fid(spelling(%s)),mainfid)' % it.nm(a[0])),
             SM + 'getSpellingLoc': lambda it, c, this, a: Obj('spelling(%s)' % it.nm(a[0]), 'clang::SourceLocation'), SM + 'isWrittenInScratchSpace': lambda it, c, this, a: B('scratch(%s)' % it.nm(a[0])),
             'clang::SourceLocation::isMacroID': lambda it, c, this, a: B('macro(%s)' % it.nm(this)), 'clang::SourceLocation::isFileID': lambda it, c, this, a: z3.Not(B('macro(%s)' % it.nm(this))),
             'clang::SourceRange::getBegin': lambda it, c, this, a: Obj('b', 'clang::SourceLocation'), 'clang::SourceRange::getEnd': lambda it, c, this, a: Obj('e', 'clang::SourceLocation'),
             'clang::SourceRange::SourceRange': lambda it, c, this, a: PairV(Cell(val(a[0])), Cell(val(a[-1]))) if a and isinstance(val(a[0]), Obj) and 'Location' in val(a[0]).t else Obj('none', 'clang::SourceRange') if not a else NotImplemented}
    def inv(it, c, this, a):
        nm = it.nm(this)
        v = not nm.startswith(('invalid', 'none'))
        return v if c['n'] == 'isValid' else not v
    for k in ('isValid', 'isInvalid'): extra['clang::SourceLocation::' + k] = inv
    extra.pop('dredd::GetSourceRangeInMainFile', None)
    m0 = dict(extra); m0['dredd::GetSourceRangeInMainFile'] = lambda it, c, this, a: NotImplemented
    recs = execute(prog, f[0], lambda it, ctx: None, lambda it, ctx, g: [Obj('Preprocessor', 'clang::Preprocessor'), Obj('rng', 'clang::SourceRange')], cxx, extra=m0)
    for c, r in recs:
        v = val(r['ret'])
        if isinstance(v, Obj) and v.name.startswith(('none', 'invalid')): n += 1; continue
        if not isinstance(v, PairV): raise ToolLimit('result of GetSourceRangeInMainFile: %r' % (v,))
        n += 1
        for x, L, w in ((val(v.a), 'b', 'start'), (val(v.b), 'e', 'end')):
            inmain = lambda l: B('eq(%s)' % ','.join(sorted(('fid(%s)' % l, 'mainfid'))))
            if x.name == L: P.need(c, 'C09', 'an end of a range that is kept lies in the main file itself', inmain(L))
            elif x.name == '%sof(%s)' % (w, L):
                P.need(c, 'C09', 'an end of a range in a macro is traced back only from the matching end of an expansion in the main file', z3.And(inmain(x.name), B('at%s(%s)' % (w, L)), z3.Not(B('scratch(spelling(%s))' % L))))
            else: P.need(c, 'C09', 'a range in the main file has the ends of the range given', False, x.name)
    return n, recs
PARTS = {'range': main_range, 'unit': unit, 'begin': begin_invocation, 'diag': diagnostics, 'const': to_constant, 'rewrite': rewrite_all}
def job(prog, part, cxx, opt, res):
    n, recs = PARTS[part](prog, cxx, opt, res)
    if not n: raise ToolLimit('%s: no path to judge' % part)
    return dict(paths=len(recs), queries=sum(c.stats['checks'] for c, _ in recs))
if __name__ == '__main__':
    import sys, time; from mutharness import load; from checker import Result
    p = load('/tmp/b0/x')
    for part in sys.argv[1:] or PARTS:
        for cxx in (True, False):
            t = time.time(); R_ = Result()
            try: print(part, cxx, job(p, part, cxx, True, R_), end=' ')
            except ToolLimit as e: print(part, 'LIMIT', str(e)[:300])
            print(R_.byp, '%.1f' % (time.time() - t), str(R_.bad[:3])[:900])
