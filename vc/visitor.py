"""C08-C11: contracts of MutateVisitor. Each function is run on an arbitrary AST
node; the calls that instrument (MutationTreeNode::AddMutation), descend into
children (RecursiveASTVisitor::Traverse*) or record an expression for rewriting
are events, and the postconditions say under which facts an event may happen."""
import re, z3
from core import *
import interp, models
from interp import Interp, bare, isptr
from models import Models, kind, K, ancestors, PAR
from mutharness import k_integer, k_float, mk_options, norm_range, first_parent, BO, BOI, UO, UOI
CLS = 'dredd::MutateVisitor'
NODE = 'dredd::MutationTreeNode'
B = z3.Bool
OPAQUE = {'MayDependOnLifetimeOfMaterializedTemporaryStorage', 'MutatingMayAffectArgumentDependentLookup', 'IsConversionOfEnumToConstructor'}
class Run:
    def __init__(s, prog, cxx, opt): s.prog, s.cxx, s.opt = prog, cxx, opt
    def run(s, fn, argt, contract=(), name='E', maxpaths=4000, keep=(), selfc=None, cfg=None, fields=None, extra=None, pre=()):
        prog = s.prog
        f = prog.find(CLS + '::' + fn)
        if not f or f.get('body') is None: raise ToolLimit('no ' + fn)
        more = cfg or {}
        cfg = {'fields': {('LangOpts', 'CPlusPlus'): s.cxx}, 'opcode': {}, 'dtors': {}}
        raii = prog.find(CLS + '::PushMutationTreeRAII::~PushMutationTreeRAII')
        if raii: cfg['dtors'][CLS + '::PushMutationTreeRAII'] = lambda it, cell: it.call_fn(raii, cell, [])
        cfg.update(more)
        summ = {}
        def make(prefix):
            m = Models(prog, cfg)
            m.extra.update(mk_options(s.opt, False, False))
            m.extra['dredd::GetSourceRangeInMainFile'] = norm_range
            m.extra['dredd::GetFirstParentOfType'] = first_parent
            m.extra['dredd::SourceRangeConsistencyCheck'] = lambda it, c, this, a: B('consistent(%s)' % it.nm(a[0]))
            m.extra['std::make_unique'] = mk_mut
            for n in OPAQUE - set(keep): m.extra[CLS + '::' + n] = (lambda n: lambda it, c, this, a: B('%s(%s)' % (n, it.nm(a[0]))))(n)
            if 'IsInFunction' not in keep: m.extra[CLS + '::IsInFunction'] = lambda it, c, this, a: B('infunction')
            def ev(kind_):
                def g(it, c, this, a):
                    if val(this) is not None and isinstance(val(this), Struct): it.c.effect(kind_, c['n'], it.nm(a[0]) if a else '', path_of(val(this)))
                    return B('continue(%d)' % len(it.c.effects.v))
                return g
            m.extra[NODE + '::AddMutation'] = lambda it, c, this, a: it.c.effect('add', val(a[0]), id_of(this))
            m.extra[NODE + '::TidyUp'] = lambda it, c, this, a: it.c.effect('tidy')
            for q in ('std::set::insert', 'std::unordered_set::insert', 'std::set::emplace', 'std::unordered_set::emplace'): m.extra[q] = set_insert
            for n in contract: m.extra[CLS + '::' + n] = ev('call')
            m.extra.update(extra or {})
            m.base = ev('descend')
            oc = m.call
            def call(it, c, this, a, e):
                q = interp.sq(c['q'])
                if 'RecursiveASTVisitor::' in q and c['n'].startswith(('Traverse', 'WalkUp', 'Visit')): return m.base(it, c, this, a)
                return oc(it, c, this, a, e)
            m.call = call
            cfg['seq_loop'] = one_iteration
            c = Ctx(prog, m, list(axioms(name)) + list(pre), prefix); c.summaries = summ
            return c
        def run(ctx):
            it = Interp(ctx)
            st = Cell(Struct(CLS)); node = Cell(Struct(NODE), 'cur')
            for r, cell in ((CLS, st), (NODE, node)):
                for fl in prog.rec[r]['fields']:
                    b = bare(fl['t'])
                    if fields and fl['name'] in fields: v = fields[fl['name']]
                    elif b == 'dredd::Options': v = Ptr(Obj('Options', b), True)
                    elif b == 'clang::CompilerInstance': v = Ptr(Obj('CompilerInstance', b), True)
                    elif 'MutationTreeNode *' in b and b.startswith('std::vector<'): v = ListV([Cell(Ptr(node, True))])
                    elif fl['name'] == 'enclosing_decls_': v = ListV([Cell(Ptr(Obj('enclosing', 'clang::Decl'), True))])
                    elif b.startswith('std::set<') or b.startswith('std::unordered_set<'): v = Obj('this.' + fl['name'], b)
                    elif b.startswith('std::optional<'): v = Opt(B('has(this.%s)' % fl['name']), Cell(Obj('this.' + fl['name'], '')))
                    else: v = ctx.models.default(it, fl['t'])
                    cell.v.f[fl['name']] = Cell(v, fl['name'])
            ctx.ghost['node'] = node; ctx.ghost['this'] = st
            E = Obj(name, argt)
            args = []
            for i, p in enumerate(f['params']):
                if bare(p['t']) == argt or i == 0: args.append(Ptr(E, True) if isptr(p['t']) else E)
                else: args.append(it.opaque('arg%d' % i, p['t'], True))
            if selfc or fn in OPAQUE:
                first = [True]; key = CLS + '::' + fn; g = ctx.models.extra.get(key)
                def again(it2, c, this, a):
                    if fn in OPAQUE: return B('%s(%s)' % (fn, it2.nm(a[0])))
                    return ev_call(it2, c, this, a)
                ctx.models.extra[key] = again
            try: r = it.call_fn(f, st, args)
            except EndIter: r = None
            return dict(effects=ctx.effects.v, ret=r, this=st, node=node)
        recs = [(c, r) for c, r in explore(make, run, maxpaths) if r is not None]
        return recs
class EndIter(Exception): pass
def one_iteration(it, n, env, rng):
    """An arbitrary iteration of a loop over a sequence (the path ends with it), or
    none: the obligations on events hold for every iteration."""
    if it.c.region: raise NeedFork()
    v = n['var']
    def writes(x):
        return True
    if it.c.decide(B('iteration@%s' % n['l'])):
        it.bindvar(v, it.opaque('elem(%s)' % getattr(rng, 'name', '?'), v['t'], True), env)
        before = path_of(val(val(env['this']).to)) if isinstance(val(env.get('this')), Ptr) else None
        try: it.ex(n['a'], env)
        except CntEx: pass
        except BrkEx: return
        it.c.effect('next', path_of(val(val(env['this']).to)) == before)
        raise EndIter()
def set_insert(it, c, this, a):
    if not isinstance(val(this), Obj) or not val(this).name.startswith('this.'): return NotImplemented
    it.c.effect('insert', val(this).name[5:], it.nm(a[0]))
    return Obj('inserted', '')
def ev_call(it, c, this, a):
    it.c.effect('call', c['n'], it.nm(a[0]) if a else '', ())
    return None
def path_of(st):
    p = st.f.get('mutation_tree_path_')
    if p is None: return ()
    return tuple(id_of(val(c).to) for c in val(p).items)
def id_of(x): return x.n if isinstance(x, Cell) else str(x)
def mk_mut(it, c, this, a):
    T = bare(c['targs'][0]) if c.get('targs') else ''
    if 'dredd::Mutation' in T and 'Node' not in T: return Ptr(Obj('new:%s(%s)' % (T.split('::')[-1], it.nm(a[0])), T), True)
    return NotImplemented
def isa(n, T): return B('isa(%s,%s)' % (n, T))
def supported(t):
    k = kind(t); return z3.And(B('builtin(%s)' % t), k >= 0, k < K['Other'], z3.Not(B('nulltype(%s)' % t)))
def axioms(X):
    "Facts of every clang AST about the expression X."
    op, t = z3.Int('opcode(%s)' % X), 'type(%s)' % X
    un, bi = isa(X, 'UnaryOperator'), isa(X, 'BinaryOperator')
    return [z3.Implies(un, z3.And(op >= 0, op < len(UO))), z3.Implies(bi, z3.And(op >= 0, op < len(BO))),
            z3.Implies(z3.And(un, op == UOI['AddrOf']), z3.Not(supported(t))), z3.Implies(z3.And(un, op == UOI['Deref']), z3.Not(supported('type(sub(%s))' % X))),
            z3.Implies(un, op != UOI['Coawait']),
            z3.Implies(z3.And(bi, z3.Or(op == BOI['PtrMemD'], op == BOI['PtrMemI'])), z3.Not(supported('type(rhs(%s))' % X))),
            z3.Implies(z3.And(bi, op == BOI['Cmp']), z3.Not(supported(t)))]
def rngok(X): return B('R(%s).isValid' % X)
def ops(X, names, table): return z3.Or(*[z3.Int('opcode(%s)' % X) == table[n] for n in names])
def links(X):
    op = z3.Int('opcode(%s)' % X)
    r = lambda a, b, T: z3.And(op >= T[a], op <= T[b])
    return [B(X + '.isAssignmentOp') == r('Assign', 'OrAssign', BOI), B(X + '.isIncrementDecrementOp') == r('PostInc', 'PreDec', UOI),
            B(X + '.isLogicalOp') == r('LAnd', 'LOr', BOI), B(X + '.isCommaOp') == (op == BOI['Comma']), B(X + '.isCompoundAssignmentOp') == r('MulAssign', 'OrAssign', BOI)]
class Post:
    def __init__(s, res, tag): s.res, s.tag = res, tag
    def need(s, c, prop, name, e, what=''):
        "On this path e holds."
        ok = not c.sat(z3.Not(e)) if not isinstance(e, bool) else e
        s.res.ob(prop, name, ok, lambda: s.tag + ': ' + what + ' | path: ' + '; '.join(str(x).replace('\n', ' ')[:120] for x in c.pc[-12:]))
def visit_expr(prog, cxx, opt, res):
    R_ = Run(prog, cxx, opt); P = Post(res, f"VisitExpr, {'C++' if cxx else 'C'}{', optimised' if opt else ''}")
    recs = R_.run('VisitExpr', 'clang::Expr')
    n = 0
    for c, r in recs:
        for a in links('E'): c.assume(a)
        if not c.sat(): continue
        adds = [e for e in r['effects'] if e[0] == 'add']
        n += len(adds)
        P.need(c, 'C08', 'a mutation of a construct is recorded at the node of the construct', all(e[2] == id_of(r['node']) for e in adds))
        for e in adds:
            m = e[1]; m = m.to.name if isinstance(m, Ptr) and isinstance(m.to, Obj) else '?'
            cls = m[4:m.index('(')] if m.startswith('new:') else '?'; X = m[m.index('(') + 1:-1] if m.startswith('new:') else '?'
            P.need(c, 'C08', 'the mutation recorded for a construct is one of that construct', X == 'E', m)
            t = 'type(E)'
            P.need(c, 'C10', 'only expressions inside functions are instrumented', B('infunction'), cls)
            P.need(c, 'C10', 'only expressions of builtin integer or floating-point type are instrumented', supported(t), cls)
            P.need(c, 'C09', 'only expressions written in full in the main file are instrumented', rngok('E'), cls)
            if prog.find(CLS + '::VisitVarDecl') and any(fl['name'] == 'var_decl_source_locations_' for fl in prog.rec[CLS]['fields']):
                P.need(c, 'C10', 'the name being declared in a condition is not instrumented', z3.Not(B('this.var_decl_source_locations_.contains(E.getBeginLoc)')), cls)
            for o in sorted(OPAQUE):
                if prog.find(CLS + '::' + o) and (o != 'IsConversionOfEnumToConstructor' or cls == 'MutationReplaceExpr'):
                    P.need(c, 'C10', 'no expression is instrumented whose mutation may change name lookup or overload resolution or use a dead temporary', z3.Not(B('%s(E)' % o)), o)
            if cls == 'MutationReplaceUnaryOperator':
                P.need(c, 'C10', 'unary instrumentation only for the supported operators', z3.And(isa('E', 'UnaryOperator'), ops('E', ['PostInc', 'PostDec', 'PreInc', 'PreDec', 'Minus', 'Not', 'LNot'], UOI)))
                P.need(c, 'C10', 'only expressions of builtin integer or floating-point type are instrumented', supported('type(sub(E))'), 'operand')
                P.need(c, 'C09', 'only operators whose operands are written in full in the main file are instrumented', rngok('sub(E)'))
                P.need(c, 'C10', 'no reference or pointer to a bit-field is taken', z3.Implies(ops('E', ['PostInc', 'PostDec', 'PreInc', 'PreDec'], UOI), z3.Not(B('bitfield(sub(E))'))))
            elif cls == 'MutationReplaceBinaryOperator':
                P.need(c, 'C10', 'binary instrumentation only for the supported operators', z3.And(isa('E', 'BinaryOperator'), z3.Not(ops('E', ['Comma', 'PtrMemD', 'PtrMemI', 'Cmp'], BOI))))
                for x in ('lhs(E)', 'rhs(E)'):
                    P.need(c, 'C10', 'only expressions of builtin integer or floating-point type are instrumented', supported('type(%s)' % x), 'operand')
                    P.need(c, 'C09', 'only operators whose operands are written in full in the main file are instrumented', rngok(x))
                P.need(c, 'C10', 'no reference or pointer to a bit-field is taken', z3.Implies(ops('E', [n_ for n_ in BO if n_.endswith('Assign')], BOI), z3.Not(B('bitfield(lhs(E))'))))
                w = B('SourceManager.isWrittenInMainFile(E.getOperatorLoc)')
                P.need(c, 'C09', 'an operator token is only replaced where it is written in the main file', z3.Or(w, z3.BoolVal(not cxx) if cxx else ops('E', ['LAnd', 'LOr'], BOI)))
            elif cls == 'MutationReplaceExpr':
                lv = B('lvalue(E)')
                P.need(c, 'C10', 'no reference or pointer to a bit-field is taken', z3.Implies(lv, z3.Not(B('bitfield(E)'))))
                P.need(c, 'C10', 'a const or boolean lvalue is not instrumented', z3.Implies(lv, z3.And(z3.Not(B('const(type(E))')), kind(t) != K['Bool'])))
                P.need(c, 'C10', 'an lvalue is only instrumented where it is converted to an rvalue', z3.Implies(lv, z3.And(B('nn(parent<ImplicitCastExpr>(E))'), z3.Not(B('lvalue(parent<ImplicitCastExpr>(E))')))))
                P.need(c, 'C10', 'a braced initialiser list is not instrumented', z3.Not(isa('E', 'InitListExpr')))
            else: P.need(c, 'C10', 'expressions get expression mutations', False, cls)
    return n, recs

# ---- C07: which sites exist only without optimisations
def const_is(X, *ks):
    t = kind('type(%s)' % X); vd = z3.Not(B('valuedependent(%s)' % X))
    return z3.And(vd, z3.Or(*[z3.Or(z3.And(k_integer(t), B('iconst(%s)' % X), z3.Int('ival(%s)' % X) == k), z3.And(k_float(t), B('fconst(%s)' % X), z3.Real('fval(%s)' % X) == k)) for k in ks]))
def opt_skip(prog, cxx, opt, res):
    P = Post(res, 'VisitExpr, ' + ('C++' if cxx else 'C')); n = 0
    pc = 'parent<CastExpr>(E)'; nn = lambda T: B('nn(parent<%s>(E))' % T)
    whole = z3.Or(isa('E', 'ParenExpr'), isa('E', 'ExprWithCleanups'))
    allowed = {'MutationReplaceExpr': z3.Or(whole, nn('CompoundStmt'), nn('SwitchCase'), z3.And(nn('CastExpr'), B('lvalue(%s)' % pc) == B('lvalue(E)'), z3.Not(nn('InitListExpr')))),
               'MutationReplaceUnaryOperator': z3.Or(whole, z3.And(ops('E', ['Minus'], UOI), const_is('sub(E)', 1)), z3.And(ops('E', ['Not'], UOI), const_is('sub(E)', 0, 1))),
               'MutationReplaceBinaryOperator': z3.Or(whole, z3.And(const_is('lhs(E)', 0), const_is('rhs(E)', 1)))}
    runs = {}
    for o in (True, False):
        runs[o] = []
        for c, r in Run(prog, cxx, o).run('VisitExpr', 'clang::Expr'):
            for a in links('E'): c.assume(a)
            if not c.sat(): continue
            add = set()
            for e in r['effects']:
                if e[0] == 'add':
                    m = e[1].to.name if isinstance(e[1], Ptr) and isinstance(e[1].to, Obj) else '?'
                    if not m.startswith('new:'): raise ToolLimit('mutation ' + m)
                    add.add(m[4:m.index('(')])
            runs[o].append((c, add))
    sv = z3.Solver(); sv.set('timeout', 60000); sv.add(*axioms('E')); sv.add(*links('E'))
    def path(c): return z3.And(*c.pc)
    for cls, ok in allowed.items():
        full = z3.Or(*[path(c) for c, a in runs[False] if cls in a])
        kept = z3.Or(*[path(c) for c, a in runs[True] if cls in a])
        for nm, f in (('a site is left out under optimisations only where it is redundant', z3.And(full, z3.Not(kept), z3.Not(ok))), ('every site instrumented under optimisations is instrumented without them', z3.And(kept, z3.Not(full)))):
            r = sv.check(f); n += 1
            if r == z3.unknown: raise ToolLimit('solver gave up on ' + nm)
            res.ob('C07', nm, r == z3.unsat, lambda: 'VisitExpr %s: %s, %s' % ('C++' if cxx else 'C', cls, [str(d) for d in sv.model() if z3.is_true(sv.model()[d])][:30]))
        if cls == 'MutationReplaceUnaryOperator':
            r = sv.check(kept, ops('E', ['Not'], UOI), const_is('sub(E)', 0, 1)); n += 1
            if r == z3.unknown: raise ToolLimit('solver gave up')
            res.ob('C07', 'precondition of the unary redundancy rules: ~0 and ~1 are not instrumented under optimisations', r == z3.unsat, lambda: 'VisitExpr %s' % [str(d) for d in sv.model() if z3.is_true(sv.model()[d])][:40])
    # statements
    st = {o: [(c, r) for c, r in feasible(T(prog, cxx, o, 'TraverseCompoundStmt', 'clang::CompoundStmt', 'S', ['TraverseStmt']), 'S')] for o in (True, False)}
    def acts(o, k):
        d = {}
        for c, r in st[o]:
            for e in r['effects']:
                if e[0] == k: d.setdefault(e[2] if k == 'call' else (e[1].to.name[len('new:MutationRemoveStmt('):-1] if isinstance(e[1], Ptr) else '?'), []).append(path(c))
        return d
    for k in ('call', 'add'):
        a, b = acts(True, k), acts(False, k)
        for X, ps in b.items():
            pure = z3.And(isa(X, 'Expr'), z3.Not(B('sideeffects(%s)' % X)))
            ok = z3.Or(pure, isa(X, 'CompoundStmt')) if k == 'add' else pure
            r = sv.check(z3.Or(*ps), z3.Not(z3.Or(*a.get(X, []))), z3.Not(ok)); n += 1
            if r == z3.unknown: raise ToolLimit('solver gave up')
            res.ob('C07', 'a statement is left out under optimisations only if it is an expression without side effects or, for removal, a block', r == z3.unsat, lambda: 'TraverseCompoundStmt %s %s %s' % (k, X, [str(d) for d in sv.model() if z3.is_true(sv.model()[d])][:30]))
    return n, [x for o in runs for x in runs[o]]
# ---- traversal: which constructs are entered, and under which tree node
def T(prog, cxx, opt, fn, argt, name, contract=(), **kw):
    return Run(prog, cxx, opt).run(fn, argt, contract, name, **kw)
def feasible(recs, X):
    for c, r in recs:
        for a in links(X): c.assume(a)
        if c.sat(): yield c, r
def descents(r): return [e for e in r['effects'] if e[0] == 'descend']
def children(node):
    ch = node.v.f.get('children_')
    return [id_of(val(val(c)).to if isinstance(val(c), Ptr) else val(c)) for c in val(ch).items] if ch is not None and isinstance(val(ch), ListV) else None
def listf(r, fld):
    f = r['this'].v.f.get(fld)
    if f is None or not isinstance(val(f), ListV): raise ToolLimit('no list ' + fld)
    return [val(c).to.name if isinstance(val(c), Ptr) else str(val(c)) for c in val(f).items]
def balanced(P, c, r):
    P.need(c, 'C08', 'a traversal leaves the path to the current tree node as it found it', path_of(r['this'].v) == (id_of(r['node']),))
def traverse_stmt(prog, cxx, opt, res):
    P = Post(res, 'TraverseStmt, ' + ('C++' if cxx else 'C'))
    recs = T(prog, cxx, opt, 'TraverseStmt', 'clang::Stmt', 'S')
    n = 0
    ue, ifs, nw = 'parent<UnaryExprOrTypeTraitExpr>(S)', 'parent<IfStmt>(S)', 'parent<CXXNewExpr>(S)'
    for c, r in feasible(recs, 'S'):
        balanced(P, c, r)
        for e in r['effects']:
            if e[0] == 'add': P.need(c, 'C10', 'traversing a statement instruments nothing by itself', False)
        for e in descents(r):
            n += 1
            P.need(c, 'C10', 'the statement that is entered is the one given', e[2] == 'S')
            for k in ('UserDefinedLiteral', 'ConstantExpr', 'CXXNoexceptExpr'):
                P.need(c, 'C10', 'no instrumentation inside a literal operator, constant expression or noexcept operand', z3.Not(isa('S', k)), k)
            k = z3.Int(ue + '.getKind')
            P.need(c, 'C10', 'no instrumentation inside sizeof or alignof', z3.Not(z3.And(B('nn(%s)' % ue), z3.Or(k == 0, k == 1))))
            cond = z3.And(B('nn(%s)' % ifs), B(ifs + '.isConstexpr'), B('nn(%s.getCond)' % ifs), same('S', ifs + '.getCond'))
            P.need(c, 'C10', 'no instrumentation inside the condition of a constexpr if', z3.Not(cond))
            P.need(c, 'C10', 'no instrumentation inside the array size of a new expression', z3.Not(z3.And(B('nn(%s)' % nw), B('has(%s.getArraySize)' % nw), same('S', nw + '.getArraySize.value'))))
            P.need(c, 'C10', 'no instrumentation inside the argument of __builtin_frame_address', z3.Not(z3.And(isa('S', 'CallExpr'), z3.Int('S.getBuiltinCallee') == frame_id(c))) if frame_id(c) else True)
            P.need(c, 'C08', 'the mutations of a statement are recorded below a node of its own', len(e[3]) == 2 and e[3][0] == id_of(r['node']))
            ch = children(r['node'])
            P.need(c, 'C08', 'the node of a statement is the last child of the node of the enclosing construct', ch is None or ch == [e[3][-1]], str(ch))
        # a statement that is not entered contributes nothing to the tree but an argument to rewrite
        if not descents(r):
            l = listf(r, 'constant_arguments_to_rewrite_')
            if l: P.need(c, 'C11', 'only the argument of a builtin that requires a constant is recorded', z3.And(isa('S', 'CallExpr'), z3.BoolVal(len(l) == 1 and 'S.getArg' in l[0])), str(l))
        else: P.need(c, 'C11', 'only the argument of a builtin that requires a constant is recorded', not listf(r, 'constant_arguments_to_rewrite_'))
    return n, recs
def same(a, b):
    a, b = sorted((a, b)); return B('same(%s,%s)' % (a, b))
def frame_id(c):
    for x in c.pc:
        m = re.search(r'S\.getBuiltinCallee == (\d+)', str(x))
        if m: return int(m.group(1))
def traverse_var(prog, cxx, opt, res):
    P = Post(res, 'TraverseVarDecl, ' + ('C++' if cxx else 'C'))
    recs = T(prog, cxx, opt, 'TraverseVarDecl', 'clang::VarDecl', 'D', ['SaveConstantTemplateArgumentForRewrite'])
    n = 0
    for c, r in feasible(recs, 'D'):
        balanced(P, c, r)
        P.need(c, 'C10', 'the stack of enclosing declarations is restored', listf(r, 'enclosing_decls_') == ['enclosing'])
        for e in descents(r):
            n += 1
            P.need(c, 'C10', 'no instrumentation in the initialiser of a constexpr or constinit variable', z3.And(z3.Not(B('D.isConstexpr')), z3.Not(B('D.hasAttr<clang::ConstInitAttr>'))))
            if not cxx: P.need(c, 'C10', 'no instrumentation in the initialiser of a static local in C', z3.Not(B('D.isStaticLocal')))
            P.need(c, 'C10', 'the declaration that is entered is the one given', e[2] == 'D')
        arr = listf(r, 'constant_sized_arrays_to_rewrite_')
        isarr = B('type(D).isConstantArrayType')
        P.need(c, 'C11', 'in C++ exactly the variables of constant-sized array type are recorded, once', (z3.And(isarr, z3.BoolVal(cxx)) if arr == ['D'] else z3.Not(z3.And(isarr, z3.BoolVal(cxx)))) if arr in ([], ['D']) else False, str(arr))
        sv = [e for e in r['effects'] if e[0] == 'call']
        ast = B('as(type(D),clang::TemplateSpecializationType)')
        P.need(c, 'C11', 'the template arguments of the type of a variable are recorded', (ast if len(sv) == 1 else z3.Not(ast)) if len(sv) < 2 else False)
    return n, recs
def traverse_decl(prog, cxx, opt, res):
    P = Post(res, 'TraverseDecl, ' + ('C++' if cxx else 'C'))
    recs = T(prog, cxx, opt, 'TraverseDecl', 'clang::Decl', 'D')
    n = 0
    tu = isa('D', 'TranslationUnitDecl'); sa = isa('D', 'StaticAssertDecl'); fd = isa('D', 'FunctionDecl')
    excl = [z3.Not(z3.And(x, y)) for i, x in enumerate([tu, sa, fd, isa('D', 'FieldDecl'), isa('D', 'VarDecl')]) for y in [tu, sa, fd, isa('D', 'FieldDecl'), isa('D', 'VarDecl')][i + 1:]]
    for c, r in feasible(recs, 'D'):
        for a in excl: c.assume(a)
        if not c.sat(): continue
        balanced(P, c, r)
        P.need(c, 'C10', 'the stack of enclosing declarations is restored', listf(r, 'enclosing_decls_') == ['enclosing'])
        for i, e in enumerate(r['effects']):
            if e[0] == 'descend':
                n += 1
                P.need(c, 'C10', 'the declaration that is entered is the one given', e[2] == 'D')
                P.need(c, 'C09', 'only declarations written in full in the main file are entered', z3.Or(tu, rngok('D')))
                P.need(c, 'C10', 'no instrumentation in static assertions and constexpr functions', z3.And(z3.Not(sa), z3.Not(z3.And(fd, B('D.isConstexpr')))))
        d = [i for i, e in enumerate(r['effects']) if e[0] == 'descend']; t = [i for i, e in enumerate(r['effects']) if e[0] == 'tidy']
        P.need(c, 'C08', 'the tree is simplified once, after the whole translation unit was visited', z3.And(tu, z3.BoolVal(len(t) == 1 and len(d) == 1 and d[0] < t[0])) if t else z3.Not(tu))
        l = listf(r, 'static_assertions_to_rewrite_')
        rec = z3.And(sa, rngok('D'), z3.Not(tu))
        P.need(c, 'C11', 'exactly the static assertions in the main file are recorded, once', (rec if l == ['D'] else z3.Not(rec)) if l in ([], ['D']) else False, str(l))
        arr = listf(r, 'constant_sized_arrays_to_rewrite_')
        isarr = z3.And(isa('D', 'FieldDecl'), B('type(D).isConstantArrayType'), z3.BoolVal(cxx), rngok('D'))
        P.need(c, 'C11', 'in C++ exactly the fields of constant-sized array type are recorded, once', (isarr if arr == ['D'] else z3.Not(isarr)) if arr in ([], ['D']) else False, str(arr))
    return n, recs
def traverse_case(prog, cxx, opt, res):
    P = Post(res, 'TraverseCaseStmt'); n = 0
    recs = T(prog, cxx, opt, 'TraverseCaseStmt', 'clang::CaseStmt', 'S', ['TraverseStmt'])
    for c, r in feasible(recs, 'S'):
        balanced(P, c, r)
        for e in r['effects']:
            n += 1
            P.need(c, 'C10', 'only the statement after a case label is entered', e[0] == 'call' and e[1] == 'TraverseStmt' and e[2] == 'S.getSubStmt', str(e[:3]))
    return n, recs
NOENTRY = [('TraverseConstantArrayTypeLoc', 'clang::ConstantArrayTypeLoc', 'the size of a constant-sized array'), ('TraverseDependentSizedArrayTypeLoc', 'clang::DependentSizedArrayTypeLoc', 'the size of an array that depends on a template parameter'),
           ('TraverseTemplateArgumentLoc', 'clang::TemplateArgumentLoc', 'a template argument'), ('TraverseLambdaCapture', 'clang::LambdaExpr', 'a lambda capture'), ('TraverseParmVarDecl', 'clang::ParmVarDecl', 'a default parameter value'), ('TraverseVariableArrayTypeLoc', 'clang::VariableArrayTypeLoc', 'the size of a variable-sized array in C++')]
def traverse_none(prog, cxx, opt, res):
    n = 0; all_ = []
    for fn, t, what in NOENTRY:
        if fn == 'TraverseVariableArrayTypeLoc' and not cxx: continue
        P = Post(res, fn)
        recs = T(prog, cxx, opt, fn, t, 'L', ['TraverseStmt', 'TraverseDecl'])
        all_ += recs
        for c, r in recs:
            P.need(c, 'C10', 'no instrumentation inside ' + what, not r['effects'], str(r['effects'])[:100]); n += 1
    return n, all_
def traverse_compound(prog, cxx, opt, res):
    P = Post(res, 'TraverseCompoundStmt, ' + ('C++' if cxx else 'C') + (', optimised' if opt else '')); n = 0
    recs = T(prog, cxx, opt, 'TraverseCompoundStmt', 'clang::CompoundStmt', 'S', ['TraverseStmt'])
    for c, r in feasible(recs, 'S'):
        seen = []
        for e in r['effects']:
            if e[0] == 'call':
                P.need(c, 'C10', 'a component of a compound statement is entered past its case labels', z3.Not(isa(e[2], 'SwitchCase')) if e[1] == 'TraverseStmt' else False)
                P.need(c, 'C08', 'the components of a compound statement have sibling nodes', len(e[3]) == 2 and e[3][0] == id_of(r['node']))
                seen.append((e[2], e[3][-1]))
            elif e[0] == 'add':
                n += 1
                m = e[1].to.name if isinstance(e[1], Ptr) and isinstance(e[1].to, Obj) else '?'
                X = m[m.index('(') + 1:-1] if m.startswith('new:MutationRemoveStmt(') else None
                P.need(c, 'C10', 'statements get removal mutations only', X is not None, m)
                if X is None: continue
                P.need(c, 'C10', 'only statements that are no declaration, label, case or empty statement are wrapped', z3.And(*[z3.Not(isa(X, k)) for k in ('NullStmt', 'DeclStmt', 'LabelStmt', 'SwitchCase')]))
                P.need(c, 'C09', 'only statements written in full in the main file are wrapped', rngok(X))
                P.need(c, 'C08', 'the removal of a statement is recorded at the node below which its own mutations lie', seen == [(X, e[2])], str((seen, X, e[2])))
            elif e[0] == 'next': P.need(c, 'C08', 'a traversal leaves the path to the current tree node as it found it', e[1])
            else: P.need(c, 'C10', 'a compound statement is entered component by component', False, str(e[:3]))
    return n, recs
# ---- predicates
def ret(r): return r['ret'] if isinstance(r['ret'], bool) or isz(r['ret']) else bool(r['ret']) if r['ret'] is not None else None
def rec_run(prog, cxx, fn, argt, name, selfc=True, extra=None):
    return T(prog, cxx, True, fn, argt, name, keep={fn}, selfc=fn if selfc else None)
def predicates(prog, cxx, opt, res):
    n = 0; all_ = []
    # false only where mutating cannot affect argument-dependent lookup
    adl = lambda X: z3.And(B('nn(parent<CallExpr>(%s))' % X), B('parent<CallExpr>(%s).usesADL' % X))
    sub = 'E.getSubExpr'
    ic = 'parent<ImplicitCastExpr>(E)'
    mc = isa('E', 'CXXMemberCallExpr')
    spec = {'MutatingMayAffectArgumentDependentLookup': z3.Or(
                z3.And(isa('E', 'ImplicitCastExpr'), z3.Or(z3.Not(supported('type(%s)' % sub)), isa(sub, 'CXXMemberCallExpr')), adl('E')),
                z3.And(mc, B('nn(%s)' % ic), adl(ic)), z3.And(mc, z3.Not(B('nn(%s)' % ic)), adl('E'))),
            'IsConversionOfEnumToConstructor': z3.And(isa('E', 'ImplicitCastExpr'), B('nn(parent<CXXConstructExpr>(E))'), isa(sub, 'DeclRefExpr'), isa(sub + '.getDecl', 'EnumConstantDecl')),
            'MayDependOnLifetimeOfMaterializedTemporaryStorage': z3.Or(isa('E', 'MaterializeTemporaryExpr'),
                z3.And(isa('E', 'MemberExpr'), z3.Or(B('lvalue(E)'), B('type(E).isPointerType')), B('MayDependOnLifetimeOfMaterializedTemporaryStorage(E.getBase)')))}
    for fn, sp in spec.items():
        P = Post(res, fn)
        try: recs = T(prog, cxx, opt, fn, 'clang::Expr', 'E', keep={fn})
        except ToolLimit as e: res.ob('C10', fn, True, None) if False else None; raise
        all_ += recs
        for c, r in feasible(recs, 'E'):
            c.assume(z3.Not(z3.And(isa('E', 'MemberExpr'), isa('E', 'CallExpr')))); 
            if not c.sat(): continue
            n += 1
            v = ret(r)
            for e in r['effects']:
                if e[0] == 'next': P.need(c, 'C10', 'every argument of a call is examined for references to temporaries', z3.Not(B('%s(%s)' % (fn, 'elem(E.arguments)'))))
            if v is None: continue
            if fn.startswith('MayDepend'):
                its = [z3.Not(B(x)) for x in sorted(set(re.findall(r'iteration@\d+', str(c.pc))))]
                P.need(c, 'C10', 'every argument of a call is examined for references to temporaries', z3.Implies(z3.And(isa('E', 'CallExpr'), z3.Not(isa('E', 'MaterializeTemporaryExpr')), z3.Or(B('lvalue(E)'), B('type(E).isPointerType')), z3.Not(v) if isz(v) else z3.BoolVal(not v)), z3.Or(*its)))
            bad = z3.And(z3.Not(v) if isz(v) else z3.BoolVal(not v), sp)
            P.need(c, 'C10', 'an expression whose mutation may change name lookup or overload resolution or use a dead temporary is recognised', z3.Not(bad), fn)
    return n, all_
def in_function(prog, cxx, opt, res):
    """Loop contract: every declaration above `index` on the stack is a variable and
    no function; so the result says whether the innermost declaration that is not a
    variable is a function."""
    P = Post(res, 'IsInFunction')
    d = Obj('decls', 'std::vector<const clang::Decl *>')
    N = z3.Int('decls.size')
    fn_ = lambda i: isa('decls[%s]' % i, 'FunctionDecl'); var = lambda i: isa('decls[%s]' % i, 'VarDecl')
    I = z3.Int('index!')
    def loop(it, n, env):
        if n['k'] != 'For' or not n.get('init'): raise ToolLimit('loop of IsInFunction')
        def go():
            if it.c.region: raise NeedFork()
            vs = [c for c in env.values() if isinstance(c, Cell) and c.name and (isz(c.v) or type(c.v) is int)]
            if len(vs) != 1: raise ToolLimit('loop of IsInFunction')
            x = vs[0]
            if it.c.sat(x.v != N - 1 if isz(x.v) else z3.BoolVal(True)): raise ToolLimit('loop of IsInFunction: start')
            it.c.write(x, I); it.c.assume(z3.And(I >= -1, I < N))
            if not it.c.decide(val(it.ev(n['c'], env))):
                P.need(it.c, 'C10', 'the search for the enclosing function covers every enclosing declaration', I == -1); return
            P.need(it.c, 'C10', 'the search for the enclosing function stays within the stack', z3.And(I >= 0, I < N))
            it.c.ghost['at'] = True
            try: it.ex(n['a'], env)
            except CntEx: pass
            it.c.ghost['at'] = False
            if n.get('inc'): it.ev(n['inc'], env)
            if it.c.sat(x.v != I - 1): raise ToolLimit('loop of IsInFunction: step')
            P.need(it.c, 'C10', 'only variables are skipped in the search for the enclosing function', z3.And(var(I), z3.Not(fn_(I))))
            raise EndIter()
        return go
    recs = T(prog, cxx, opt, 'IsInFunction', '', 'E', keep={'IsInFunction'}, cfg={'loop': loop}, fields={'enclosing_decls_': d},
             extra={'std::vector::size': lambda it, c, this, a: N if val(this) is d else NotImplemented, 'std::vector::operator[]': lambda it, c, this, a: Ptr(Obj('decls[%s]' % it.nm(val(a[0])), 'clang::Decl'), True) if val(this) is d else NotImplemented,
                    'std::vector::empty': lambda it, c, this, a: N == 0 if val(this) is d else NotImplemented}, pre=[N >= 0, z3.Not(z3.And(fn_(I), var(I)))])
    n = 0
    for c, r in recs:
        v = ret(r)
        if v is None: continue
        n += 1
        at = c.ghost.get('at')
        want = fn_(I) if at else z3.BoolVal(False)
        P.need(c, 'C10', 'an expression counts as inside a function iff its innermost enclosing declaration that is no variable is a function', (v if isz(v) else z3.BoolVal(v)) == want if at else z3.Or(N == 0, z3.BoolVal(True)) if v is False else False)
        if at and v is False: P.need(c, 'C10', 'only variables are skipped in the search for the enclosing function', z3.Not(var(I)))
    return n, recs
def save_args(prog, cxx, opt, res):
    P = Post(res, 'SaveConstantTemplateArgumentForRewrite'); n = 0
    recs = T(prog, cxx, opt, 'SaveConstantTemplateArgumentForRewrite', 'clang::TemplateSpecializationType', 'T', keep={'SaveConstantTemplateArgumentForRewrite'}, selfc='SaveConstantTemplateArgumentForRewrite')
    for c, r in recs:
        l = listf(r, 'constant_arguments_to_rewrite_'); sv = [e for e in r['effects'] if e[0] == 'call']
        it = any(e[0] == 'next' for e in r['effects'])
        if not it: continue
        n += 1
        el = next((e for e in r['effects'] if e[0] == 'elem'), (0, 'elem(T.template_arguments)'))[1]
        k = z3.Int(el + '.getKind')
        P.need(c, 'C11', 'exactly the template arguments that are expressions are recorded', (k == TAK['Expression'] if l == [el + '.getAsExpr'] else k != TAK['Expression']) if len(l) < 2 else False, str(l))
        nested = z3.And(k == TAK['Type'], B('as(%s.getAsType,clang::TemplateSpecializationType)' % el))
        P.need(c, 'C11', 'the arguments of nested template types are recorded', nested if len(sv) == 1 else z3.Not(nested) if not sv else False, str(sv)[:200])
    return n, recs
def visit_var(prog, cxx, opt, res):
    P = Post(res, 'VisitVarDecl'); n = 0
    recs = T(prog, cxx, opt, 'VisitVarDecl', 'clang::VarDecl', 'D')
    for c, r in recs:
        n += 1
        P.need(c, 'C10', 'the location of every variable that is declared is known', ('insert', 'var_decl_source_locations_', 'D.getLocation') in r['effects'], str(r['effects']))
    return n, recs
TAK = {'Type': 1, 'Expression': 7}
PARTS = {'skip': opt_skip, 'expr': visit_expr, 'stmt': traverse_stmt, 'var': traverse_var, 'decl': traverse_decl, 'case': traverse_case, 'none': traverse_none, 'compound': traverse_compound, 'pred': predicates, 'infn': in_function, 'visitvar': visit_var, 'save': save_args}
def job(prog, part, cxx, opt, res):
    n, recs = PARTS[part](prog, cxx, opt, res)
    if not n: raise ToolLimit('%s: no path to judge' % part)
    return dict(paths=len(recs), queries=sum(c.stats['checks'] for c, _ in recs))
if __name__ == '__main__':
    import sys, time; from mutharness import load; from checker import Result
    p = load('/tmp/b0/x')
    for part in sys.argv[1:] or PARTS:
        for cxx in (True, False):
            for opt in (True, False):
                t = time.time(); R_ = Result()
                try: print(part, cxx, opt, job(p, part, cxx, opt, R_), end=' ')
                except ToolLimit as e: print(part, 'LIMIT', str(e)[:200])
                print(R_.byp, '%.1f' % (time.time() - t), str(R_.bad[:2])[:500])
