"""Runs the real constructor and Apply of each Mutation class for every opcode,
language, option combination, with everything else symbolic."""
import z3, os, sys, json, time
sys.path.insert(0, os.path.dirname(__file__))
from core import *
import interp, models
from interp import Interp, bare
from models import Models, kind, K, KINDS, k_integer, k_float

BO = ['PtrMemD', 'PtrMemI', 'Mul', 'Div', 'Rem', 'Add', 'Sub', 'Shl', 'Shr', 'Cmp', 'LT', 'GT', 'LE', 'GE', 'EQ', 'NE',
      'And', 'Xor', 'Or', 'LAnd', 'LOr', 'Assign', 'MulAssign', 'DivAssign', 'RemAssign', 'AddAssign', 'SubAssign',
      'ShlAssign', 'ShrAssign', 'AndAssign', 'XorAssign', 'OrAssign', 'Comma']
BOI = {n: i for i, n in enumerate(BO)}
ARITH = ['Mul', 'Div', 'Rem', 'Add', 'Sub', 'And', 'Xor', 'Or']
REL = ['LT', 'GT', 'LE', 'GE', 'EQ', 'NE']
ASSIGN = BO[BOI['Assign']:BOI['OrAssign'] + 1]
INTONLY = {'Rem', 'And', 'Xor', 'Or', 'Shl', 'Shr', 'RemAssign', 'AndAssign', 'XorAssign', 'OrAssign', 'ShlAssign', 'ShrAssign'}
BINOPS = ARITH + ['Shl', 'Shr'] + REL + ['LAnd', 'LOr'] + ASSIGN
UO = ['PostInc', 'PostDec', 'PreInc', 'PreDec', 'AddrOf', 'Deref', 'Plus', 'Minus', 'Not', 'LNot', 'Real', 'Imag', 'Extension', 'Coawait']
UOI = {n: i for i, n in enumerate(UO)}
UNOPS = ['PostInc', 'PostDec', 'PreInc', 'PreDec', 'Minus', 'Not', 'LNot']
B = z3.Bool
def promoted(k):
    return z3.Or(*[k == K[x] for x in ('UInt', 'ULong', 'ULongLong', 'UInt128', 'Int', 'Long', 'LongLong', 'Int128')], k_float(k))
def supported(t):
    k = kind(t)
    return [B('builtin(%s)' % t), k >= 0, k < K['Other']]
def rng_ok(X):
    r = 'R(%s)' % X
    sl, el = z3.Int(f'SourceManager.getSpellingLineNumber({r}.getBegin)'), z3.Int(f'SourceManager.getSpellingLineNumber({r}.getEnd)')
    sc, ec = z3.Int(f'SourceManager.getSpellingColumnNumber({r}.getBegin)'), z3.Int(f'SourceManager.getSpellingColumnNumber({r}.getEnd)')
    tl = z3.Int(f'MeasureTokenLength({r}.getEnd)')
    return [B(r + '.isValid'), B(f'invalidloc({r})') == False, z3.Or(sl < el, sc < ec + tl)]
def const_ax(X):
    "Relations between the constant-evaluation facts clang reports about X."
    t = 'type(%s)' % X
    k = kind(t)
    ic, fc, bc = B('iconst(%s)' % X), B('fconst(%s)' % X), B('bconst(%s)' % X)
    iv, fv, bv = z3.Int('ival(%s)' % X), z3.Real('fval(%s)' % X), B('bval(%s)' % X)
    vd = B('valuedependent(%s)' % X)
    return [z3.Implies(ic, k_integer(k)), z3.Implies(fc, k_float(k)),
            z3.Implies(z3.And(ic, bc), bv == (iv != 0)), z3.Implies(z3.And(fc, bc), bv == (fv != 0)),
            z3.Implies(ic, bc), z3.Implies(fc, bc), z3.Implies(z3.And(bc, k_integer(k)), ic),
            z3.Implies(z3.And(ic, k <= K['UInt128']), iv >= 0), z3.Implies(z3.And(ic, k == 0), iv <= 1),
            z3.Not(B('nulltype(%s)' % t)), z3.Not(vd)]
def bin_axioms(op, cxx):
    L, R_, T = 'type(lhs(E))', 'type(rhs(E))', 'type(E)'
    kl, kr, kt = kind(L), kind(R_), kind(T)
    ax = supported(L) + supported(R_) + supported(T) + rng_ok('E') + rng_ok('lhs(E)') + rng_ok('rhs(E)')
    ax += const_ax('lhs(E)') + const_ax('rhs(E)') + const_ax('E')
    if op in INTONLY: ax += [k_integer(kl), k_integer(kr)]
    if op in ARITH: ax += [kl == kr, kl == kt, promoted(kl)]
    elif op in ('Shl', 'Shr'): ax += [kl == kt, promoted(kl), promoted(kr)]
    elif op in REL:
        ax += [kl == kr, kt == (K['Bool'] if cxx else K['Int'])]
        if not cxx: ax += [promoted(kl)]
        else: ax += [z3.Or(promoted(kl), kl == K['Bool'])] if op in ('EQ', 'NE') and False else [promoted(kl)]
    elif op in ('LAnd', 'LOr'):
        if cxx: ax += [kl == 0, kr == 0, kt == 0]
        else: ax += [kt == K['Int']]
    else:
        ax += [kt == kl]
        if op == 'Assign': ax += [kr == kl]
    asg = op in ASSIGN
    ax += [B('lvalue(E)') == bool(asg and cxx)]
    if asg:
        ax += [B('lvalue(lhs(E))'), z3.Not(B('lvalue(rhs(E))')), z3.Not(B('bitfield(lhs(E))')), z3.Not(B('const(%s)' % L)), z3.Not(B('const(%s)' % T))]
        ax += [B('volatile(%s)' % T) == B('volatile(%s)' % L)] if cxx else [z3.Not(B('volatile(%s)' % T))]
        ax += [B('sideeffects(E)')]
    else:
        ax += [z3.Not(B('lvalue(lhs(E))')), z3.Not(B('lvalue(rhs(E))')), z3.Not(B('volatile(%s)' % T)), z3.Not(B('volatile(%s)' % L))]
    ax += [z3.Not(B('volatile(%s)' % R_))]
    return ax
def un_axioms(op, cxx):
    S, T = 'type(sub(E))', 'type(E)'
    ks, kt = kind(S), kind(T)
    ax = supported(S) + supported(T) + rng_ok('E') + rng_ok('sub(E)') + const_ax('E') + const_ax('sub(E)')
    inc = op in ('PostInc', 'PostDec', 'PreInc', 'PreDec')
    ax += [B('lvalue(E)') == bool(cxx and op in ('PreInc', 'PreDec'))]
    if inc:
        ax += [B('lvalue(sub(E))'), kt == ks, z3.Not(B('const(%s)' % S)), z3.Not(B('const(%s)' % T)), z3.Not(B('bitfield(sub(E))')), B('sideeffects(E)')]
        ax += [B('volatile(%s)' % T) == B('volatile(%s)' % S)] if cxx and op in ('PreInc', 'PreDec') else [z3.Not(B('volatile(%s)' % T))]
    else:
        ax += [z3.Not(B('lvalue(sub(E))')), z3.Not(B('volatile(%s)' % S)), z3.Not(B('volatile(%s)' % T))]
        if op == 'LNot':
            ax += [ks == 0, kt == 0] if cxx else [kt == K['Int']]
        else: ax += [kt == ks, promoted(ks)]
        if op == 'Not': ax += [k_integer(ks)]
    return ax
def expr_axioms(cxx):
    T = 'type(E)'
    return supported(T) + rng_ok('E') + const_ax('E') + [z3.Implies(B('bitfield(E)'), B('lvalue(E)')),
        z3.Implies(z3.Not(B('lvalue(E)')), z3.And(z3.Not(B('volatile(%s)' % T)))),
        z3.Implies(B('lvalue(E)'), z3.And(z3.Not(B('const(%s)' % T)), kind(T) != K['Bool'], z3.Not(B('bitfield(E)')),
                   B('nn(parent<ImplicitCastExpr>(E))'), z3.Not(B('lvalue(parent<ImplicitCastExpr>(E))')))) ]

def norm_range(it, c, this, a):
    v = val(a[1])
    n = v.name
    for suf in ('.getSourceRange',):
        if n.endswith(suf): n = n[:-len(suf)]
    return Obj('R(%s)' % n, 'clang::SourceRange')
def first_parent(it, c, this, a):
    T = bare(c['rt']); X = val(a[0])
    return Ptr(Obj('parent<%s>(%s)' % (T.split('::')[-1], X.name), T), B('nn(parent<%s>(%s))' % (T.split('::')[-1], X.name)))
def mk_options(opt, track, show, dump=False):
    def acc(v): return lambda it, c, this, a: v
    return {'dredd::Options::GetOptimiseMutations': acc(opt), 'dredd::Options::GetOnlyTrackMutantCoverage': acc(track),
            'dredd::Options::GetShowAstNodeTypes': acc(show)}

class Setup:
    """prog + (kind, op, cxx, opt, track, show) -> list of path records."""
    def __init__(s, prog, contracts=None): s.prog = prog; s.contracts = contracts or {}
    def run(s, cls, op, cxx, opt, track, show=False, maxpaths=3000):
        prog = s.prog
        short = cls.split('::')[-1]
        ctor = [f for f in prog.byname.get(cls + '::' + short, []) if f.get('ctor') and f.get('body') is not None]
        app = prog.find(cls + '::Apply')
        if not ctor or not app: raise ToolLimit('no ' + cls)
        ctor = ctor[0]
        kindof = {'MutationReplaceBinaryOperator': 'bin', 'MutationReplaceUnaryOperator': 'un', 'MutationReplaceExpr': 'expr', 'MutationRemoveStmt': 'stmt'}[short]
        cfg = {'fields': {('LangOpts', 'CPlusPlus'): cxx}, 'opcode': {}}
        if kindof == 'bin': cfg['opcode']['E'] = BOI[op]; ax = bin_axioms(op, cxx)
        elif kindof == 'un': cfg['opcode']['E'] = UOI[op]; ax = un_axioms(op, cxx)
        elif kindof == 'expr': ax = expr_axioms(cxx)
        else: ax = rng_ok('E')
        et = {'bin': 'clang::BinaryOperator', 'un': 'clang::UnaryOperator', 'expr': 'clang::Expr', 'stmt': 'clang::Stmt'}[kindof]
        summ = {}
        def make(prefix):
            m = Models(prog, cfg)
            m.extra.update(mk_options(opt, track, show))
            m.extra['dredd::GetSourceRangeInMainFile'] = norm_range
            m.extra['dredd::PrecedingCharacterIsIdentifierCharacter'] = lambda it, c, this, a: B('precident(%s)' % it.nm(a[1]))
            m.extra['dredd::GetFirstParentOfType'] = first_parent
            m.extra.update(s.contracts)
            c = Ctx(prog, m, list(ax), prefix); c.summaries = summ
            return c
        def pick(p, mid, first, decls, E):
            t = p['t']; b = bare(t)
            if b == 'clang::ASTContext': return Obj('ASTContext', b)
            if b == 'clang::Preprocessor': return Obj('Preprocessor', b)
            if b == 'clang::CompilerInstance': return Obj('CompilerInstance', b)
            if b == 'clang::Rewriter': return Obj('Rewriter', b)
            if b == 'dredd::Options': return Obj('Options', b)
            if b == 'int' and t.strip().endswith('&'): return mid
            if b == 'int': return first
            if b.startswith('std::unordered_set') or b.startswith('std::set'): return decls
            if b.startswith('clang::'): return E if not t.strip().endswith('*') else Ptr(E, True)
            raise ToolLimit('parameter ' + t)
        def run(ctx):
            it = Interp(ctx)
            E = Obj('E', et)
            mid, first, decls = Cell(z3.Int('mid')), z3.Int('first'), Cell(SetV())
            st = Cell(Struct(cls))
            rec = prog.rec.get(cls)
            if rec:
                for f in rec['fields']: st.v.f[f['name']] = Cell(ctx.models.default(it, f['t']), f['name'])
            it.construct_into(st, ctor, [pick(p, mid, first, decls, E) for p in ctor['params']])
            r = it.call_fn(app, st, [pick(p, mid, first, decls, E) for p in app['params']])
            return dict(effects=ctx.effects.v, decls=[c.v for c in decls.v.items], info=r, mid=mid.v, kind=kindof, op=op, cxx=cxx, opt=opt, track=track)
        return explore(make, run, maxpaths)

def load(dirname='/tmp/b0/x'):
    import glob
    return Program({os.path.basename(f)[:-5]: json.load(open(f)) for f in sorted(glob.glob(dirname + '/*.json'))})
if __name__ == '__main__':
    p = load()
    S = Setup(p)
    which, op, cxx, opt, track = sys.argv[1:6]
    t = time.time()
    recs = S.run('dredd::' + which, op, cxx == '1', opt == '1', track == '1')
    print(len(recs), 'paths', round(time.time() - t, 2), 's', sum(c.stats['checks'] for c, _ in recs), 'checks')
    for c, r in recs[:int(os.environ.get('N', '2'))]:
        print('PC', c.pc); print('OBL', c.obl)
        if r is None: continue
        for e in r['effects']: print('  EFF', e)
        for d in r['decls']: print('  DECL', d)
        print('  MID', z3.simplify(r['mid'])); print('  INFO', r['info'])
