"""Obligations that relate two executions of the same functions: optimised and
unoptimised (C07), tracking and normal (C03, C05), two sites of one file (C06)."""
import re, z3, itertools
from core import *
from mutharness import *
from checker import Checker, Result, Split, Txt, OPSTR, proto_enums, name_of
from minic import Bad
import models
from models import KINDS, K, kind

# ---- path conditions -----------------------------------------------------------
def atoms(e, acc, seen):
    if e.get_id() in seen: return
    seen.add(e.get_id())
    if z3.is_const(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[str(e)] = e
        return
    for c in e.children(): atoms(c, acc, seen)
def rename(e, tag, keep):
    "Renames the atoms of e that `keep` rejects."
    acc = {}; atoms(e, acc, set())
    sub = [(a, z3.Const(n + tag, a.sort())) for n, a in acc.items() if not keep(n)]
    return z3.substitute(e, sub) if sub else e
def local(n): return n.startswith('unspec!') or 'loop' in n or n.startswith('leaves(') or n.startswith('iterates(')
def groups(C, recs, tag):
    "Instance list -> disjunction of the path conditions that lead to it."
    g = {}
    for i, (c, r) in enumerate(recs):
        if not r: continue
        _, inst = C.instances(r)
        f = rename(z3.And(*c.pc) if c.pc else z3.BoolVal(True), "'%s%d" % (tag, i), lambda n: not local(n))
        g.setdefault(tuple(a for _, a in inst), []).append(f)
    return {k: z3.Or(*v) for k, v in g.items()}
def subseq(a, b):
    it = iter(b); return all(x in it for x in a)
def mode_agreement(C, ax, a, b, res, where):
    "The same mutants are recorded whether or not coverage is tracked."
    ga, gb = groups(C, a, 'n'), groups(C, b, 't')
    s = z3.Solver(); s.set('timeout', 20000); s.add(*ax)
    for la, fa in ga.items():
        for lb, fb in gb.items():
            if la == lb:
                for p in ('C03', 'C05'): res.ob(p, 'tracking mode records the mutants of the normal mode', True)
                continue
            r = s.check(fa, fb)
            if r == z3.unknown: raise ToolLimit('solver gave up')
            for p in ('C03', 'C05'): res.ob(p, 'tracking mode records the mutants of the normal mode', r == z3.unsat, lambda: f'{where}: {la} without, {lb} with tracking')

# ---- value semantics --------------------------------------------------------------
CLS = {('b', 1): ['Bool'], ('u', 8): ['Char_U', 'UChar', 'Char8'], ('u', 16): ['Char16', 'UShort'], ('u', 32): ['WChar_U', 'Char32', 'UInt'],
       ('u', 64): ['ULong', 'ULongLong'], ('u', 128): ['UInt128'], ('s', 8): ['Char_S', 'SChar'], ('s', 16): ['Short'], ('s', 32): ['WChar_S', 'Int'],
       ('s', 64): ['Long', 'LongLong'], ('s', 128): ['Int128'], ('f', 0): ['Half', 'Float', 'Double', 'LongDouble', 'Float16', 'BFloat16', 'Float128', 'Ibm128']}
T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
def promote(c): return ('s', 32) if c[0] == 'b' or c[0] != 'f' and c[1] < 32 else c
def common(a, b):
    a, b = promote(a), promote(b)
    if 'f' in (a[0], b[0]): return ('f', 0)
    n = max(a[1], b[1])
    return ('u', n) if ('u', n) in (a, b) else ('s', n)
def lit(v, c):
    return z3.RealVal(v) if c[0] == 'f' else z3.BitVecVal(int(v), c[1])
def truth(v, c): return v != lit(0, c)
def ofbool(x, c): return z3.If(x, lit(1, c), lit(0, c))
def conv(v, a, b):
    if a == b: return v
    if b[0] == 'b': return ofbool(truth(v, a), b)
    if a[0] == 'f':
        w = z3.simplify(v)
        if z3.is_rational_value(w):
            n = abs(w.numerator_as_long()) // w.denominator_as_long()
            return lit(n if w.numerator_as_long() >= 0 else -n, b)
        return z3.Function('f2i%s%d' % b, z3.RealSort(), z3.BitVecSort(b[1]))(v)
    if b[0] == 'f':
        if a[0] == 'b': return ofbool(truth(v, a), b)
        if z3.is_bv_value(v): return z3.RealVal(v.as_signed_long() if a[0] == 's' else v.as_long())
        return z3.Function('i2f%s%d' % a, z3.BitVecSort(a[1]), z3.RealSort())(v)
    if b[1] < a[1]: return z3.Extract(b[1] - 1, 0, v)
    if b[1] == a[1]: return v
    return (z3.SignExt if a[0] == 's' else z3.ZeroExt)(b[1] - a[1], v)
CMPS = {'<', '>', '<=', '>=', '==', '!='}
def arith(op, x, y, c, yc=None):
    "x op y in the promoted class c: (value, defined)"
    f, s = c[0] == 'f', c[0] == 's'
    if op in CMPS:
        if op == '==': r = x == y
        elif op == '!=': r = x != y
        elif f or s: r = {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        else: r = {'<': z3.ULT(x, y), '>': z3.UGT(x, y), '<=': z3.ULE(x, y), '>=': z3.UGE(x, y)}[op]
        return r, T_
    if f:
        if op == '/': return x / y, y != 0
        if op in '+-*': return {'+': x + y, '-': x - y, '*': x * y}[op], T_
        raise ToolLimit('float operator ' + op)
    z = lit(0, c)
    if op == '+': return x + y, z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)) if s else T_
    if op == '-': return x - y, z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if s else T_
    if op == '*':
        for a, b in ((x, y), (y, x)):
            if z3.is_bv_value(a) and a.as_long() == 0: return z, T_
            if z3.is_bv_value(a) and a.as_long() == 1: return b, T_
        return x * y, z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)) if s else T_
    if op in '/%':
        d = y != z
        if s: d = z3.And(d, z3.Not(z3.And(x == lit(1 << (c[1] - 1), c), y == lit(-1, c))))
        if z3.is_bv_value(x) and x.as_long() == 0: return x, d
        if z3.is_bv_value(y) and y.as_long() == 1: return (x if op == '/' else z), d
        if op == '/': return (x / y if s else z3.UDiv(x, y)), d
        return (z3.SRem(x, y) if s else z3.URem(x, y)), d
    if op in ('<<', '>>'):
        yc = yc or c
        d = z3.And(*(([y >= 0] if yc[0] == 's' else []) + [(y < c[1]) if yc[0] == 's' else z3.ULT(y, lit(c[1], yc))]))
        sh = conv(y, yc, c)
        if op == '>>': return (x >> sh if s else z3.LShR(x, sh)), d
        r = x << sh
        if s: d = z3.And(d, x >= 0, z3.LShR(r, sh) == x, r >= 0)
        return r, d
    return {'&': x & y, '|': x | y, '^': x ^ y}[op], T_
class V:
    "Result of a variant: comparable components and where it is defined."
    def __init__(s, comps, d=T_): s.c, s.d = comps, d
    def eq(s, o): return z3.And(*[a == b for a, b in zip(s.c, o.c)])
def binsem(op, l, cl, r, cr, ct, act):
    "The value of action `act` (or the original, act=op) of `l op r`, as class ct."
    if act == 'LHS': return V([conv(l, cl, ct)])
    if act == 'RHS': return V([conv(r, cr, ct)])
    o = OPSTR[act]
    asg = op in ASSIGN
    if asg:
        if act == 'Assign': return V([conv(r, cr, cl)])
        o = o[:-1]
    if op in ('LAnd', 'LOr'):
        x, y = truth(l, cl), truth(r, cr)
        return V([ofbool({'&&': z3.And(x, y), '||': z3.Or(x, y), '==': x == y, '!=': x != y}[o], ct)])
    if o in ('&&', '||'): return V([ofbool((z3.And if o == '&&' else z3.Or)(truth(l, cl), truth(r, cr)), ct)])
    if o in ('<<', '>>'):
        t, u = promote(cl), promote(cr)
        v, d = arith(o, conv(l, cl, t), conv(r, cr, u), t, u)
    else:
        t = common(cl, cr)
        v, d = arith(o, conv(l, cl, t), conv(r, cr, t), t)
    if o in CMPS: return V([ofbool(v, ct)], d)
    return V([conv(v, t, cl if asg else ct)], d)
def unsem(op, x, cx, ct, act):
    if act == 'Operand': return V([conv(x, cx, ct), x])
    if act in ('PostInc', 'PreInc', 'PostDec', 'PreDec'):
        t = common(cx, ('s', 32))
        v, d = arith('+' if act.endswith('Inc') else '-', conv(x, cx, t), lit(1, t), t)
        n = conv(v, t, cx)
        return V([conv(x if act.startswith('Post') else n, cx, ct), n], d)
    if act == 'LNot': return V([ofbool(z3.Not(truth(x, cx)), ct), x])
    t = promote(cx); y = conv(x, cx, t)
    if act == 'Minus':
        v, d = arith('-', lit(0, t), y, t)
        return V([conv(v, t, ct), x], d)
    if act == 'Not': return V([conv(~y, t, ct), x])
    if act == 'Plus': return V([conv(y, t, ct), x])
    raise ToolLimit('action ' + act)
class Redundancy:
    """Decides that a variant is redundant with respect to kept ones."""
    def __init__(s): s.n = 0; s.unknown = False
    def unsat(s, *f):
        s.n += 1
        q = z3.Solver(); q.set('timeout', 4000)
        r = q.check(*f)
        if r == z3.unknown: s.unknown = True
        return r == z3.unsat
    def sat(s, *f):
        s.n += 1
        q = z3.Solver(); q.set('timeout', 4000)
        r = q.check(*f)
        if r == z3.unknown: s.unknown = True
        return r == z3.sat
    def holds(s, m, orig, kept, dom):
        dom = z3.And(dom, orig.d); s.unknown = False
        if s.unsat(dom, m.d, z3.Not(m.eq(orig))): return 'original'
        for n, k in kept:
            if s.unsat(dom, m.d, z3.Not(z3.And(k.d, k.eq(m)))): return n
        for n, k in kept:
            # wherever the kept mutant differs from the original the omitted one does too, with the same result
            if s.unsat(dom, m.d, z3.Not(z3.And(k.d, k.eq(orig))), z3.Not(z3.And(k.d, k.eq(m)))) and s.sat(dom, k.d, z3.Not(k.eq(orig))): return 'subsumed by ' + n
        if s.unknown: raise ToolLimit('solver gave up on a redundancy proof')
        return None

# ---- facts about operands ---------------------------------------------------------
def constants(fs, X):
    "The values the path conditions compare the constant X with."
    out = {0, 1, -1}
    iv, fv = 'ival(%s)' % X, 'fval(%s)' % X
    seen = set()
    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        ch = e.children()
        if len(ch) == 2 and any(z3.is_const(c) and str(c) in (iv, fv) for c in ch):
            for c in ch:
                if z3.is_int_value(c): out.add(c.as_long())
                elif z3.is_rational_value(c) and c.denominator_as_long() == 1: out.add(c.numerator_as_long())
        for c in ch: walk(c)
    for f in fs: walk(f)
    return sorted(out)
def facts(X, cls, consts):
    """[(formula over the path atoms, value, formula over the value)]"""
    k = kind('type(%s)' % X)
    ink = z3.Or(*[k == K[n] for n in CLS[cls]])
    ic, fc, bc = z3.Bool('iconst(%s)' % X), z3.Bool('fconst(%s)' % X), z3.Bool('bconst(%s)' % X)
    iv, fv = z3.Int('ival(%s)' % X), z3.Real('fval(%s)' % X)
    sort = z3.RealSort() if cls[0] == 'f' else z3.BitVecSort(cls[1])
    v = z3.Const('v_' + X, sort)
    out = [('not constant', z3.And(ink, z3.Not(ic), z3.Not(fc), z3.Not(bc)), v, T_)]
    isc, val = (fc, fv) if cls[0] == 'f' else (ic, iv)
    ok = [c for c in consts if cls[0] in 'sf' or c >= 0 and (cls[0] == 'u' or c <= 1)]
    for c in ok: out.append((str(c), z3.And(ink, isc, val == c), lit(c, cls), T_))
    if cls[0] != 'b': out.append(('another constant', z3.And(ink, isc, *[val != c for c in ok]), v, z3.And(*[v != lit(c, cls) for c in ok])))
    return out
REDN = 'an omitted mutant is redundant'
def opt_pairs(C, S, cls_, op, cxx, res):
    """C07 for one class and operator."""
    short = {'MutationReplaceBinaryOperator': 'bin', 'MutationReplaceUnaryOperator': 'un', 'MutationReplaceExpr': 'expr', 'MutationRemoveStmt': 'stmt'}[cls_]
    where = f"{short}:{op} {'C++' if cxx else 'C'}"
    ga, ax = run_groups(C, S, cls_, op, cxx, True)
    gb, _ = run_groups(C, S, cls_, op, cxx, False)
    s = z3.Solver(); s.set('timeout', 20000); s.add(*ax)
    def sat(*f):
        r = s.check(*f)
        if r == z3.unknown: raise ToolLimit('solver gave up')
        return r == z3.sat
    todo = []
    for la, fa in ga.items():
        for lb, fb in gb.items():
            if not sat(fa, fb): continue
            res.ob('C07', 'the optimised mutants are an ordered subset', subseq(la, lb), lambda: f'{where}: {la} with, {lb} without optimisations')
            om = [m for m in lb if m not in la]
            if om and subseq(la, lb): todo.append((la, om, fa, fb))
    R_ = Redundancy()
    if short == 'bin': bin_red(todo, op, cxx, sat, R_, res, where)
    elif short == 'un': un_red(todo, op, cxx, sat, R_, res, where)
    elif short == 'expr': expr_red(C, S, todo, cxx, sat, R_, res, where)
    return R_.n
def run_groups(C, S, cls_, op, cxx, opt):
    recs = S.run('dredd::' + cls_, op, cxx, opt, False)
    ax = recs[0][0].axioms
    return groups(C, recs, 'o' if opt else 'u'), ax
def consts_for(ct): return [('constant %d' % c, V([lit(c, ct)])) for c in ((0, 1, -1) if ct[0] in 'sf' else (0, 1))]
def rclass(op, cl, cr, cxx):
    if op in REL or op in ('LAnd', 'LOr'): return ('b', 1) if cxx else ('s', 32)
    if op in ASSIGN: return cl
    return promote(cl) if op in ('Shl', 'Shr') else common(cl, cr)
def strip_(m): return m[len('ReplaceWith'):]
def bin_red(todo, op, cxx, sat, R_, res, where):
    if not todo: return
    fs = [f for t in todo for f in t[2:]]
    kl, kr = constants(fs, 'lhs(E)'), constants(fs, 'rhs(E)')
    same = op in ARITH or op in REL or op == 'Assign'
    memo = {}
    for cl in CLS:
        for cr in CLS:
            if same and cl != cr: continue
            if not sat(z3.Or(*[kind('type(lhs(E))') == K[n] for n in CLS[cl]]), z3.Or(*[kind('type(rhs(E))') == K[n] for n in CLS[cr]])): continue
            ct = rclass(op, cl, cr, cxx)
            for nl, al, l, dl in facts('lhs(E)', cl, kl):
                for nr, ar, r, dr in facts('rhs(E)', cr, kr):
                    for la, om, fa, fb in todo:
                        if not sat(al, ar, fa, fb): continue
                        for m in om:
                            if op in REL and m in ('ReplaceWithLHS', 'ReplaceWithRHS'): continue
                            key = (cl, cr, nl, nr, la, m)
                            if key not in memo:
                                orig = binsem(op, l, cl, r, cr, ct, op)
                                kept = [(k, binsem(op, l, cl, r, cr, ct, strip_(k))) for k in la]
                                memo[key] = R_.holds(binsem(op, l, cl, r, cr, ct, strip_(m)), orig, consts_for(ct if op not in ASSIGN else cl) + kept, z3.And(dl, dr))
                            res.ob('C07', REDN, memo[key] is not None, lambda: f'{where}: {m} is omitted for lhs {nl}, rhs {nr} of {cl}, {cr}; kept {la}')
def un_red(todo, op, cxx, sat, R_, res, where):
    if not todo: return
    fs = [f for t in todo for f in t[2:]]
    kx = constants(fs, 'sub(E)')
    for cx in CLS:
        if not sat(z3.Or(*[kind('type(sub(E))') == K[n] for n in CLS[cx]])): continue
        ct = ('b', 1) if op == 'LNot' and cxx else ('s', 32) if op == 'LNot' else cx
        for nx, a, x, d in facts('sub(E)', cx, kx):
            if nx != 'not constant' and op in ('PreInc', 'PostInc', 'PreDec', 'PostDec'): continue      # a modifiable lvalue is not constant
            if nx in ('0', '1') and op == 'Not': continue       # never instrumented (obligation of MutateVisitor::HandleUnaryOperator)
            for la, om, fa, fb in todo:
                if not sat(a, fa, fb): continue
                orig = unsem(op, x, cx, ct, op)
                kept = [(k, unsem(op, x, cx, ct, strip_(k))) for k in la]
                kept = [(n, V(v.c + [x])) for n, v in consts_for(ct)] + kept
                for m in om:
                    if m == 'ReplaceWithOperand' and op in ('Minus', 'Not', 'LNot'): continue
                    res.ob('C07', REDN, R_.holds(unsem(op, x, cx, ct, strip_(m)), orig, kept, d) is not None, lambda: f'{where}: {m} is omitted for operand {nx} of {cx}; kept {la}')
EXC = {'ReplaceWithTrue': 1, 'ReplaceWithFalse': 0, 'ReplaceWithZeroInt': 0, 'ReplaceWithOneInt': 1, 'ReplaceWithMinusOneInt': -1, 'ReplaceWithZeroFloat': 0, 'ReplaceWithOneFloat': 1, 'ReplaceWithMinusOneFloat': -1}
def exsem(e, c, act):
    if act in EXC: return V([lit(EXC[act], c)])
    v = unsem('', e, c, c, act[len('Insert'):])
    return V(v.c[:1], v.d)
def expr_red(C, S, todo, cxx, sat, R_, res, where):
    if not todo: return
    fs = [f for t in todo for f in t[2:]]
    ke = constants(fs, 'E')
    OPS = REL + ['LAnd', 'LOr']
    isb, oc = z3.Bool('isa(E,BinaryOperator)'), z3.Int('opcode(E)')
    P = 'parent<BinaryOperator>(E)'
    arg = {}
    for o in ('LAnd', 'LOr'):
        for side in ('lhs', 'rhs'):
            other = 'rhs' if side == 'lhs' else 'lhs'
            arg[(o, side)] = z3.And(z3.Bool('nn(%s)' % P), z3.Int('opcode(%s)' % P) == BOI[o], z3.Bool('same(E,%s(%s))' % (side, P)))
    anyarg = z3.Or(*arg.values())
    if cxx:
        # the operands of a built-in && or || are of type bool in C++
        sat_ = sat; sat = lambda *f: sat_(z3.Implies(anyarg, kind('type(E)') == K['Bool']), *f)
    keptbin = {}
    def kept_of(o):
        "Replacements of operator o that are kept whatever is known about its operands."
        if o not in keptbin:
            g, _ = run_groups(C, S, 'MutationReplaceBinaryOperator', o, cxx, True)
            keptbin[o] = [m for m in next(iter(g)) if all(m in l for l in g)]
        return keptbin[o]
    shapes = [('', z3.Not(z3.And(isb, z3.Or(*[oc == BOI[o] for o in OPS]))))] + [(o, z3.And(isb, oc == BOI[o])) for o in OPS]
    memo = {}
    def prove(key, m, la, E, c, dom, bins):
        if key not in memo:
            # by design, ~ and - inserted before the result of a relational operator in C are judged by the truth value of the result
            tv = (lambda v: V([ofbool(truth(v.c[0], c), c)], v.d)) if key[2] in REL and not cxx and m in ('InsertNot', 'InsertMinus') else lambda v: v
            orig = tv(V([E]))
            kept = [(k, tv(exsem(E, c, k))) for k in la] + [(k, tv(v)) for k, v in bins]
            memo[key] = R_.holds(tv(exsem(E, c, m)), orig, kept, dom)
        return memo[key]
    def ctxproof(key, o, side, m, la, E, c, dom, bins):
        "Redundant as an operand of a logical operator o."
        if key not in memo:
            z = z3.Const('v_other', z3.BitVecSort(1)); b = ('b', 1)
            def lift(v):
                x, y = (v.c[0], z) if side == 'lhs' else (z, v.c[0])
                return V(binsem(o, x, b, y, b, b, o).c, v.d)
            x, y = (E, z) if side == 'lhs' else (z, E)
            kept = [(k, lift(exsem(E, c, k))) for k in la] + [(n, lift(v)) for n, v in bins] + [('%s of the parent' % k, binsem(o, x, b, y, b, b, strip_(k))) for k in kept_of(o)]
            memo[key] = R_.holds(lift(exsem(E, c, m)), lift(V([E])), kept, dom)
        return memo[key]
    for c in CLS:
        for ne, ae, e, de in facts('E', c, ke):
            for o, af in shapes:
                if o and c != (('b', 1) if cxx else ('s', 32)): continue
                for la, om, fa, fb in todo:
                    if not sat(ae, af, fa, fb): continue
                    for m in om:
                        for a in [None] + (list(arg) if cxx else []):
                            if not sat(ae, af, fa, fb, z3.Not(anyarg) if a is None else arg[a]): continue
                            ok = True; det = ''
                            opcl = [None] if not o else [('b', 1)] if cxx and o in ('LAnd', 'LOr') else [x for x in CLS if promote(x) == x]
                            for oc_ in opcl:
                                bins, E, dom = [], e, de
                                if o:
                                    so = z3.RealSort() if oc_[0] == 'f' else z3.BitVecSort(oc_[1])
                                    l, r = z3.Const('v_l', so), z3.Const('v_r', so)
                                    ov = binsem(o, l, oc_, r, oc_, c, o).c[0]
                                    dom = z3.And(de, e == ov) if z3.is_bv_value(e) else z3.And(z3.substitute(de, (e, ov)))
                                    E = ov
                                    bins = [('%s of the expression' % k, binsem(o, l, oc_, r, oc_, c, strip_(k))) for k in kept_of(o)]
                                p = prove((c, ne, o, oc_, la, m), m, la, E, c, dom, bins)
                                if p is None and a is not None and c == ('b', 1): p = ctxproof((c, ne, o, oc_, la, m, a), a[0], a[1], m, la, E, c, dom, bins)
                                if p is None: ok = False; det = f'operands {oc_}'
                            res.ob('C07', REDN, ok, lambda: f'{where}: {m} is omitted for {ne} of {c} {o} {a or ""} {det}; kept {la}')

# ---- C06: two sites of one file ---------------------------------------------------
SPELL = ['bool', '_Bool', 'char', 'unsigned_char', 'signed_char', 'wchar_t', 'char8_t', 'char16_t', 'char32_t', 'unsigned_short', 'unsigned_int', 'unsigned_long',
         'unsigned_long_long', 'unsigned___int128', 'short', 'int', 'long', 'long_long', '__int128', '__fp16', 'float', 'double', 'long_double', '_Float16', '__bf16', '__float128', '__ibm128', 'half']
HOLE = re.compile('⟦_?([^⟧]*)⟧')
def decl_entries(C, recs):
    """{(name, parameters, text): condition} over all declarations of a configuration."""
    out = {}
    for i, (c, r) in enumerate(recs):
        if not r or not r['decls']: continue
        for d in r['decls']:
            for conds, (x,) in Split(c).cases([d]):
                t = Txt()(x)
                m = re.match(r'((?:⟦[^⟧]*⟧|[^({⟦])*[ *&])((?:⟦[^⟧]*⟧|[\w])+)(\((?:⟦[^⟧]*⟧|[^{⟦])*\)) *\{', t)
                if not m: raise ToolLimit('declaration text ' + t[:80])
                nm, par = m.group(2), m.group(3)
                f = z3.And(*c.pc, *conds)
                out.setdefault((nm, par, t), []).append(rename(f, "'d%d" % i, lambda n: not local(n)))
    return {k: z3.Or(*v) for k, v in out.items()}
def ends(n):
    m = list(HOLE.finditer(n))
    return (n[:m[0].start()], n[m[-1].end():]) if m else (n, n)
def unify(a, b):
    "Could two different name templates be instantiated to the same name?"
    (pa, sa), (pb, sb) = ends(a), ends(b)
    if not (pa.startswith(pb) or pb.startswith(pa)): return False
    if not HOLE.search(a) and not HOLE.search(b): return a == b
    s, l = sorted((sa, sb), key=len)
    if not l.endswith(s): return False
    if s != l:
        e = l[:len(l) - len(s)]
        if not any(x.endswith(e) or e.endswith(x) for x in SPELL): return False
    if HOLE.sub('⟦⟧', a) == HOLE.sub('⟦⟧', b): return True
    alt = '(?:%s)' % '|'.join(map(re.escape, SPELL))
    ra = re.compile(''.join(alt if i % 2 else re.escape(x) for i, x in enumerate(HOLE.split(a))) + r'\Z')
    hb = HOLE.split(b); n = len(hb) // 2
    for combo in itertools.product(SPELL, repeat=n):
        if ra.match(''.join(combo[i // 2] if i % 2 else x for i, x in enumerate(hb))): return True
    return False
def shared_atom(hs):
    ok = set()
    for h in hs: ok |= {'kind(%s)' % h, 'builtin(%s)' % h}
    return lambda n: n in ok
def clash_check(C, recs, cxx, res, where):
    ax = recs[0][0].axioms
    es = decl_entries(C, recs)
    s = z3.Solver(); s.set('timeout', 20000)
    A = z3.And(*ax)
    def sat(*f):
        r = s.check(*f)
        if r == z3.unknown: raise ToolLimit('solver gave up')
        return r == z3.sat
    L = list(es.items())
    names = sorted(set(k[0] for k, _ in L))
    for a, b in itertools.combinations(names, 2):
        if HOLE.sub('⟦⟧', a) == HOLE.sub('⟦⟧', b): continue
        res.ob('C06', 'names of different helpers differ', not unify(a, b), lambda: f'{where}: {a} and {b}')
    for i, ((n1, p1, t1), f1) in enumerate(L):
        for (n2, p2, t2), f2 in L[i:]:
            if HOLE.sub('⟦⟧', n1) != HOLE.sub('⟦⟧', n2): continue
            if cxx and HOLE.sub('⟦⟧', p1) != HOLE.sub('⟦⟧', p2): continue       # other parameter types
            g2 = rename(z3.And(A, f2), '~', lambda n: False)
            def eqs(x, y): return [kind(a) == z3.Int('kind(%s)~' % b) for a, b in zip(HOLE.findall(x), HOLE.findall(y))]
            same = eqs(n1, n2) + (eqs(p1, p2) if cxx else [])
            ok = False
            if HOLE.sub('⟦⟧', t1) == HOLE.sub('⟦⟧', t2):
                e = eqs(t1, t2)
                ok = not e or not sat(A, f1, g2, *same, z3.Not(z3.And(*e)))
            else: ok = not sat(A, f1, g2, *same)
            res.ob('C06', 'helpers of the same name and parameters have the same text', ok, lambda: f'{where}: {n1}{p1}: {first_diff(t1, t2)}')
    return sorted(set(ends(n)[0] for n in names))
def first_diff(a, b):
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y: return f'{x.strip()!r} and {y.strip()!r}'
    return 'different lengths'
