"""Postconditions of Mutation::Apply, checked on every path record."""
import re, z3, itertools
from core import *
import minic
from minic import Bad, parse_functions, parse_expr, parse_stmts, Ev, plain, lazies, truth, strip
from mutharness import *

def proto_enums(path):
    out = {}
    txt = open(path).read()
    txt = re.sub(r'//[^\n]*', '', txt)
    for m in re.finditer(r'enum\s+(\w+)\s*\{(.*?)\}', txt, re.S):
        out[m.group(1)] = {int(v): n for n, v in re.findall(r'(\w+)\s*=\s*(\d+)\s*;', m.group(2))}
    return out
OPSTR = {'Mul': '*', 'Div': '/', 'Rem': '%', 'Add': '+', 'Sub': '-', 'Shl': '<<', 'Shr': '>>', 'LT': '<', 'GT': '>', 'LE': '<=',
         'GE': '>=', 'EQ': '==', 'NE': '!=', 'And': '&', 'Xor': '^', 'Or': '|', 'LAnd': '&&', 'LOr': '||', 'Assign': '=',
         'MulAssign': '*=', 'DivAssign': '/=', 'RemAssign': '%=', 'AddAssign': '+=', 'SubAssign': '-=', 'ShlAssign': '<<=',
         'ShrAssign': '>>=', 'AndAssign': '&=', 'XorAssign': '^=', 'OrAssign': '|='}

# ---- resolving conditional text ------------------------------------------------
def itesin(r, acc):
    for p in r.p:
        if isinstance(p, IteP):
            acc.append(p); itesin(p.a, acc); itesin(p.b, acc)
        elif isinstance(p, MapP): itesin(p.r, acc)
    return acc
class Split:
    "Enumerates the feasible valuations of the conditions in a tuple of ropes."
    def __init__(s, ctx): s.c = ctx
    def cases(s, ropes):
        todo = [([], {}, ropes)]
        while todo:
            conds, env, rs_ = todo.pop()
            ite = None
            rs2 = []
            for r in rs_:
                r, it_ = s.res(r, env)
                rs2.append(r)
                if ite is None: ite = it_
            if ite is None:
                yield conds, rs2; continue
            c = ite
            for pos in (True, False):
                x = c if pos else z3.Not(c)
                if s.c.sat(*conds, x):
                    e2 = dict(env); e2[c.get_id()] = pos
                    todo.append((conds + [x], e2, rs2))
    def res(s, r, env):
        out, first = [], None
        for p in r.p:
            if isinstance(p, IteP):
                v = env.get(p.c.get_id())
                if v is None: v = s.known(p.c)
                if v is None:
                    if first is None: first = p.c
                    out.append(p)
                else:
                    q, f = s.res(p.a if v else p.b, env)
                    if first is None: first = f
                    out += list(q.p)
            elif isinstance(p, MapP):
                q, f = s.res(p.r, env)
                if first is None: first = f
                if f is None and all(isinstance(x, str) for x in q.p): out.append(''.join(q.p).replace(*p.m))
                else: out.append(MapP(p.m, q))
            else: out.append(p)
        return Rope(out), first
    def known(s, c):
        k = s.c.lits.get(c.get_id())
        return k[1] if k is not None else None
class Txt:
    "Rope -> string with placeholders; remembers what they stand for."
    def __init__(s): s.ids = {}
    def __call__(s, r):
        out = []
        for p in r.p:
            if isinstance(p, str): out.append(p)
            elif isinstance(p, IntP):
                s.ids['#' + p.k] = p.e; out.append('«#%s»' % p.k.replace('\n', ''))
            elif isinstance(p, Hole):
                if p.name.startswith('tname:'): out.append('⟦%s⟧' % p.name[6:])
                else: out.append('«?%s»' % p.name)
            elif isinstance(p, MapP):
                for q in p.r.p:
                    if isinstance(q, Hole) and q.name.startswith('tname:'): out.append('⟦_%s⟧' % q.name[6:])
                    elif isinstance(q, str): out.append(q)
                    else: raise ToolLimit('mapped text')
            else: raise ToolLimit('text piece')
        return ''.join(out)

LOCS = {}
def site_text(kindof, op, edits, T, ck=None):
    """Applies the rewriter edits to the source template of the construct.
    Positions: list of slots, each with text inserted before / after."""
    if kindof == 'bin':
        toks = [('L', '«L»'), ('OP', ' %s ' % OPSTR[op]), ('R', '«R»')]
        begin = {'R(lhs(E))': 0, 'R(E)': 0, 'R(rhs(E))': 2}; end = {'R(lhs(E))': 0, 'R(E)': 2, 'R(rhs(E))': 2}
        opi = 1
    elif kindof == 'un':
        sym = {'PostInc': '++', 'PreInc': '++', 'PostDec': '--', 'PreDec': '--', 'Minus': '-', 'Not': '~', 'LNot': '!', 'Plus': '+'}[op]
        if op.startswith('Post'): toks = [('X', '«X»'), ('OP', sym)]; x, o = 0, 1
        else: toks = [('OP', sym), ('X', '«X»')]; x, o = 1, 0
        begin = {'R(E)': 0, 'R(sub(E))': x}; end = {'R(E)': 1, 'R(sub(E))': x}; opi = o
    else:
        toks = [('E', '«E»' if kindof == 'expr' else '«S»')]
        begin = {'R(E)': 0}; end = {'R(E)': 0}; opi = None
    pre = [''] * len(toks); post = [''] * len(toks); mid = [t[1] for t in toks]
    replaced = [False] * len(toks)
    for e in edits:
        k = e[0]
        if k == 'InsertBefore':
            i = slot(e[1], begin, '.getBegin'); pre[i] = T(e[2]) + pre[i]
        elif k == 'InsertAfterToken':
            i = slot(e[1], end, '.getEnd'); post[i] = post[i] + T(e[2])
        elif k == 'Replace' and kindof == 'stmt':
            # the token that ends the statement is rewritten together with the closing text
            i = slot(e[1], end, '.getEnd'); n = e[1].name; x = T(e[3])
            rng = n[:-len('.getEnd')]
            semi = re.match(r'ext<62>\((.*)\)$', rng)
            if semi:
                ok = x.startswith(';') and z3.is_int_value(zi(e[2])) and zi(e[2]).as_long() == 1 and ck(z3.Not(z3.Bool('eq(%s,%s)' % (semi.group(1), rng))))
            else:
                tok = 'rawtok(%s)' % n
                ok = x.startswith('}') and str(z3.simplify(zi(e[2]))) == 'MeasureTokenLength(%s)' % n and \
                     ck(z3.And(z3.Not(z3.Bool('fails(%s)' % tok)), z3.Bool('%s.is(24)' % tok)))
            if not ok: raise Bad('text is replaced that is not the token that ends the statement: %r' % x)
            post[i] = post[i] + x[1:]
        elif k == 'Replace':
            if opi is None or not (isinstance(e[1], Obj) and e[1].name == 'E.getOperatorLoc'):
                raise Bad('text is replaced that is not the operator token')
            if not (isz(e[2]) and str(z3.simplify(e[2])) == 'MeasureTokenLength(E.getOperatorLoc)'):
                raise Bad('length of the replaced text is not that of the operator token: %s' % (e[2],))
            if replaced[opi]: raise Bad('operator replaced twice')
            replaced[opi] = True; mid[opi] = T(e[3])
        else: raise ToolLimit('rewriter operation ' + k)
    return ''.join(a + b + c for a, b, c in zip(pre, mid, post)), pre[0]
def slot(loc, d, suf):
    n = loc.name if isinstance(loc, Obj) else str(loc)
    n0 = n
    if n.startswith('ext<'):
        n = models.extbase(n[:-len(suf)]) + suf if n.endswith(suf) else n
    if n.endswith(suf) and n[:-len(suf)] in d: return d[n[:-len(suf)]]
    raise Bad('edit at an unexpected location ' + n0)

class Result:
    def __init__(s): s.n = 0; s.bad = []; s.limit = []; s.byp = {}; s.names = {}
    def ob(s, prop, name, ok, detail=''):
        s.n += 1
        d = s.byp.setdefault(prop, [0, 0]); d[0] += 1
        nn = s.names.setdefault((prop, name), [0, 0]); nn[0] += 1; nn[1] += bool(ok)
        if ok: d[1] += 1
        else: s.bad.append((prop, name, detail() if callable(detail) else detail))
        return ok

def tkind(ty): return [x for x in ty if x.startswith('⟦')]
class TypeCk:
    def __init__(s, ctx, conds): s.c = ctx; s.conds = conds
    def ent(s, c):
        if isinstance(c, bool): return c
        return not s.c.sat(*s.conds, z3.Not(c))
    def base(s, ty, want):
        "The builtin type named in ty is that of clang type `want`."
        ks = tkind(ty)
        if len(ks) != 1: return False
        got = ks[0][1:-1]
        return got == want or s.ent(kind(got) == kind(want))
    def match(s, ty, want, ref):
        """ty denotes (a reference/pointer `ref` to) want, with the needed qualifiers."""
        if not s.base(ty, want): return False
        quals = [x for x in ty if x in ('const', 'volatile')]
        shape = [x for x in ty if x in ('*', '&', '&&')]
        if shape != ([ref] if ref else []): return False
        if ref:
            if 'volatile' not in quals and not s.ent(z3.Not(z3.Bool('volatile(%s)' % want))): return False
            if 'const' in quals and not s.ent(z3.Bool('const(%s)' % want)): return False
            if 'const' not in quals and not s.ent(z3.Not(z3.Bool('const(%s)' % want))): return False
        return True

class Checker:
    def __init__(s, prog, enums): s.prog = prog; s.enums = enums; s.cache = {}
    def parsef(s, t):
        if t not in s.cache:
            try: s.cache[t] = parse_functions(t)
            except Bad as b: s.cache[t] = b
        r = s.cache[t]
        if isinstance(r, Bad): raise r
        return r
    def instances(s, r):
        g = r['info']
        fld = {'bin': 'replace_binary_operator', 'un': 'replace_unary_operator', 'expr': 'replace_expr', 'stmt': 'remove_stmt'}[r['kind']]
        if not isinstance(g, Struct) or g.present.v != (fld,): raise Bad('mutation group does not hold exactly one ' + fld)
        m = g.f[fld].v
        if r['kind'] == 'stmt': return m, [(m.f['mutation_id'].v if 'mutation_id' in m.present.v else 0, 'Remove')]
        en = s.enums[{'bin': 'MutationReplaceBinaryOperatorAction', 'un': 'MutationReplaceUnaryOperatorAction', 'expr': 'MutationReplaceExprAction'}[r['kind']]]
        out = []
        for c in (m.f['instances'].v.items if 'instances' in m.f else ()):
            i = c.v
            out.append((i.f['mutation_id'].v if 'mutation_id' in i.f else 0, en.get(i.f['action'].v if 'action' in i.f else 0, '?')))
        return m, out
    def expected(s, kindof, op, act):
        "Tree of the mutated expression for a recorded action."
        L, R_, X, E = ('op', 'L'), ('op', 'R'), ('op', 'X'), ('op', 'E')
        if kindof == 'bin':
            if act == 'ReplaceWithLHS': return L
            if act == 'ReplaceWithRHS': return R_
            return ('bin', OPSTR[act[len('ReplaceWith'):]], L, R_)
        if kindof == 'un':
            if act == 'ReplaceWithOperand': return X
            return s.uno(act[len('ReplaceWith'):], X)
        return {'InsertPreInc': ('un', '++', E), 'InsertPreDec': ('un', '--', E), 'InsertLNot': ('un', '!', E), 'InsertNot': ('un', '~', E),
                'InsertMinus': ('un', '-', E), 'ReplaceWithZeroFloat': ('lit', 0.0), 'ReplaceWithOneFloat': ('lit', 1.0),
                'ReplaceWithMinusOneFloat': ('un', '-', ('lit', 1.0)), 'ReplaceWithZeroInt': ('lit', 0), 'ReplaceWithOneInt': ('lit', 1),
                'ReplaceWithMinusOneInt': ('un', '-', ('lit', 1)), 'ReplaceWithTrue': ('lit', 1), 'ReplaceWithFalse': ('lit', 0)}[act]
    def uno(s, n, X):
        return {'PostInc': ('post', '++', X), 'PostDec': ('post', '--', X), 'PreInc': ('un', '++', X), 'PreDec': ('un', '--', X),
                'Minus': ('un', '-', X), 'Not': ('un', '~', X), 'LNot': ('un', '!', X), 'Plus': ('un', '+', X)}[n]
    def original(s, kindof, op):
        if kindof == 'bin': return ('bin', OPSTR[op], ('op', 'L'), ('op', 'R'))
        if kindof == 'un': return s.uno(op, ('op', 'X'))
        return ('op', 'E')
    @staticmethod
    def lit_eq(a, b):
        if a[0] == 'lit' and b[0] == 'lit':
            return type(a[1]) == type(b[1]) and a[1] == b[1] or (isinstance(a[1], (bool, int)) and isinstance(b[1], (bool, int)) and int(a[1]) == int(b[1]))
        return a == b
    def tree_eq(s, a, b):
        if a[0] != b[0]: return False
        if a[0] == 'lit': return s.lit_eq(a, b)
        if a[0] == 'op': return a == b
        if a[0] in ('un', 'post'): return a[1] == b[1] and s.tree_eq(a[2], b[2])
        if a[0] == 'bin': return a[1] == b[1] and s.tree_eq(a[2], b[2]) and s.tree_eq(a[3], b[3])
        return a == b
    def logical_eq(s, got, want, need_trace):
        for l in (0, 1, 2):
            for r in (0, 1, 2):
                e = {'L': l, 'R': r}
                t1, t2 = [], []
                v1, v2 = truth(got, e, t1), truth(want, e, t2)
                if bool(v1) != bool(v2): return False
                if need_trace and t1 != t2: return False
        return True
    # -------------------------------------------------------------------
    def abstract(s, r):
        """Replaces each helper's name (identical text in declaration and call) by a token."""
        decls = list(r['decls']); edits = [list(e) for e in r['effects']]
        names = []
        for i, d in enumerate(decls):
            n = name_of(d)
            if n is None: return None
            names.append(n)
        for i in sorted(range(len(names)), key=lambda k: -len(names[k].p)):
            if any(j != i and names[j] == names[i] for j in range(len(names))): return None
            tok = 'F@%d' % i
            found = False
            for e in edits:
                for j, x in enumerate(e):
                    if isinstance(x, Rope):
                        y = subst_name(x, names[i], 'F%d__' % i)
                        if y is not None: e[j] = y; found = True
            y = subst_name(decls[i], names[i], 'F%d__' % i)
            if y is None or not found: return None
            decls[i] = y
        return names, decls, [tuple(e) for e in edits]
    def check(s, ctx, r, res, out=None):
        """All per-record postconditions. `out` collects (name, text, conds) for C06."""
        k, op, cxx, track = r['kind'], r['op'], r['cxx'], r['track']
        where = f"{k}:{op} {'C++' if cxx else 'C'}{' opt' if r['opt'] else ''}{' track' if track else ''}"
        P = 'C05' if track else 'C01'
        def fail(prop, name, det): res.ob(prop, name, False, f'{where}: {det}')
        try: m, inst = s.instances(r)
        except Bad as b: fail('C03', 'group', str(b)); return
        mid = z3.Int('mid'); n = len(inst)
        # ids
        okid = all(ctx.entailed_(i == mid + j) for j, (i, _) in enumerate(inst))
        res.ob('C03', 'instance ids are consecutive from mutation_id', okid, lambda: f'{where}: {[str(z3.simplify(zi(i))) for i, _ in inst]}')
        res.ob('C03', 'mutation_id advances by the number of instances', ctx.entailed_(zi(r['mid']) == mid + n), lambda: f"{where}: {z3.simplify(zi(r['mid']))}")
        if len(set(a for _, a in inst)) != n: fail('C02', 'actions are distinct', str(inst))
        en = {'bin': 'BinaryOperator', 'un': 'UnaryOperator'}.get(k)
        if en:
            v = m.f['operator_'].v if 'operator_' in m.f else 0
            res.ob('C02', 'recorded operator is the original operator', s.enums[en].get(v) == op, lambda: f'{where}: recorded {s.enums[en].get(v)}')
        s.ranges(ctx, r, m, res, where)
        ropes = [d for d in r['decls']]
        ab = s.abstract(r)
        if ab: names, decls, edits = ab
        else: names, decls, edits = None, r['decls'], list(r['effects'])
        slots = [(i, j) for i, e in enumerate(edits) for j, x in enumerate(e) if isinstance(x, Rope)]
        allr = list(decls) + [edits[i][j] for i, j in slots]
        for conds, rs_ in Split(ctx).cases(allr):
            ds = rs_[:len(decls)]
            ed = [list(e) for e in edits]
            for (i, j), x in zip(slots, rs_[len(decls):]): ed[i][j] = x
            T = Txt()
            try:
                txt, lead = site_text(k, op, ed, T, lambda q: not ctx.sat(*conds, z3.Not(q)))
                dt = [T(d) for d in ds]
                s.site(ctx, r, conds, txt, lead, dt, inst, T, res, where, P)
            except Bad as b: fail(P, 'emitted text has the form of the original construct', str(b))
        if out is not None:
            out.append((names, r, ctx))
    def ranges(s, ctx, r, m, res, where):
        def rng(pfx, X, sn):
            R_ = 'R(%s)' % X
            sl = z3.Int(f'SourceManager.getSpellingLineNumber({R_}.getBegin)'); sc = z3.Int(f'SourceManager.getSpellingColumnNumber({R_}.getBegin)')
            el = z3.Int(f'SourceManager.getSpellingLineNumber({R_}.getEnd)'); ec = z3.Int(f'SourceManager.getSpellingColumnNumber({R_}.getEnd)')
            tl = z3.Int(f'MeasureTokenLength({R_}.getEnd)')
            def g(f, p):
                a = m.f.get(f)
                if a is None or a.v is None: return 0
                b = a.v.f.get(p)
                return b.v if b is not None else 0
            for f, p, want in ((pfx + 'start', 'line', sl), (pfx + 'start', 'column', sc), (pfx + 'end', 'line', el), (pfx + 'end', 'column', ec + tl)):
                got = g(f, p)
                res.ob('C09', f'{f}.{p} is that of the construct', isint(got) and ctx.entailed_(zi(got) == want), lambda: f'{where}: {f}.{p} = {got}, expected {want}')
            b = 'SourceManager.getDecomposedLoc(%s.getBegin)' % R_; e = 'SourceManager.getDecomposedLoc(%s.getEnd)' % R_
            off = z3.Int(b + '.second'); ln = z3.Int(e + '.second') - off + tl
            buf = R(Hole('SourceManager.getBufferData(%s.first)' % b))
            got = m.f.get(sn)
            got = got.v if got is not None else None
            ok = False
            if isinstance(got, Rope):
                ok = True
                for conds, (x,) in Split(ctx).cases([got]):
                    it = Interp(ctx)
                    full = R(Hole('substr(%r,%s,%s)' % (buf, it.nm(off), it.nm(ln))))
                    h = R(Hole('substr(%r,%s,%s)' % (buf, it.nm(off), '10')))
                    t = R(Hole('substr(%r,%s,%s)' % (buf, it.nm(off + ln - 10), '10')))
                    if x == full: continue
                    if x == h + R(' ... [snip] ... ') + t and not ctx.sat(*conds, ln <= 20): continue
                    ok = False
            res.ob('C09', f'{sn} is the text of the construct', ok, lambda: f'{where}: {sn} = {got!r}')
        k = r['kind']
        if k == 'bin': rng('expr_', 'E', 'expr_snippet'); rng('lhs_', 'lhs(E)', 'lhs_snippet'); rng('rhs_', 'rhs(E)', 'rhs_snippet')
        elif k == 'un': rng('expr_', 'E', 'expr_snippet'); rng('operand_', 'sub(E)', 'operand_snippet')
        else: rng('', 'E', 'snippet')
    def site(s, ctx, r, conds, txt, lead, dt, inst, T, res, where, P):
        k, op, cxx, track = r['kind'], r['op'], r['cxx'], r['track']
        n = len(inst)
        fns = []
        for d in dt: fns += s.parsef(d)
        ck = TypeCk(ctx, conds)
        mid, first = z3.Int('mid'), z3.Int('first')
        idtok = None
        def idok(i):
            return i[0] == 'idop' and i[1] in T.ids and ctx.entailed_(T.ids[i[1]] == mid - first)
        if k == 'stmt': return s.stmt(ctx, r, conds, txt, res, where, P, T, idok)
        key = (txt, tuple(dt))
        tree = parse_expr(txt)
        configs = [(False, None), (True, None)] + ([] if track else [(True, j) for j in range(n)])
        clog = k == 'bin' and not cxx and op in ('LAnd', 'LOr')
        # a space is needed when the preceding character belongs to an identifier
        rname = {'bin': 'R(lhs(E))', 'un': 'R(E)', 'expr': 'R(E)'}[k]
        prec = z3.Bool('precident(R(E))') if clog else z3.Bool('precident(%s)' % rname)
        if not lead.startswith((' ', '\n', '(')):
            res.ob(P, 'call does not run into a preceding identifier', ck.ent(z3.Not(prec)), lambda: f'{where}: {lead[:40]!r}')
        queried = set()
        for some, en in configs:
            probe = Ev(fns, some, None)
            # find the id token first
            if idtok is None:
                try: probe.ev(tree, {})
                except minic.Ret: pass
                ids = set((q[0], q[1]) for q in probe.queried) | set((q[0][0], q[0][1]) for q in probe.recorded)
                cand = [b for f, bs in probe.calls for b in bs]
                if any(not idok(q) for q in probe.queried) or any(not idok(q[0]) for q in probe.recorded):
                    for q_ in ('C03',) + (('C05',) if track else ()): res.ob(q_, 'local id at the site is mutation_id - first_mutation_id_in_file', False, f'{where}: {txt[:200]}')
                    return
                toks = [t for t in T.ids if ctx.entailed_(T.ids[t] == mid - first)]
                # every id argument at the site
                argids = [x for x in re.findall(r'«(#[^»]*)»', txt)]
                ok = bool(argids) and all(ctx.entailed_(T.ids[a] == mid - first) for a in argids)
                for q_ in ('C03',) + (('C05',) if track else ()): res.ob(q_, 'local id at the site is mutation_id - first_mutation_id_in_file', ok, lambda: f'{where}: {txt[:300]}')
                if not ok: return
                idtok = argids[0]
            v = Ev(fns, some, ('idop', idtok, en) if en is not None else None)
            got = v.ev(tree, {})
            queried |= set(q[2] for q in v.queried)
            prop = P if en is None else 'C02'
            want = s.original(k, op) if en is None else s.expected(k, op, inst[en][1])
            pt = plain(got)
            if clog:
                ok = s.logical_eq(pt, want, en is None)
            else: ok = s.tree_eq(pt, want)
            lab = 'nothing enabled (some=%s)' % some if en is None else 'mutant %d = %s' % (en, inst[en][1])
            res.ob(prop, 'site computes the ' + ('original' if en is None else 'recorded change'), ok, lambda: f'{where}: with {lab} computes {pt}, expected {want}')
            # evaluation counts
            if en is None and not clog:
                ops = ['L', 'R'] if k == 'bin' else ['X'] if k == 'un' else ['E']
                pre = [plain(x) for x in v.pre]; lz = lazies(got)
                for o in ops:
                    cnt = sum(count(x, o) for x in pre) + sum(count(x, o) for x in lz)
                    res.ob(P, 'each operand is evaluated exactly once', cnt == 1, lambda: f'{where}: operand {o} evaluated {cnt} times')
                if k == 'bin' and op in ('LAnd', 'LOr'):
                    res.ob(P, 'the right operand of a logical operator is short-circuited', not any(count(x, 'R') for x in pre), where)
            if en is not None and cxx and not clog:
                pre = [plain(x) for x in v.pre]
                for o, X in (('L', 'lhs(E)'), ('R', 'rhs(E)'), ('X', 'E'), ('E', 'E')):
                    if any(count(x, o) for x in pre) and not count(pt, o):
                        res.ob('C02', 'a discarded operand with side effects is not evaluated', ck.ent(z3.Not(z3.Bool('sideeffects(%s)' % X))), lambda: f'{where}: {lab}: {o} is evaluated')
            if some and en is None:
                if track:
                    rec = [(q[0][2], q[1]) for q in v.recorded]
                    if clog: ok = rec == ([(0, n)] if n else [])
                    else: ok = rec == ([(0, n)] if n else [])
                    res.ob('C05', 'records exactly the mutants of the site', ok, lambda: f'{where}: records {rec}, site has {n} mutants')
                    res.ob('C05', 'helper is independent of enabled mutants', not v.queried, where)
                else: res.ob('C02', 'no coverage is recorded', not v.recorded, where)
                s.types(ctx, r, ck, v, got, tree, res, where, P, conds)
        if not track:
            qs = queried
            res.ob('C03', 'the helper queries exactly the recorded offsets', qs == set(range(n)), lambda: f'{where}: queries {sorted(qs)}, {n} recorded')
        if k == 'expr':
            cm = z3.And(z3.Bool('isa(E,BinaryOperator)'), z3.Int('opcode(E)') == BOI['Comma'])
            if comma_exposed(tree): res.ob(P, 'a comma expression stays one argument', ck.ent(z3.Not(cm)), where)
    def types(s, ctx, r, ck, v, got, tree, res, where, P, conds):
        k, op, cxx = r['kind'], r['op'], r['cxx']
        clog = k == 'bin' and not cxx and op in ('LAnd', 'LOr')
        def ob6(name, ok, det=''):
            res.ob(P, name, ok, det); res.ob('C06', 'call site and helper agree: ' + name, ok, det)
        asg = k == 'bin' and op in ASSIGN
        inc = k == 'un' and op in ('PostInc', 'PostDec', 'PreInc', 'PreDec')
        # outermost cast
        t = tree
        while t[0] in ('paren', 'cast'):
            if t[0] == 'cast':
                ok = k == 'expr' and len(tkind(t[1])) == 1 and tkind(t[1])[0][1:-1].startswith('type(parent<ImplicitCastExpr>(')
                res.ob(P, 'an explicit cast around the site repeats an implicit one', ok, lambda: f'{where}: {t[1]}')
                t = t[2]
            else: t = t[1]
        outer = v.calls[-1] if not clog else [c for c in v.calls][-1]
        for f, binds in v.calls:
            opnds = set()
            for b in binds:
                if b[0] == 'id': continue
                x = plain(b[2]) if b[0] == 'val' else None
                if b[0] == 'val':
                    y = x
                    ref = '*' if '*' in b[1] else '&' if '&' in b[1] else ''
                    if ref == '*':
                        if y[0] == 'un' and y[1] == '&': y = y[2]
                    want = s.opty(k, y, clog)
                    lv = s.needs_lvalue(k, op, y, ctx, ck)
                    if want is None: res.ob(P, 'argument is an operand', False, f'{where}: {y}'); continue
                    okr = (ref != '') if lv is True else (ref == '') if lv is False else ((ref != '') == (not s.lval_possible(ck, lv, False)))
                    ob6('parameter type is that of the operand', ck.match(b[1], want, ref), lambda: f'{where}: parameter {b[1]} for {want}')
                    if lv is True: ob6('an assigned operand is passed by reference or pointer', ref != '', lambda: f'{where}: {b[1]}')
                else:
                    ft, lam = b[1], b[2]
                    inner = ft[ft.index('<') + 1:-3] if ft[-3:] == ('(', ')', '>') else ()
                    e = strip(lam[2])
                    if e[0] == 'cast':
                        ob6('lambda and cast have the parameter type', e[1] == lam[1], lambda: f'{where}: {e[1]} {lam[1]}'); e = strip(e[2])
                    want = s.opty(k, plain(e), clog)
                    ref = '&' if '&' in inner else ''
                    lv = s.needs_lvalue(k, op, plain(e), ctx, ck)
                    ob6('lambda has the parameter type', tuple(inner) == tuple(lam[1]), lambda: f'{where}: {inner} {lam[1]}')
                    ob6('parameter type is that of the operand', want is not None and ck.match(inner, want, ref), lambda: f'{where}: {inner} for {want}')
                    if lv is True: ob6('an assigned operand is passed by reference or pointer', ref != '', lambda: f'{where}: {inner}')
            # result type
            if clog:
                args = [plain(b[2]) for b in binds if b[0] == 'val']
                want = s.opty(k, args[0], clog) if args else None
                res.ob(P, 'result type is that of the original expression', want is not None and ck.match(f['t'], want, ''), lambda: f"{where}: {f['t']}")
            else:
                lv = (asg and cxx) or (k == 'un' and cxx and op in ('PreInc', 'PreDec'))
                res.ob(P, 'result type is that of the original expression', ck.match(f['t'], 'type(E)', '&' if lv else ''), lambda: f"{where}: {f['t']}")
    def opty(s, k, y, clog):
        if y == ('op', 'L'): return 'type(lhs(E))'
        if y == ('op', 'R'): return 'type(rhs(E))'
        if y == ('op', 'X'): return 'type(sub(E))'
        if y == ('op', 'E'): return 'type(E)'
        if clog: return 'type(E)'
        return None
    def needs_lvalue(s, k, op, y, ctx, ck):
        if k == 'bin': return op in ASSIGN and y == ('op', 'L')
        if k == 'un': return op in ('PostInc', 'PostDec', 'PreInc', 'PreDec')
        return None
    def lval_possible(s, ck, lv, x): return True
    def stmt(s, ctx, r, conds, txt, res, where, P, T, idok):
        track = r['track']
        sts = parse_stmts(txt)
        for some, en in [(False, None), (True, None)] + ([] if track else [(True, 0)]):
            toks = [t for t in T.ids]
            ok = len(toks) == 1 and ctx.entailed_(T.ids[toks[0]] == z3.Int('mid') - z3.Int('first'))
            for q_ in ('C03',) + (('C05',) if track else ()): res.ob(q_, 'local id at the site is mutation_id - first_mutation_id_in_file', ok, lambda: f'{where}: {txt}')
            if not ok: return
            v = Ev([], some, ('idop', toks[0], en) if en is not None else None)
            for x in sts: v.run(x, {})
            ran = len(v.stmts)
            res.ob(P if en is None else 'C02', 'the statement runs unless its mutant is enabled', ran == (1 if en is None else 0), lambda: f'{where}: {txt} runs it {ran} times')
            if track: res.ob('C05', 'records exactly the mutants of the site', [(q[0][2], q[1]) for q in v.recorded] == [(0, 1)], lambda: f'{where}: {v.recorded}')
            else: res.ob('C03', 'the helper queries exactly the recorded offsets', all(q[2] == 0 for q in v.queried) and len(v.queried) == 1, where)
def count(t, o):
    if not isinstance(t, tuple): return 0
    if t == ('op', o): return 1
    return sum(count(x, o) for x in t[1:] if isinstance(x, tuple))
def comma_exposed(t):
    if t[0] == 'call':
        for a in t[2]:
            if a[0] == 'op' and a[1] == 'E': return True
            if comma_exposed(a): return True
        return False
    return any(comma_exposed(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('paren', 'cast', 'un', 'bin', 'call', 'lambda', 'post', 'cond'))

def name_of(d):
    "The pieces of the function name in a helper declaration."
    p = list(d.p)
    for i, x in enumerate(p):
        if isinstance(x, str) and '(' in x:
            j = x.index('(')
            # walk back to a space
            sp = x.rfind(' ', 0, j)
            if sp >= 0: return Rope((x[sp + 1:j],))
            out = [x[:j]]
            for k in range(i - 1, -1, -1):
                y = p[k]
                if isinstance(y, str) and ' ' in y:
                    q = y.rfind(' ')
                    return Rope([y[q + 1:]] + out)
                if isinstance(y, Hole): return None
                out.insert(0, y)
            return None
        if isinstance(x, IteP) and any('(' in z for z in lits(x)): return None
    return None
def lits(p):
    if isinstance(p, str): return [p]
    if isinstance(p, IteP): return [z for q in p.a.p + p.b.p for z in lits(q)]
    if isinstance(p, MapP): return [z for q in p.r.p for z in lits(q)]
    return []
def subst_name(r, n, tok):
    """Replaces name rope n in r (followed by '(' or a comment) by tok; None if absent.
    The first literal of n may sit at the end of a literal, or in both arms of a
    leading conditional space."""
    np = n.p
    p = list(r.p)
    if not np or not isinstance(np[0], str): return None
    for i, x in enumerate(p):
        head = None
        if isinstance(x, str) and (x.endswith(np[0]) if len(np) > 1 else np[0] in x):
            if len(np) == 1:
                j = x.find(np[0] + '(')
                if j < 0: j = x.find(np[0] + '/*')
                if j < 0: continue
                return Rope(p[:i] + [x[:j] + tok + x[j + len(np[0]):]] + p[i + 1:])
            head = [x[:-len(np[0])] + tok]
        elif isinstance(x, IteP) and len(np) > 1:
            def arm(a):
                if len(a.p) >= 1 and isinstance(a.p[-1], str) and a.p[-1].endswith(np[0]):
                    return Rope(a.p[:-1] + (a.p[-1][:-len(np[0])],))
            a, b = arm(x.a), arm(x.b)
            if a is not None and b is not None: head = list(rope_ite(x.c, a, b).p) + [tok]
        if head is None: continue
        rest = p[i + 1:]
        ok = True
        k = 0
        tail = None
        for q in np[1:]:
            last = q is np[-1]
            if k >= len(rest): ok = False; break
            if last and isinstance(q, str):
                if isinstance(rest[k], str) and rest[k].startswith(q) and rest[k][len(q):len(q) + 1] in ('(', '/'):
                    tail = [rest[k][len(q):]] + rest[k + 1:]
                else: ok = False
            elif rest[k] == q:
                k += 1
                if last:
                    if k < len(rest) and isinstance(rest[k], str) and rest[k][:1] in ('(', '/'): tail = rest[k:]
                    else: ok = False
            else: ok = False
            if not ok: break
        if ok and tail is not None: return Rope(p[:i] + head + tail)
    return None
def entailed_(self, c):
    if isinstance(c, bool): return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return not self.sat(z3.Not(c))
Ctx.entailed_ = entailed_
if __name__ == '__main__':
    import collections
    p = load(); S = Setup(p); C = Checker(p, proto_enums('/repo/src/libdredd/include/libdredd/protobufs/dredd.proto'))
    which, op, cxx, opt, track = sys.argv[1:6]
    res = Result(); t = time.time()
    recs = S.run('dredd::' + which, op, cxx == '1', opt == '1', track == '1')
    t1 = time.time() - t
    obl = [o for c, r in recs for o in c.obl]
    for c, r in recs:
        if r: C.check(c, r, res)
    print(which, op, cxx, opt, track, len(recs), 'paths', round(t1, 1), round(time.time() - t - t1, 1), res.byp, len(set(obl)), 'open')
    for o in sorted(set(obl))[:5]: print('   open', o)
    for b in res.bad[:int(os.environ.get('NB', '4'))]: print('   BAD', str(b)[:600])
