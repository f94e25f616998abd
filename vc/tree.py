"""C08: contracts of MutationTreeNode and of MutateAstConsumer::ApplyMutations, by
recursion (a call on a child is judged by the contract) and loop contracts over
sequences of unknown length."""
import re, z3
from core import *
import interp, models
from interp import bare
from visitor import Post, EndIter, B
from consumer import execute, consumer, noregion, AC
Z = z3.Int
TN = 'dredd::MutationTreeNode'
def size(s): return Z('len(%s)' % s)
def vec(it, c, this, a):
    "Members of a vector of unknown length."
    v = val(this)
    if not isinstance(v, Seq): return NotImplemented
    n = c['n']
    if n == 'size': return size(v.name)
    if n == 'empty': return size(v.name) == 0
    if n in ('begin', 'end', 'cbegin', 'cend'): return Obj('%s(%s)' % (n.lstrip('c'), v.name), 'iterator')
    if n in ('operator[]', 'at', 'front', 'back'):
        i = val(a[0]) if a else 0 if n == 'front' else None
        if i != 0 and not (n == 'back'): raise ToolLimit('subscript of a vector of unknown length')
        if it.c.sat(size(v.name) != 1): raise ToolLimit('first element of a vector of unknown length')
        return it.c.ghost.setdefault(('first', v.name), Cell(Ptr(childnode(v.name + '[0]'), True)))
    if n == 'erase':
        noregion(it); it.c.effect('erase', v.name, it.nm(a[0])); return Obj('after(%s)' % it.nm(a[0]), 'iterator')
    if n == 'operator=':
        x = val(a[0])
        if isinstance(a[0], Cell): it.c.write(a[0], ListV())
        it.c.write(this, x); return this
    if n == 'reserve': return None
    raise ToolLimit('vector member ' + n)
def vecassign(it, c, this, a):
    x = val(a[0])
    if isinstance(x, Seq) and isinstance(this, Cell): it.c.write(a[0], ListV()) if isinstance(a[0], Cell) else None; it.c.write(this, x); return this
    return vec(it, c, this, a)
VEC = {'std::vector::' + n: vec for n in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'operator[]', 'at', 'front', 'back', 'erase', 'reserve')}
VEC['std::vector::operator='] = vecassign
def childnode(name):
    c = Cell(Struct(TN), name)
    c.v.f['mutations_'] = Cell(Seq(name + '.mutations_'), 'mutations_'); c.v.f['children_'] = Cell(Seq(name + '.children_'), 'children_')
    return c
def this_node(it, ctx):
    for fl in ctx.prog.rec[TN]['fields']:
        if fl['name'] not in ('mutations_', 'children_'): raise ToolLimit('field ' + fl['name'])
    return childnode('this')
def elem_of(n, rng): return 'elem(%s)' % rng.name
def one(it, n, env, rng):
    "An arbitrary iteration, which ends the path, or none."
    noregion(it)
    t = n['var']['t']
    # a loop that appends every element to an empty list makes it the same sequence
    if it.c.decide(B('iteration@%s' % n['l'])):
        it.c.effect('iteration', rng.name)
        it.bindvar(n['var'], Ptr(Obj(elem_of(n, rng), TN), True), env)
        try: it.ex(n['a'], env)
        except CntEx: pass
        except BrkEx: it.c.effect('break'); return
        it.c.effect('next'); raise EndIter()
def copying(then):
    def f(it, n, env, rng):
        noregion(it)
        lists = [c for c in env.values() if isinstance(c, Cell) and isinstance(c.v, ListV)]
        before = [(c, c.v) for c in lists]; ne = len(it.c.effects.v)
        body = n['a']
        if appends(body):
            e = Cell(Ptr(Obj(elem_of(n, rng), ''), True))
            it.bindvar(n['var'], e, env)
            it.ex(body, env)
            ch = [(c, o) for c, o in before if c.v is not o]
            if len(ch) == 1 and not ch[0][1].items and len(ch[0][0].v.items) == 1 and it.nm(ch[0][0].v.items[0]) == it.nm(Ptr(Obj(elem_of(n, rng), ''), True)) and len(it.c.effects.v) == ne:
                it.c.write(ch[0][0], Seq(rng.name)); return
            raise ToolLimit('copying loop')
        return then(it, n, env, rng)
    return f
def appends(n):
    s = str(n)
    return ("'push_back'" in s or "'emplace_back'" in s) and "'If'" not in s
def contract(name, r=None):
    def f(it, c, this, a):
        noregion(it); it.c.effect(name, it.nm(this)); return r
    return f
def empty_of(it, c, this, a):
    v = val(this)
    return B('empty(%s)' % it.nm(this))
def is_empty(prog, cxx, opt, res):
    P = Post(res, 'IsEmpty'); n = 0
    recs = execute(prog, TN + '::IsEmpty', this_node, lambda it, ctx, f: [], extra=dict(VEC, **{TN + '::IsEmpty': empty_of}), cfg={'seq_loop': one}, pre=[size('this.mutations_') >= 0])
    has = size('this.mutations_') != 0
    for c, r in recs:
        n += 1
        v = r['ret']
        it_ = [e for e in r['effects'] if e[0] == 'iteration']; nx = [e for e in r['effects'] if e[0] == 'next']
        el = B('empty(elem(this.children_))')
        if nx: P.need(c, 'C08', 'only empty children are passed over', z3.And(el, z3.Not(has))); continue
        if not isinstance(v, bool): raise ToolLimit('result of IsEmpty')
        if it_: P.need(c, 'C08', 'a node is empty iff it has no mutations and only empty children', z3.Not(el) if not v else z3.BoolVal(False)); continue
        done = 'iteration@' in str(c.pc)
        P.need(c, 'C08', 'a node is empty iff it has no mutations and only empty children', z3.And(z3.Not(has), z3.BoolVal(done)) if v else has)
    return n, recs
def tidy(prog, cxx, opt, res):
    P = Post(res, 'TidyUp'); n = 0
    recs = execute(prog, TN + '::TidyUp', this_node, lambda it, ctx, f: [], extra=dict(VEC, **{TN + '::PruneEmptySubtrees': contract('prune'), TN + '::Compress': contract('compress')}))
    for c, r in recs:
        n += 1
        P.need(c, 'C08', 'the tree is pruned and then compressed', [e[0] for e in r['effects']] == ['prune', 'compress'], str(r['effects']))
    return n, recs
def prune(prog, cxx, opt, res):
    """Loop contract: the children before the iterator are the non-empty ones among the
    original children before it, in order, each pruned; those from it on are untouched."""
    P = Post(res, 'PruneEmptySubtrees'); n = 0
    def loop(it, nd, env):
        def go():
            noregion(it)
            its = [c for c in env.values() if isinstance(c, Cell) and isinstance(c.v, Obj) and c.v.t == 'iterator']
            pos = [c for c in its if c.v.name == 'begin(this.children_)']; oth = [c for c in its if c not in pos]
            if len(pos) != 1 or oth: raise ToolLimit('loop of PruneEmptySubtrees')
            x = pos[0]
            it.c.write(x, Obj('pos', 'iterator'))
            if not it.c.decide(val(it.ev(nd['c'], env))): it.c.effect('end'); return
            it.c.effect('iteration')
            try: it.ex(nd['a'], env)
            except CntEx: pass
            except BrkEx: raise ToolLimit('break in the loop of PruneEmptySubtrees')
            if nd.get('inc'): it.ev(nd['inc'], env)
            it.c.effect('pos', x.v.name); raise EndIter()
        return go
    def itop(it, c, this, a):
        v = val(this) if this is not None else val(a[0])
        if not isinstance(v, Obj) or v.t != 'iterator': return NotImplemented
        n_ = c['n']
        if n_ in ('operator*', 'operator->'): return Cell(Ptr(Obj('at(%s)' % v.name, TN), True)) if n_ == 'operator*' else Ptr(Cell(Ptr(Obj('at(%s)' % v.name, TN), True)), True)
        if n_ == 'operator++': it.c.write(this, Obj('after(%s)' % v.name, 'iterator')); return this
        if n_ in ('operator==', 'operator!='):
            o = val(a[0]) if this is not None else val(a[1])
            names = sorted((v.name, o.name))
            b = B('ateend') if names == ['end(this.children_)', 'pos'] else None
            if b is None: raise ToolLimit('iterator comparison')
            return b if n_ == 'operator==' else z3.Not(b)
        if n_ == 'operator=': it.c.write(this, val(a[0])); return this
        return NotImplemented
    extra = dict(VEC, **{TN + '::IsEmpty': empty_of, TN + '::PruneEmptySubtrees': contract('prune')})
    for o in ('operator*', 'operator->', 'operator++', 'operator==', 'operator!=', 'operator='): extra['__gnu_cxx::__normal_iterator::' + o] = itop
    for o in ('operator==', 'operator!='): extra['__gnu_cxx::' + o] = itop
    recs = execute(prog, TN + '::PruneEmptySubtrees', this_node, lambda it, ctx, f: [], extra=extra, cfg={'loop': loop, 'seq_loop': one})
    e_ = B('empty(at(pos))')
    for c, r in recs:
        n += 1
        E = [e for e in r['effects']]; names = [e[0] for e in E]
        if 'iteration' not in names:
            P.need(c, 'C08', 'every child is examined', z3.And(B('ateend'), z3.BoolVal(names == ['end'])), str(names)); continue
        er = [e for e in E if e[0] == 'erase']; pr = [e for e in E if e[0] == 'prune']
        P.need(c, 'C08', 'exactly the empty children are removed', (z3.And(e_, z3.BoolVal(er[0][1:] == ('this.children_', 'pos'))) if len(er) == 1 else z3.Not(e_) if not er else False), str(E))
        P.need(c, 'C08', 'the children that are kept are pruned themselves', z3.Implies(z3.Not(e_), z3.BoolVal([p[1] for p in pr] == ['at(pos)'])), str(E))
        P.need(c, 'C08', 'pruning goes on with the next child', E[-1] == ('pos', 'after(pos)'), str(E[-1]))
        th = r['this'].v
        P.need(c, 'C08', 'pruning keeps the mutations of the node', isinstance(val(th.f['mutations_']), Seq) and val(th.f['mutations_']).name == 'this.mutations_')
    return n, recs
def compress(prog, cxx, opt, res):
    """Loop contract of the while loop: the mutations in application order and the tree
    below are those of the node as it was; each iteration puts the only child of a node
    without mutations in the place of the node."""
    P = Post(res, 'Compress'); n = 0
    def loop(it, nd, env):
        def go():
            noregion(it)
            th = val(env['this']).to
            if not it.c.decide(val(it.ev(nd['c'], env))): it.c.effect('left'); return
            it.c.effect('iteration')
            try: it.ex(nd['a'], env)
            except CntEx: pass
            except BrkEx: raise ToolLimit('break in the loop of Compress')
            it.c.effect('next'); raise EndIter()
        return go
    extra = dict(VEC, **{TN + '::Compress': contract('compress'), TN + '::IsEmpty': empty_of})
    pre = [size('this.mutations_') >= 0, size('this.children_') >= 0]
    recs = execute(prog, TN + '::Compress', this_node, lambda it, ctx, f: [], extra=extra, cfg={'loop': loop, 'seq_loop': copying(one)}, pre=pre)
    red = z3.And(size('this.mutations_') == 0, size('this.children_') == 1)
    for c, r in recs:
        n += 1
        names = [e[0] for e in r['effects']]; th = r['this'].v
        f = lambda x: val(th.f[x]).name if isinstance(val(th.f[x]), Seq) else str(val(th.f[x]))
        if 'left' in names:
            P.need(c, 'C08', 'no node without mutations keeps a single child', z3.Not(red))
            P.need(c, 'C08', 'compression keeps the mutations and children of a node that has mutations or several children', (f('mutations_'), f('children_')) == ('this.mutations_', 'this.children_'))
            if 'next' in names: P.need(c, 'C08', 'every child is compressed, once', [e for e in r['effects'] if e[0] == 'compress'] == [('compress', 'elem(this.children_)')], str(r['effects']))
            else: P.need(c, 'C08', 'every child is compressed, once', re.search(r'Not\(iteration@', str(c.pc)) is not None)
        else:
            P.need(c, 'C08', 'only a node without mutations is replaced by its only child', red)
            P.need(c, 'C08', 'a node that is replaced by its only child gets the mutations and children of the child, in order', (f('mutations_'), f('children_')) == ('this.children_[0].mutations_', 'this.children_[0].children_'), str((f('mutations_'), f('children_'))))
    return n, recs
def get_children(prog, cxx, opt, res):
    P = Post(res, 'GetChildren'); n = 0
    recs = execute(prog, TN + '::GetChildren', this_node, lambda it, ctx, f: [], extra=VEC, cfg={'seq_loop': copying(one)})
    for c, r in recs:
        n += 1; v = val(r['ret'])
        P.need(c, 'C08', 'all children are reported, in order', isinstance(v, Seq) and v.name == 'this.children_', str(v))
    return n, recs
def apply_mutations(prog, cxx, opt, res):
    P = Post(res, 'ApplyMutations'); n = 0
    N, id0, id1, first, build = Z('N'), Z('id0'), Z('id1'), Z('first'), B('build')
    I = 'dredd::protobufs::MutationInfoForFile::'; T_ = 'dredd::protobufs::MutationTreeNode::'
    cnt = lambda it: sum(1 for e in it.c.effects.v if e[0] == 'newnode')
    def add_tree(it, c, this, a):
        noregion(it); k = cnt(it); it.c.effect('newnode', it.nm(this)); return Ptr(Obj('pnode(N+%d)' % k, 'protobufs::MutationTreeNode'), True)
    def rec(it, c, this, a):
        noregion(it); it.c.effect('recurse', [it.nm(x) if not isz(val(x)) else val(x) for x in a], c); return None
    def app(it, c, this, a):
        noregion(it)
        mid = val(val(it.c.ghost['st'].v.f['mutation_id_']).to)
        it.c.effect('apply', it.nm(this), [val(x) if isz(val(x)) else it.nm(x) for x in a])
        it.c.write(val(it.c.ghost['st'].v.f['mutation_id_']).to, id1)
        return Obj('group', 'protobufs::MutationGroup')
    def this(it, ctx):
        st = consumer(it, ctx); ctx.ghost['st'] = st; return st
    def args(it, ctx, f):
        out = []
        for p_ in f['params']:
            t = p_['t']
            if 'protobufs::MutationTreeNode' in t: v = Obj('pnode', 'protobufs::MutationTreeNode')
            elif 'MutationInfoForFile' in t: v = Obj('pinfo', 'protobufs::MutationInfoForFile')
            elif 'MutationTreeNode' in t: v = Obj('tnode', TN)
            elif t == 'int': v = first
            elif t == 'bool': v = build
            elif 'set<' in t: v = Obj('decls', '')
            else: v = Obj('ASTContext', 'clang::ASTContext')
            out.append(v)
        return out
    extra = dict(VEC)
    extra.update({TN + '::GetChildren': lambda it, c, this, a: Seq('tnode.children'), TN + '::GetMutations': lambda it, c, this, a: Seq('tnode.mutations'), TN + '::IsEmpty': empty_of, AC + '::ApplyMutations': rec,
        I + 'mutation_tree_size': lambda it, c, this, a: N + cnt(it), I + 'add_mutation_tree': add_tree,
        T_ + 'add_children': lambda it, c, this, a: (noregion(it), it.c.effect('child', it.nm(this), val(a[0])))[1],
        T_ + 'add_mutation_groups': lambda it, c, this, a: (noregion(it), it.c.effect('newgroup', it.nm(this)), Ptr(Cell(Obj('slot', ''), 'slot'), True))[2],
        'dredd::protobufs::MutationGroup::operator=': lambda it, c, this, a: (noregion(it), it.c.effect('store', it.nm(a[0])), this)[2], 'dredd::Mutation::Apply': app})
    recs = execute(prog, AC + '::ApplyMutations', this, args, cxx, extra=extra, cfg={'seq_loop': one}, pre=[N >= 1, id1 >= id0,
        z3.Not(z3.And(B('empty(tnode)'), size('tnode.children') == 1)), z3.Not(B('empty(elem(tnode.children))'))])
    for c, r in recs:
        E = r['effects']; it_ = [e for e in E if e[0] == 'iteration']
        if not it_:
            n += 1
            P.need(c, 'C08', 'children and mutations are the only parts of a tree node', not E, str(E)[:200]); continue
        n += 1
        body = E[E.index(it_[-1]) + 1:]
        if it_[-1][1] == 'tnode.children':
            rc = [e for e in body if e[0] == 'recurse']; ch = [e for e in body if e[0] == 'child']; nw = [e for e in body if e[0] == 'newnode']
            P.need(c, 'C08', 'each child of a tree node gets one node of its own in the info', len(rc) == 1 and len(ch) == 1 and len(nw) == 1 and body[-1][0] == 'next', str([e[0] for e in body]))
            if len(rc) == 1 and len(ch) == 1 and len(nw) == 1:
                P.need(c, 'C08', 'the index given to the parent is that of the node of the child', z3.And(ch[0][2] == N, z3.BoolVal(ch[0][1] == 'pnode')), str(ch))
                a = rc[0][1]
                want = {'elem(tnode.children)', 'pnode(N+0)', 'pinfo', 'decls'}
                P.need(c, 'C08', 'the mutations of a child go to the node of the child', want <= set(x for x in a if isinstance(x, str)) and any(isz(x) and z3.eq(x, first) for x in a) and any(isz(x) and z3.eq(x, build) for x in a), str(a)[:200])
                P.need(c, 'C08', 'the node of a child is created before anything below it', body.index(nw[0]) < body.index(rc[0]))
        elif it_[-1][1] == 'tnode.mutations':
            P.need(c, 'C08', 'the mutations below a node are applied before its own', any(re.match(r'Not\(iteration@', str(x)) for x in c.pc[:next((i for i, x in enumerate(c.pc) if re.match(r'iteration@', str(x))), 0)]))
            ap = [e for e in body if e[0] == 'apply']; ng = [e for e in body if e[0] == 'newgroup']; stt = [e for e in body if e[0] == 'store']
            P.need(c, 'C08', 'each mutation is applied exactly once', len(ap) == 1 and ap[0][1] == 'elem(tnode.mutations)', str(ap)[:200])
            if len(ap) == 1: P.need(c, 'C03', 'a mutation is numbered from the current id, relative to the first id of the file', any(isz(x) and z3.eq(x, first) for x in ap[0][2]) and any(isz(x) and z3.eq(x, id0) for x in ap[0][2]) and [i for i, x in enumerate(ap[0][2]) if isz(x) and z3.eq(x, first)] < [i for i, x in enumerate(ap[0][2]) if isz(x) and z3.eq(x, id0)], str(ap)[:200])
            keep = z3.And(build, id1 > id0)
            P.need(c, 'C08', 'exactly the mutation groups that have mutants are recorded, at the node of the mutation', (z3.And(keep, z3.BoolVal(ng[0][1] == 'pnode' and [e[1] for e in stt] == ['group'])) if len(ng) == 1 else z3.Not(keep) if not ng else False), str(body)[:200])
        else: raise ToolLimit('loop over ' + it_[-1][1])
    return n, recs
PARTS = {'empty': is_empty, 'tidy': tidy, 'prune': prune, 'compress': compress, 'children': get_children, 'apply': apply_mutations}
def job(prog, part, cxx, opt, res):
    n, recs = PARTS[part](prog, cxx, opt, res)
    if not n: raise ToolLimit('%s: no path to judge' % part)
    return dict(paths=len(recs), queries=sum(c.stats['checks'] for c, _ in recs))
if __name__ == '__main__':
    import sys, time; from mutharness import load; from checker import Result
    p = load('/tmp/b0/x')
    for part in sys.argv[1:] or PARTS:
        t = time.time(); R_ = Result()
        try: print(part, job(p, part, True, True, R_), end=' ')
        except ToolLimit as e: print(part, 'LIMIT', str(e)[:300])
        print(R_.byp, '%.1f' % (time.time() - t), str(R_.bad[:3])[:900])
