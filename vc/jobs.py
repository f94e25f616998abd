"""L1: runs the obligations of Mutation construction + Apply over every class,
operator, language and option setting, one process per configuration."""
import os, sys, time, multiprocessing as mp, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
from checker import Checker, Result, proto_enums
from mutharness import Setup, load, BINOPS, UNOPS

PROTO = 'src/libdredd/include/libdredd/protobufs/dredd.proto'
P = EN = XDIR = None
def init(xdir, repo):
    global P, EN, XDIR
    XDIR = xdir
    P = load(xdir); EN = proto_enums(repo + '/' + PROTO)
def emit_configs(opts=(True, False), tracks=(False, True)):
    out = []
    for opt in opts:
        for cxx in (True, False):
            for track in tracks:
                out.append(('MutationReplaceExpr', '', cxx, opt, track))
                out += [('MutationReplaceBinaryOperator', o, cxx, opt, track) for o in BINOPS]
                out += [('MutationReplaceUnaryOperator', o, cxx, opt, track) for o in UNOPS]
                out.append(('MutationRemoveStmt', '', cxx, opt, track))
    cost = lambda c: (c[0] == 'MutationReplaceExpr' and c[3], c[3], c[0] == 'MutationReplaceBinaryOperator')
    return sorted(out, key=cost, reverse=True)
def emit_job(cfg):
    which, op, cxx, opt, track = cfg
    S = Setup(P); C = Checker(P, EN); res = Result()
    recs = S.run('dredd::' + which, op, cxx, opt, track)
    for c, r in recs:
        if r: C.check(c, r, res)
    return dict(byp=res.byp, bad=res.bad, open=sorted(set((o[0], o[2]) for c, r in recs for o in c.obl)),
                paths=len(recs), queries=sum(c.stats['checks'] for c, _ in recs), names=res.names)
def emit2_job(cfg):
    "Normal and tracking mode of one configuration, and their agreement."
    which, op, cxx, opt = cfg
    S = Setup(P); C = Checker(P, EN); res = Result(); runs = []; rs = []
    for track in (False, True):
        recs = S.run('dredd::' + which, op, cxx, opt, track)
        runs.append(recs)
        for c, r in recs:
            if r: C.check(c, r, res)
    import pairs
    pairs.mode_agreement(C, runs[0][0][0].axioms, runs[0], runs[1], res, f"{which} {op} {'C++' if cxx else 'C'}")
    recs = runs[0] + runs[1]
    return dict(byp=res.byp, bad=res.bad, open=sorted(set((o[0], o[2]) for c, r in recs for o in c.obl)), paths=len(recs), queries=sum(c.stats['checks'] for c, _ in recs), names=res.names)
def opt_job(cfg):
    which, op, cxx = cfg
    import pairs
    S = Setup(P); C = Checker(P, EN); res = Result()
    n = pairs.opt_pairs(C, S, which, op, cxx, res)
    return dict(byp=res.byp, bad=res.bad, queries=n, names=res.names)
def clash_job(cfg):
    which, op, cxx, opt, track = cfg
    import pairs
    S = Setup(P); C = Checker(P, EN); res = Result()
    recs = S.run('dredd::' + which, op, cxx, opt, track)
    for c, r in recs:
        if r: C.check(c, r, res)
    pre = pairs.clash_check(C, recs, cxx, res, f"{which} {op} {'C++' if cxx else 'C'}{' opt' if opt else ''}{' track' if track else ''}")
    return dict(byp=res.byp, bad=res.bad, paths=len(recs), queries=sum(c.stats['checks'] for c, _ in recs), names=res.names, prefixes=pre)
def emit2_configs():
    return list(dict.fromkeys(c[:4] for c in emit_configs()))
def opt_configs():
    return [c[:3] for c in emit_configs((True,), (False,)) if c[0] != 'MutationRemoveStmt']
def clash_configs(opts=(True, False), tracks=(False, True)):
    return [c for c in emit_configs(opts, tracks) if c[0] != 'MutationRemoveStmt']
def clash_post(res):
    "Helpers of different operators or classes have different names."
    by = {}
    for r in res:
        if r['job'][0] == 'clash' and 'prefixes' in r: by.setdefault(r['job'][1][2:], []).append((r['job'][1][:2], r['prefixes']))
    R = Result()
    for k, v in by.items():
        for i, (a, pa) in enumerate(v):
            for b, pb in v[i + 1:]:
                bad = [(x, y) for x in pa for y in pb if x.startswith(y) or y.startswith(x)]
                R.ob('C06', 'names of helpers of different operators differ', not bad, lambda: f'{a} {b}: {bad}')
    return [dict(job=('clash_post', ()), byp=R.byp, bad=R.bad, names=R.names, t=0)]
def prelude_job(cfg):
    cxx, track, prop = cfg
    import prelude
    res = Result()
    b = os.path.dirname(XDIR)
    n = prelude.job(P, b + '/extract', b + '/prelude', cxx, track, prop, res)
    return dict(byp=res.byp, bad=res.bad, queries=n, names=res.names)
def part_job(mod):
    def f(cfg):
        part, cxx, opt = cfg
        import importlib
        res = Result()
        r = importlib.import_module(mod).job(P, part, cxx, opt, res)
        return dict(byp=res.byp, bad=res.bad, names=res.names, **r)
    return f
def visitor_configs(parts): return [('visitor', (p, c, o)) for p in parts for o in (True, False) for c in (True, False)]
def part_configs(mod, *parts): return [(mod, (p, c, True)) for p in parts for c in (True, False)]
FUNCS = {'visitor': part_job('visitor'), 'consumer': part_job('consumer'), 'tree': part_job('tree'), 'driver': part_job('driver'), 'prelude': prelude_job, 'emit': emit_job, 'emit2': emit2_job, 'opt': opt_job, 'clash': clash_job}
def work(j):
    kind, cfg = j
    t = time.time()
    try: r = FUNCS[kind](cfg)
    except ToolLimit as e: r = dict(limit=str(e))
    except Exception as e: r = dict(limit='internal: ' + repr(e)[:300] + ' ' + traceback.format_exc()[-600:])
    r['t'] = time.time() - t; r['job'] = j
    return r
def start(xdir, repo, jobs, nproc=8):
    init(xdir, repo)
    pool = mp.get_context('fork').Pool(nproc)
    return pool, pool.imap_unordered(work, jobs, 1)
def finish(h, jobs, deadline):
    "Results by the deadline (time.time()); what is still running then counts as not within reach."
    out = []
    for _ in jobs:
        try: out.append(h[1].next(max(1, deadline - time.time())))
        except mp.TimeoutError: break
    done = set(map(repr, (r['job'] for r in out)))
    out += [dict(job=j, limit='not finished in time', t=0) for j in jobs if repr(j) not in done]
    h[0].terminate(); return out
