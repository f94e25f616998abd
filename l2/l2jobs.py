"""Conformance jobs over the real dredd executable (bounded; replay of failed obligations)."""
import os, sys, time, shutil, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, behave, suites
OPT, NOOPT, TRK = [], ['--no-mutation-opts'], ['--only-track-mutant-coverage']
_c = {}
def corp(cxx, seed, nrand):
    k = (cxx, seed, nrand)
    if k not in _c: _c[k] = gen.corpus(cxx, seed, nrand)
    return _c[k]
def nunits(cxx, seed, nrand): return len(corp(cxx, seed, nrand).units)
class Ctx: dredd = None; work = None; seed = 1; nrand = 60
def chunk(cfg, name):
    cxx, lo, hi, seed, nrand = cfg
    return behave.Chunk(Ctx.dredd, Ctx.work, name, cxx, corp(cxx, seed, nrand).units[lo:hi])
def j_behave(name, cfg, opts, mutants, pm):
    c = chunk(cfg, name)
    c.behaviour('m', list(opts), mutants, (lambda i: i % pm[0] == pm[1]) if pm else None); return c
def j_track(name, cfg, opts):
    c = chunk(cfg, name); c.tracking('t', list(opts)); return c
def j_info(name, cfg, opts):
    c = chunk(cfg, name)
    r = c.mutate('i', list(opts))
    if r:
        ss = behave.sites(c.src, r[1], lambda p, w: c.fail(p, w))
        c.ok('C09', len(ss)); c.ok('C08', len(ss))
        for p, w in behave.nest_errors(ss, r[1]['mutationTree']): c.fail(p, w)
    return c
def j_suite(name, fn, *a):
    s = suites.Suite(Ctx.dredd, Ctx.work, name); getattr(suites, fn)(s, *a); return s
def work(j):
    i, fn, a = j
    t = time.time(); name = 'j%d' % i
    out = dict(job=(fn, a), bad=[], n={}, err=None)
    try:
        c = globals()[fn](name, *a)
        out['n'] = c.n
        seen = {}
        ut = {u[0]: u[1] for u in getattr(c, 'units', [])}
        for p, w, u, e in c.bad:
            if isinstance(e, dict) and e.get('soft'): out['n']['unjudged'] = out['n'].get('unjudged', 0) + 1; continue
            seen[p] = seen.get(p, 0) + 1
            if seen[p] > 5: continue
            try: x = c.explain(e)
            except Exception as ex: x = repr(ex)
            out['bad'].append((p, w, u, ut.get(u), x))
    except Exception as e: out['err'] = repr(e)[:300] + traceback.format_exc()[-700:]
    shutil.rmtree(Ctx.work + '/' + name, ignore_errors=True)
    out['t'] = time.time() - t
    return out
def run(dredd, workdir, jobs, nproc=8, deadline=None):
    """Yields results as they come; what is not finished by the deadline is reported as an error."""
    Ctx.dredd, Ctx.work = dredd, workdir
    shutil.rmtree(workdir, ignore_errors=True); os.makedirs(workdir)
    with mp.get_context('fork').Pool(nproc) as pool:
        it = pool.imap_unordered(work, [(i,) + j for i, j in enumerate(jobs)], 1)
        left = [repr(j) for j in jobs]
        for _ in jobs:
            try: r = it.next(max(1, deadline - time.time()) if deadline else None)
            except mp.TimeoutError: break
            left.remove(repr(r['job'])); yield r
        for j in left: yield dict(job=(j,), bad=[], n={}, err='not finished in time', t=0)
    shutil.rmtree(workdir, ignore_errors=True)
def split(cxx, size, seed, nrand):
    n = nunits(cxx, seed, nrand)
    # interleave so that expensive kinds are spread: contiguous ranges are fine
    return [(cxx, a, min(a + size, n), seed, nrand) for a in range(0, n, size)]
