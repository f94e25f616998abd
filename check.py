#!/usr/bin/env -S python3-vt -B
"""check.py <property> [--tier quick|thorough]

Rebuilds from /repo's working tree, extracts dredd's functions, discharges the
proof obligations of the property (L1), runs the bounded conformance jobs that
stand in where no contract is in reach and replay failed obligations (L2), and
writes evidence/<property>.json.  Exit 0: held; 1: VIOLATION; 2: no answer."""
import os, sys, json, time, re, subprocess
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/vc', V + '/l2']
sys.dont_write_bytecode = True
import build, spec
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 720 if tier == 'quick' else 6 * 3600    # a check gets 900 s
    S = spec.SPEC[pid]
    B = build.Build()
    try: xd = B.program_dir()
    except build.BuildError as e: return noanswer(pid, e)
    import jobs, l2jobs
    j1 = S.l1(tier); j2 = S.l2(tier, seed)
    p1 = jobs.start(xd, build.REPO, j1) if j1 else None
    try: dredd = B.dredd()
    except build.BuildError as e: return noanswer(pid, e)
    res2 = []
    for r in l2jobs.run(dredd, build.OUT + '/l2', j2, deadline=t0 + limit):
        res2.append(r)
        if os.environ.get('VERBOSE'): print('L2', r['job'][0], str(r['job'][1])[:70], round(r['t'], 1), r['n'], r['err'] or '', [b[:2] for b in r['bad']][:2])
    res1 = jobs.finish(p1, j1, t0 + limit + 30) if p1 else []
    post = S.post(res1) if S.post else []       # obligations over several results
    res1 += post
    # ---- L1
    tot = dis = paths = queries = 0; names = {}; failed = []; limits = []; opens = set(); fns = set(); st = 0.0
    for r in res1:
        st += r.get('t', 0)
        if 'limit' in r: limits.append((str(r['job']), r['limit'])); continue
        paths += r.get('paths', 0); queries += r.get('queries', 0)
        for (p, n), (a, b) in r['names'].items():
            if p == pid:
                x = names.setdefault(n, [0, 0]); x[0] += a; x[1] += b
        for o in r.get('open', ()): opens.add(tuple(o))
        for f in r.get('fns', ()): fns.add(f)
        for p, n, d in r['bad']:
            if p != pid: continue
            (limits if n in spec.FORM else failed).append((n, d))
        if os.environ.get('VERBOSE') and r['bad']: print('L1', r['job'], r['bad'][:2])
    tot = sum(a for a, b in names.values()); dis = sum(b for a, b in names.values())
    # ---- L2
    bad2 = []; n2 = {}; errs = []
    for r in res2:
        if r['err']: errs.append((r['job'], r['err']))
        for k, v in r['n'].items(): n2[k] = n2.get(k, 0) + v
        for b in r['bad']:
            if b[0] == pid or b[0] == 'run' or (b[0] == 'compile' and pid in spec.COMPILE): bad2.append((r['job'],) + b)
    known = [x for x in json.load(open(V + '/known-findings.json'))['findings'] if x['property'] == pid]
    kn = []
    if known:
        import known as K
        kn = K.run(dredd, build.OUT + '/kf', known)
    for x in kn: print('KNOWN-FINDING: property=%s %s' % (pid, x['what']))
    viol = None
    if failed or bad2:
        d = build.OUT + '/replay'; os.makedirs(d, exist_ok=True)
        path = '%s/%s.txt' % (d, pid)
        with open(path, 'w') as f:
            f.write('property %s\n' % pid)
            if failed:
                f.write('\nFAILED OBLIGATIONS (%d)\n' % len(failed))
                for n, x in failed[:20]: f.write('* %s\n    %s\n' % (n, str(x)[:1500]))
            f.write('\nFAILING INPUTS ON THE REAL CODE (%d)\n' % len(bad2))
            for j, p, w, u, ut, x in bad2[:12]:
                f.write('* %s\n' % w)
                f.write('    job: %s\n' % (j,))
                if ut: f.write('    input unit (with l2/gen.py HDR as l2.h):\n' + ''.join('        ' + l + '\n' for l in ut.split('\n')))
                if x: f.write('    %s\n' % x)
            if not bad2: f.write('none found by the conformance jobs\n')
        viol = 'VIOLATION property=%s replay=%s%s' % (pid, path, '' if bad2 else ' no-failing-input-found')
        for n, x in failed[:3]: print('failed obligation: %s: %s' % (n, str(x)[:300]))
        for j, p, w, u, ut, x in bad2[:3]: print('failing input: %s' % w[:400])
    ev = dict(property=pid, tier=tier, seed=seed, level=S.level, wall_s=round(time.time() - t0, 1), violations=int(bool(viol)),
              coverage=dict(obligations=tot, discharged=dis, checker_cmd='python3-vt check.py %s --tier %s' % (pid, tier),
                            trusted_base=spec.TRUSTED + S.trusted,
                            functions_under_contract=sorted(fns) or S.functions, backend='z3 4.x (python3-vt z3-solver) over verification conditions generated by vc/ from clang ASTs',
                            obligation_classes={k: v for k, v in sorted(names.items())}, paths=paths, solver_queries=queries, solver_cpu_s=round(st, 1),
                            not_within_reach=[list(x)[:2] for x in limits[:20]], open_side_obligations=sorted(map(list, opens)),
                            bounded=dict(label='bounded, not counted as proved', bound=S.bound, checks=n2.get(pid, 0), jobs=len(res2), errors=[str(e)[:400] for e in errs[:5]], unjudged=n2.get('unjudged', 0)),
                            build_s=B.times),
              assumptions=spec.ASSUME + S.assume)
    if S.level != 'proof':
        ev['coverage'].update(S.extra(n2.get(pid, 0)))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d not within reach, %d bounded checks, %d s' % (pid, dis, tot, len(limits), n2.get(pid, 0), time.time() - t0))
    for l in limits[:3]: print('not within reach: %s' % (str(l)[:300]))
    for e in errs[:3]: print('job error: %s' % (str(e)[:600]))
    if viol: print(viol); return 1
    if errs and len(errs) == len(res2) and not dis: return 2
    return 0
def noanswer(pid, e):
    print('no answer for %s: %s' % (pid, str(e)[-1500:])); return 2
if __name__ == '__main__':
    r = main(); sys.stdout.flush(); os._exit(r)
