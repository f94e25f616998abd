"""Runs the real dredd on a chunk of the corpus and compares the instrumented
program with source-level oracles built from the mutation info file."""
import os, re, json, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__))
CC = {True: 'clang++-17', False: 'clang-17'}
STD = {True: '-std=c++20', False: '-std=c17'}
OPS = {'Mul': '*', 'Div': '/', 'Rem': '%', 'Add': '+', 'Sub': '-', 'Shl': '<<', 'Shr': '>>', 'LT': '<', 'GT': '>', 'LE': '<=', 'GE': '>=', 'EQ': '==',
       'NE': '!=', 'And': '&', 'Xor': '^', 'Or': '|', 'LAnd': '&&', 'LOr': '||', 'Assign': '=', 'MulAssign': '*=', 'DivAssign': '/=', 'RemAssign': '%=',
       'AddAssign': '+=', 'SubAssign': '-=', 'ShlAssign': '<<=', 'ShrAssign': '>>=', 'AndAssign': '&=', 'XorAssign': '^=', 'OrAssign': '|='}
ALT = {'and': '&&', 'or': '||', 'bitand': '&', 'bitor': '|', 'xor': '^', 'compl': '~', 'not': '!', 'and_eq': '&=', 'or_eq': '|=', 'xor_eq': '^=', 'not_eq': '!='}
UOPS = {'PostInc': ('', '++'), 'PostDec': ('', '--'), 'PreInc': ('++', ''), 'PreDec': ('--', ''), 'Minus': ('-', ''), 'Not': ('~', ''), 'LNot': ('!', ''), 'Plus': ('+', '')}
def sh(cmd, timeout=300, **kw):
    e = dict(os.environ)
    for k in ('DREDD_ENABLED_MUTATION', 'DREDD_MUTANT_TRACKING_FILE'): e.pop(k, None)
    e.update(kw.pop('env', {}))
    try: return subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout, env=e, **kw)
    except subprocess.TimeoutExpired as x:
        return subprocess.CompletedProcess(cmd, -99, '', 'timeout')
class Src:
    def __init__(s, text):
        s.t = text; s.off = [0]
        for l in text.split('\n'): s.off.append(s.off[-1] + len(l) + 1)
        s.n = len(s.off) - 1
    def pos(s, p):
        l, c = p.get('line', 0), p.get('column', 0)
        if l < 1 or l > s.n or c < 1: return None
        q = s.off[l - 1] + c - 1
        return q if q <= s.off[l] else None
def groups(info):
    "(kind, message, node index) of every mutation group of one file."
    for i, n in enumerate(info.get('mutationTree', [])):
        for g in n.get('mutationGroups', []):
            for k, m in g.items(): yield k, m, i
def rng(m, a, b): return m.get(a, {}), m.get(b, {})
def snip(t, rec): return rec == t or (len(t) > 20 and rec == t[:10] + ' ... [snip] ... ' + t[-10:])
class Site:
    __slots__ = ('kind', 'm', 'a', 'b', 'parts', 'inst', 'node', 'unit')
def sites(src, info, fail):
    """Decodes the groups; `fail(prop, what)` is called for malformed ranges."""
    out = []
    for kind, m, node in groups(info):
        s = Site(); s.kind, s.m, s.node, s.parts, s.unit = kind, m, node, {}, None
        pre = 'expr' if kind in ('replaceBinaryOperator', 'replaceUnaryOperator') else ''
        def one(p, sn):
            x, y = (p + 'Start', p + 'End') if p else ('start', 'end')
            a, b = src.pos(m.get(x, {})), src.pos(m.get(y, {}))
            if a is None or b is None or b <= a: fail('C09', f'{kind}: range {x}..{y} = {m.get(x)}..{m.get(y)} is not a range of the file'); return None
            if not snip(src.t[a:b], m.get(sn, '')): fail('C09', f'{kind}: text at {m.get(x)}..{m.get(y)} is {src.t[a:b]!r}, recorded snippet is {m.get(sn)!r}')
            return a, b
        r = one(pre, 'exprSnippet' if pre else 'snippet')
        if r is None: continue
        s.a, s.b = r
        for p in {'replaceBinaryOperator': ('lhs', 'rhs'), 'replaceUnaryOperator': ('operand',)}.get(kind, ()):
            q = one(p, p + 'Snippet')
            if q is None: break
            if not (s.a <= q[0] and q[1] <= s.b): fail('C09', f'{kind}: {p} range is not inside the expression range at {m.get("exprStart")}')
            s.parts[p] = q
        else:
            s.inst = [(m.get('mutationId', 0), 'Remove')] if kind == 'removeStmt' else [(i.get('mutationId', 0), i.get('action', '?')) for i in m.get('instances', [])]
            t = src.t[s.a:s.b]
            if kind == 'replaceBinaryOperator':
                mid = re.sub(r'/\*.*?\*/|//[^\n]*|\\\n', ' ', src.t[s.parts['lhs'][1]:s.parts['rhs'][0]], flags=re.S).strip()
                mid = ALT.get(mid, mid)
                # an operand in parentheses may have a range without them
                mm = mid.strip('() ')
                if OPS.get(m.get('operator')) not in (mid, mm): fail('C09', f'{kind}: between the operands is {mid!r}, recorded operator is {m.get("operator")} at {m.get("exprStart")}')
            if kind == 'replaceUnaryOperator':
                x, y = src.t[s.a:s.parts['operand'][0]].strip(), src.t[s.parts['operand'][1]:s.b].strip()
                x = ALT.get(x, x)
                if UOPS.get(m.get('operator')) != (x, y): fail('C09', f'{kind}: operator text {(x, y)}, recorded operator is {m.get("operator")} at {m.get("exprStart")}')
            out.append(s)
    return out
def typed(cxx, orig, e):
    if cxx: return '(static_cast<std::remove_cv_t<std::remove_reference_t<decltype((%s))>>>(%s))' % (orig, e)
    return '((__typeof__((%s)))(%s))' % (orig, e)
def variants(src, s, action, cxx):
    """Source texts that the site must behave like when the mutant is enabled,
    and whether the evaluated operands are comparable."""
    T = lambda r: src.t[r[0]:r[1]]
    E = src.t[s.a:s.b]; m = s.m
    if s.kind == 'removeStmt':
        nxt = re.match(r'\s*;', src.t[s.b:])
        return (['(void)0'] if nxt else ['{ }']), True
    if s.kind == 'replaceBinaryOperator':
        L, R = '(%s)' % T(s.parts['lhs']), '(%s)' % T(s.parts['rhs']); op = OPS.get(m['operator'])
        asg = m['operator'].endswith('Assign')
        if action in ('ReplaceWithLHS', 'ReplaceWithRHS'):
            x = L if action.endswith('LHS') else R
            if m['operator'] in ('LAnd', 'LOr') and not cxx: return ['(!!%s)' % x, typed(cxx, E, x)], False
            if m['operator'] in ('LAnd', 'LOr'): return ['((bool)%s)' % x], True
            if cxx: return [typed(cxx, E, x)], True
            return [typed(cxx, E, '(%s, %s)' % ((R, L) if x is L else (L, R)))], True
        o = OPS.get(action[len('ReplaceWith'):])
        if o is None: return None
        if asg: return ['(%s %s %s)' % (L, o, R)] + (['(%s %s %s)' % (L, o, typed(cxx, L, R))] if op == '=' else []), True
        if cxx and op in ('&&', '||'): L, R = '((bool)%s)' % L, '((bool)%s)' % R
        cl = o in ('&&', '||') or op in ('&&', '||')
        return [typed(cxx, E, '%s %s %s' % (L, o, R))], not (cl and not cxx)
    if s.kind == 'replaceUnaryOperator':
        X = '(%s)' % T(s.parts['operand'])
        if cxx and m['operator'] == 'LNot': X = '((bool)%s)' % X
        if action == 'ReplaceWithOperand': return [X, typed(cxx, E, X)], True
        o = UOPS.get(action[len('ReplaceWith'):])
        if o is None: return None
        e = '(%s%s%s)' % (o[0], X, o[1])
        inc = action[len('ReplaceWith'):] in ('PreInc', 'PreDec')
        return [e] if inc else [typed(cxx, E, e), e], True
    X = '(%s)' % E
    ins = {'InsertPreInc': '(++%s)', 'InsertPreDec': '(--%s)', 'InsertLNot': '(!%s)', 'InsertNot': '(~%s)', 'InsertMinus': '(-%s)'}
    if action in ins:
        e = ins[action] % X
        if 'Pre' in action: return [e], True
        if 'LNot' in action: return [e, typed(cxx, X, e), '(!(long long)%s)' % X], True
        out = [e, typed(cxx, X, e), ins[action] % ('((long long)%s)' % X), ins[action] % ('((unsigned)%s)' % X)]      # the site may be an implicit conversion of the text
        if 'Minus' in action: out.append('(-((double)%s))' % X)
        return out, True
    k = {'ReplaceWithZeroFloat': 'zd(0.0)', 'ReplaceWithOneFloat': 'zd(1.0)', 'ReplaceWithMinusOneFloat': 'zd(-1.0)', 'ReplaceWithZeroInt': 'zi(0)', 'ReplaceWithOneInt': 'zi(1)',
         'ReplaceWithMinusOneInt': 'zi(-1)', 'ReplaceWithTrue': '(zi(1) != 0)', 'ReplaceWithFalse': '(zi(0) != 0)'}.get(action)
    if k is None: return None
    c = [typed(cxx, X, k), '((int)%s)' % k if 'zd' not in k else k]
    return (c if cxx else ['(%s, %s)' % (X, q) for q in c]), True
class Chunk:
    def __init__(s, dredd, work, name, cxx, units, std=None):
        s.dredd, s.cxx, s.units, s.name = dredd, cxx, units, name
        s.dir = work + '/' + name; os.makedirs(s.dir, exist_ok=True)
        s.ext = 'cc' if cxx else 'c'
        import gen
        open(s.dir + '/l2.h', 'w').write(gen.HDR)
        lines = ['#include "l2.h"', '']; s.ulines = {}
        for n, t, f in units:
            a = len(lines) + 1
            lines += t.rstrip('\n').split('\n')
            s.ulines[n] = (a, len(lines)); lines.append('')
        s.text = '\n'.join(lines)
        s.src = Src(s.text); s.bad = []; s.n = {}
        s.flags = ['-w', '-O0', '-fwrapv', '-I' + s.dir, STD[cxx] if std is None else std]
    def fail(s, prop, what, unit=None, extra=None): s.bad.append((prop, what, unit, extra))
    def ok(s, prop, k=1): s.n[prop] = s.n.get(prop, 0) + k
    def path(s, x): return s.dir + '/' + x
    PRE = 'int pre_f(int a, int b) {\n  int c = a + b;\n  if (a < b) c++;\n  return c;\n}\n'
    def mutate(s, tag, opts):
        """Runs dredd on a small first file and on the chunk; returns
        (path of the mutated file, its info, first id, total) or None."""
        d = s.path(tag); os.makedirs(d, exist_ok=True)
        f, g = d + '/f.' + s.ext, d + '/pre.' + s.ext
        open(f, 'w').write(s.text); open(g, 'w').write(s.PRE)
        r = sh([s.dredd] + opts + ['--mutation-info-file', d + '/info.json', g, f, '--', '-w', '-I' + s.dir, s.flags[-1]])
        if r.returncode != 0:
            s.fail('run', f'dredd {" ".join(opts)} exited with {r.returncode}: {r.stderr[-400:]}'); return None
        try: info = json.load(open(d + '/info.json'))
        except Exception as e: s.fail('run', 'mutation info file is not readable JSON: %s' % e); return None
        files = info.get('infoForFiles', [])
        if [os.path.basename(x.get('filename', '')) for x in files] != ['pre.' + s.ext, 'f.' + s.ext]:
            s.fail('C12', f'mutation info lists {[x.get("filename") for x in files]} for two mutated files'); return None
        n = 0; first = 0
        for x in files:
            first = n
            ids = ids_of(x)
            if ids != list(range(n, n + len(ids))): s.fail('C03', f'{x.get("filename")}: mutant ids are not consecutive from {n}, each once: {[(p, q) for p, q in zip(ids, range(n, n + len(ids))) if p != q][:4]}')
            n += len(ids); s.ok('C03', len(ids))
            for p, w in tree_errors(x): s.fail(p, w)
            s.ok('C08', len(x.get('mutationTree', [])))
        return f, files[1], first, n
    def compile(s, f, out, extra=()):
        r = sh([CC[s.cxx]] + s.flags + list(extra) + ['-c', f, '-o', out])
        return r.returncode == 0, r.stderr
    def drv(s):
        o = s.path('drv.o')
        if not os.path.exists(o):
            r = sh(['clang-17', '-w', '-O1', '-I' + s.dir, '-c', HERE + '/drv.c', '-o', o])
            if r.returncode: raise Exception(r.stderr)
        return o
    def table(s, names, out):
        ex = 'extern "C" ' if False else ''
        t = '#include "l2.h"\n' + ''.join('void %s(IN *);\n' % n for n in names)
        t += 'struct ent { const char *name; void (*f)(IN *); };\n'
        pre = 'extern "C" { extern struct ent table[]; extern int ntable; }\n' if s.cxx else ''
        t += pre + 'struct ent table[] = {' + ''.join('{"%s", %s},' % (n, n) for n in names) + '};\nint ntable = %d;\n' % len(names)
        f = s.path(out + '.' + s.ext); open(f, 'w').write(t)
        ok, err = s.compile(f, s.path(out + '.o'))
        if not ok: raise Exception(err[-500:])
        return s.path(out + '.o')
    def link(s, objs, out, extra=()):
        r = sh([CC[s.cxx]] + objs + list(extra) + ['-o', s.path(out)])
        if r.returncode: raise Exception(r.stderr[-800:])
        return s.path(out)
    def run(s, exe, items, verbose=False, env=None):
        r = sh([exe] + (['-v'] if verbose else []), input='\n'.join('%d %d %s' % i for i in items) + '\n', env=env or {}, timeout=600)
        if verbose: return r.stdout
        out = {}
        for l in r.stdout.split('\n'):
            p = l.split()
            if p: out[int(p[0])] = p[1:]
        return [out.get(i, ['NONE']) for i in range(len(items))]
    # -- oracle
    def oracle(s, muts):
        """muts: list of (unit, id, [(a, b, text)...alternatives]) -> hashes."""
        names = [n for n, _, _ in s.units]
        body = ['#include "l2.h"'] + (['#include <type_traits>'] if s.cxx else [])
        where = {}
        for n, t, f in s.units: body.append(t)
        txt = '\n'.join(body) + '\n'
        line = txt.count('\n') + 1
        vn = []
        out = [txt]
        utext = {n: t for n, t, f in s.units}
        for j, (u, mid, alts) in enumerate(muts):
            a0, b0 = s.ulines[u]; ua = s.src.off[a0 - 1]; ub = s.src.off[b0]
            for k, (a, b, new) in enumerate(alts):
                v = '%s__m%d_%d' % (u, mid, k)
                t = s.text[ua:a] + new + s.text[b:ub]
                t = re.sub(r'\b%s(?=_|\b)(?!__m)' % u, v, t)
                if not t.endswith('\n'): t += '\n'
                out.append(t); nl = t.count('\n')
                where[v] = (line, line + nl - 1, j, k); line += nl
                vn.append(v)
        return names, vn, ''.join(out), where
    def build_oracle(s, muts, tag):
        names, vn, txt, where = s.oracle(muts)
        dead = set()
        for attempt in range(4):
            f = s.path('oracle_%s.%s' % (tag, s.ext)); open(f, 'w').write(txt)
            ok, err = s.compile(f, s.path('oracle_%s.o' % tag), ['-ferror-limit=0'])
            if ok: break
            bad = set()
            ls = txt.split('\n')
            for m in re.finditer(r'^[^\n:]*oracle_[^\n:]*:(\d+):\d+: error', err, re.M):
                l = int(m.group(1))
                for v, (a, b, j, k) in where.items():
                    if v not in dead and a <= l <= b: bad.add(v); break
                else: raise Exception('oracle: ' + err[:600])
            if not bad: raise Exception('oracle: ' + err[:600])
            for v in bad:
                a, b, j, k = where[v]
                for i in range(a - 1, b): ls[i] = ''
            dead |= bad; txt = '\n'.join(ls)
        else: raise Exception('oracle does not compile: ' + err[:400])
        live = names + [v for v in vn if v not in dead]
        exe = s.link([s.path('oracle_%s.o' % tag), s.table(live, 'otab_' + tag), s.drv()], 'oracle_' + tag)
        return exe, live, dead, where
    def behaviour(s, tag, opts, mutants=True, pick=None):
        """Runs one mode.  Checks C01, C02, C03, C09 on this chunk."""
        r = s.mutate(tag, opts)
        if r is None: return
        f, info, first, N = r
        ss = sites(s.src, info, lambda p, w: s.fail(p, w))
        s.ok('C09', len(ss))
        okc, err = s.compile(f, s.path(tag + '.o'), ['-ferror-limit=5'])
        if not okc: s.fail('compile', 'instrumented file does not compile: ' + err[:700]); return
        names = [n for n, _, _ in s.units]; idx = {n: i for i, n in enumerate(names)}
        exe = s.link([s.path(tag + '.o'), s.table(names, 'tab'), s.drv()], 'mut_' + tag)
        fl = {n: f for n, _, f in s.units}
        muts = []; meta = []
        for x in ss:
            l = x.m.get('exprStart', x.m.get('start', {})).get('line', 0)
            for u, (a, b) in s.ulines.items():
                if a <= l <= b: x.unit = u; break
            if x.unit is None: s.fail('C09', f'site at line {l} is outside every function of the file'); continue
            if not mutants or 'mem' in fl[x.unit]: continue
            if x.kind == 'removeStmt' and re.search(r'\breturn\b *[^; ]', s.text[x.a:x.b]): continue    # flowing off the end is undefined
            for i, act in x.inst:
                if pick and not pick(i): continue
                v = variants(s.src, x, act, s.cxx)
                if v is None: s.fail('C02', f'unknown action {act} for {x.kind}'); continue
                muts.append((x.unit, i, [(x.a, x.b, t) for t in v[0]])); meta.append((x, act, v[1]))
        oexe, live, dead, where = s.build_oracle(muts, tag)
        lidx = {n: i for i, n in enumerate(live)}
        base = s.run(oexe, [(lidx[n], 1, '-') for n in names])
        # nothing enabled: unset, empty, ids that do not exist here
        for env in ('-', 'EMPTY', '0,%d' % (first - 1), '%d,%d,%d' % (N, N + 63, N + 64)):
            got = s.run(exe, [(i, 2, env) for i in range(len(names))])
            for n, g, b in zip(names, got, base):
                s.ok('C01')
                if not same(g, b + b, b + b, True):
                    s.fail('C01', f'{n} behaves differently with no mutant enabled ({env})', n, dict(env=env, exe=exe, i=idx[n], oexe=oexe, oi=lidx[n]))
        if not mutants: return
        # a mutant may well overflow on values that the original handles: mutants run on the narrow inputs
        narrow = {'L2_NARROW': '1'}
        base = s.run(oexe, [(lidx[n], 1, '-') for n in names], env=narrow)
        got = s.run(exe, [(idx[u], 1, str(i)) for u, i, _ in muts], env=narrow)
        items = [(lidx[v], 1, '-') for v in live[len(names):]]
        ov = dict(zip(live[len(names):], s.run(oexe, items, env=narrow)))
        for (u, i, alts), (x, act, tr), g in zip(muts, meta, got):
            c = [(v, ov[v]) for v in ('%s__m%d_%d' % (u, i, k) for k in range(len(alts))) if v in ov]
            if not c:
                s.fail('C02', f'mutant {i} ({act}): recorded change does not compile at source level: {alts[0][2]!r}', u, dict(soft=True)); continue
            s.ok('C02')
            if not any(same(g, o, base[idx[u]], tr) for _, o in c):
                e = dict(env=str(i), exe=exe, i=idx[u], oexe=oexe, oi=lidx[c[0][0]])
                s.fail('C02', f'mutant {i} ({act} of {s.text[x.a:x.b]!r}) does not behave as {alts[0][2]!r}', u, e)
                if same(g, base[idx[u]], base[idx[u]], True): s.fail('C03', f'enabling mutant {i} ({act} of {s.text[x.a:x.b]!r}) has no effect at its site', u, e)
        # a mutant leaves the other sites alone: run the neighbouring unit
        sel = [k for k in range(len(muts)) if k % 7 == 0]
        nb = [(idx[muts[k][0]] + 1) % len(names) for k in sel]
        got = s.run(exe, [(n, 1, str(muts[k][1])) for k, n in zip(sel, nb)], env=narrow)
        for k, n, g in zip(sel, nb, got):
            s.ok('C01')
            if not same(g, base[n], base[n], True):
              for pp in ('C01', 'C03'): s.fail(pp, f'{names[n]} changes when mutant {muts[k][1]} of {muts[k][0]} is enabled', names[n], dict(env=str(muts[k][1]), exe=exe, i=n, oexe=oexe, oi=n))
    def tracking(s, tag, opts):
        """--only-track-mutant-coverage: behaviour as the original, and exactly the
        mutants of the reached sites recorded, once (C05)."""
        r0 = s.mutate(tag + '_ref', opts)
        r = s.mutate(tag, opts + ['--only-track-mutant-coverage'])
        if r is None or r0 is None: return
        f, info, first, N = r
        s.ok('C05')
        if json.dumps(info.get('mutationTree'), sort_keys=True) != json.dumps(r0[1].get('mutationTree'), sort_keys=True) or r0[2:] != r[2:]:
            s.fail('C05', 'mutation info differs between tracking and mutation mode: ' + first_diff(r0[1], info)); s.fail('C03', 'mutation info differs between tracking and mutation mode')
        ss = sites(s.src, info, lambda p, w: None)
        okc, err = s.compile(f, s.path(tag + '.o'), ['-ferror-limit=5'])
        if not okc: s.fail('compile', 'tracking-instrumented file does not compile: ' + err[:700]); return
        names = [n for n, _, _ in s.units]
        exe = s.link([s.path(tag + '.o'), s.table(names, 'tab_' + tag), s.drv()], 'trk_' + tag)
        muts = []; un = {}
        for k, x in enumerate(ss):
            l = x.m.get('exprStart', x.m.get('start', {})).get('line', 0)
            for u, (a, b) in s.ulines.items():
                if a <= l <= b: x.unit = u; break
            if x.unit is None or not x.inst: continue
            E = s.text[x.a:x.b]
            if x.kind == 'removeStmt':
                end = x.b
                m = re.match(r'(\s|//[^\n]*\n|/\*.*?\*/)*;', s.text[x.b:], re.S)
                if m: end = x.b + m.end()
                alts = [(x.a, end, '{ ti(990, 0); %s }' % s.text[x.a:end])]
            else: alts = [(x.a, x.b, '(ti(990, 0), (%s))' % E)]
            muts.append((x.unit, x.inst[0][0], alts)); un.setdefault(x.unit, []).append((len(muts) - 1, x))
        oexe, live, dead, where = s.build_oracle(muts, tag)
        lidx = {n: i for i, n in enumerate(live)}
        base = s.run(oexe, [(lidx[n], 1, '-') for n in names])
        unset = s.run(exe, [(i, 2, '-') for i in range(len(names))])
        for n, g, b in zip(names, unset, base):
            s.ok('C05')
            if not same(g, b + b, b + b, True): s.fail('C05', f'{n} behaves differently under coverage tracking', n, dict(env='-', exe=exe, i=names.index(n), oexe=oexe, oi=lidx[n]))
        # which sites are reached
        hv = [(j, '%s__m%d_0' % (u, i)) for j, (u, i, _) in enumerate(muts)]
        hv = [(j, v) for j, v in hv if v in lidx]
        hits = s.run(oexe, [(lidx[v], 1, '-') for j, v in hv], env={'L2_HIT': '1'})
        reached = {j: any(t.endswith('!') for t in h) for (j, v), h in zip(hv, hits)}
        dirs = s.path('cov_' + tag)
        os.makedirs(dirs, exist_ok=True)
        got = s.run(exe, [(i, 2, '-') for i in range(len(names))], env={'L2_TRACK': dirs})
        for i, n in enumerate(names):
            if not same(got[i], base[i] + base[i], base[i] + base[i], True): s.fail('C05', f'{n} behaves differently under coverage tracking with a tracking file', n)
            try: ls = open('%s/%d' % (dirs, i)).read().split('\n')
            except FileNotFoundError: ls = ['']
            if ls and ls[-1] == '': ls.pop()
            s.ok('C05')
            if any(not re.fullmatch(r'\d+', l) for l in ls): s.fail('C05', f'{n}: tracking file has a malformed line: {ls[:5]}', n); continue
            ids = [int(l) for l in ls]
            if len(set(ids)) != len(ids): s.fail('C05', f'{n}: tracking file lists an id twice: {sorted(x for x in ids if ids.count(x) > 1)[:5]}', n)
            cut = any(t in ('L', 'U') for t in base[i])
            want = set(); maybe = set()
            for j, x in un.get(n, []):
                k = set(m for m, _ in x.inst)
                if j not in reached: maybe |= k
                elif reached[j]: want |= k
            if cut: continue
            ids = set(ids)
            if not (want <= ids <= want | maybe):
              for pp in ('C05', 'C03'):
                s.fail(pp, f'{n}: recorded ids: missing {sorted(want - ids)[:6]}, unexpected {sorted(ids - want - maybe)[:6]}', n, dict(src=True))
    def explain(s, e):
        if not e or 'exe' not in e: return ''
        a = s.run(e['exe'], [(e['i'], 1, e['env'])], verbose=True); b = s.run(e['oexe'], [(e['oi'], 1, '-')], verbose=True)
        for x, y in zip(a.split('\n'), b.split('\n')):
            if x.strip() != y.strip() and 'in(' in x: return 'instrumented: %s\n    expected:     %s' % (x.strip()[:300], y.strip()[:300])
        return 'instrumented: %s\n    expected:     %s' % (a[-300:], b[-300:])
def same(g, o, base, tr):
    """Equal results on every input on which the original has no undefined
    division ('U'); a run that is cut off ('L') is compared up to there."""
    if len(g) != len(o): return False
    for i, (x, y) in enumerate(zip(g, o)):
        if i < len(base) and base[i] == 'U' or x == 'U' or y == 'U': continue
        if x == y: continue
        if tr or x.split(':')[0] != y.split(':')[0]: return False
    return True
def first_diff(a, b):
    A, B = list(groups(a)), list(groups(b))
    for x, y in zip(A, B):
        if x != y: return '%s vs %s' % (json.dumps(x)[:300], json.dumps(y)[:300])
    return '%d vs %d groups' % (len(A), len(B))
def ids_of(info):
    return sorted(i for k, m, _ in groups(info) for i in ([m.get('mutationId', 0)] if k == 'removeStmt' else [q.get('mutationId', 0) for q in m.get('instances', [])]))
def tree_errors(info):
    t = info.get('mutationTree', [])
    par = {}
    for i, n in enumerate(t):
        for c in n.get('children', []):
            if not (i < c < len(t)): yield 'C08', f'node {i} has child index {c}, tree has {len(t)} nodes'
            elif c in par: yield 'C08', f'node {c} is the child of {par[c]} and of {i}'
            par[c] = i
    for i in range(1, len(t)):
        if i not in par: yield 'C08', f'node {i} has no parent'
def nest_errors(sts, tree):
    "Constructs are nested iff their nodes are."
    par = {c: i for i, n in enumerate(tree) for c in n.get('children', [])}
    anc = {}
    for i in range(len(tree)):
        a = set(); p = par.get(i)
        while p is not None and p not in a: a.add(p); p = par.get(p)
        anc[i] = a
    at = {}
    for x in sts: at.setdefault(x.node, []).append(x)
    st = sorted(sts, key=lambda x: (x.a, -x.b))
    for i, x in enumerate(st):
        for y in st[i + 1:]:
            if y.a >= x.b: break
            if y.b <= x.b and (y.a, y.b) != (x.a, x.b) and x.node not in anc[y.node]: yield 'C08', f'{y.kind} at {y.m.get("exprStart", y.m.get("start"))} lies inside {x.kind} at {x.m.get("exprStart", x.m.get("start"))}, but node {y.node} is not below node {x.node}'
    for y in sts:
        for n in anc[y.node]:
            for x in at.get(n, ()):
                if not (x.a <= y.a and y.b <= x.b): yield 'C08', f'node {y.node} with {y.kind} at {y.m.get("exprStart", y.m.get("start"))} is below node {n} with {x.kind} at {x.m.get("exprStart", x.m.get("start"))}, which does not contain it'
if __name__ == '__main__':
    import sys, tempfile, gen
    cxx, n0, n1, opts = sys.argv[1] == '1', int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    c = gen.corpus(cxx)
    d = tempfile.mkdtemp(prefix='l2')
    t = time.time()
    ch = Chunk('/tmp/b0/dredd/src/dredd/dredd', d, 'x', cxx, c.units[n0:n1])
    if '--track' in opts: opts.remove('--track'); ch.tracking('t', opts)
    else: ch.behaviour('m', opts)
    print(round(time.time() - t, 1), ch.n, len(ch.bad), d)
    seen = {}
    for p, w, u, e in ch.bad:
        seen[p] = seen.get(p, 0) + 1
        if seen[p] <= 6: print(p, w[:300], c.tags.get(u)); print('   ', ch.explain(e))
