"""Builds the extractor and dredd from /repo's working tree, and extracts the
syntax trees of all of dredd's sources.  Nothing is taken from /repo/_build."""
import os, sys, json, subprocess, shlex, time, threading
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_BUILD', VERIF + '/.build')
INLINE = r'^clang::(Binary|Unary)Operator(Kind)?::is'
class BuildError(Exception): pass
def env():
    e = dict(os.environ)
    for k in ('CC', 'CXX', 'CFLAGS', 'CXXFLAGS', 'LDFLAGS'): e.pop(k, None)
    return e
def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, env=env(), **kw)
    if r.returncode: raise BuildError('%s failed (%d):\n%s' % (' '.join(cmd)[:200], r.returncode, (r.stdout + r.stderr)[-3000:]))
    return r.stdout
class Build:
    """Starts both builds in the background; .dredd() and .program_dir() wait."""
    def __init__(s, want_dredd=True):
        s.t0 = time.time(); s.err = {}; s.times = {}
        os.makedirs(OUT, exist_ok=True)
        s.b = OUT + '/dredd'
        s.ev = {k: threading.Event() for k in ('extract', 'proto', 'dredd', 'x')}
        s.want = want_dredd
        for f in (s._extractor, s._dredd, s._extract): threading.Thread(target=f, daemon=True).start()
    def _guard(s, k, f):
        try: f()
        except Exception as e: s.err[k] = e
        s.times[k] = round(time.time() - s.t0, 1); s.ev[k].set()
    def _extractor(s):
        s._guard('extract', lambda: run(['bash', VERIF + '/tools/build_extract.sh', OUT + '/extract']))
    def _dredd(s):
        def conf():
            if not os.path.exists(s.b + '/build.ninja'):
                run(['cmake', '-S', REPO, '-B', s.b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_C_COMPILER=/usr/bin/clang-17',
                     '-DCMAKE_CXX_COMPILER=/usr/bin/clang++-17', '-DDREDD_CLANG_LLVM_DIR=/usr/lib/llvm-17',
                     '-DCMAKE_PROJECT_dredd_INCLUDE=/opt/vp/system-deps.cmake', '-DDREDD_WARNINGS_AS_ERRORS=OFF'])
            t = [l.split(':')[0] for l in run(['ninja', '-C', s.b, '-t', 'targets', 'all']).splitlines()]
            pb = [x for x in t if x.endswith('.pb.h')]
            if pb: run(['ninja', '-C', s.b] + pb)
        s._guard('proto', conf)
        if 'proto' in s.err: s.err['dredd'] = s.err['proto']; s.ev['dredd'].set(); return
        if s.want: s._guard('dredd', lambda: run(['ninja', '-C', s.b, 'dredd']))
    def _extract(s):
        def go():
            s.ev['extract'].wait(); s.ev['proto'].wait()
            for k in ('extract', 'proto'):
                if k in s.err: raise s.err[k]
            db = json.load(open(s.b + '/compile_commands.json'))
            d = OUT + '/x'
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(d): os.unlink(d + '/' + f)
            src = REPO + '/src/'
            todo = [e for e in db if e['file'].startswith(src) and 'libdreddtest' not in e['file'] and not e['file'].endswith('.pb.cc')]
            s.sources = [e['file'][len(REPO) + 1:] for e in todo]
            def one(e):
                a = shlex.split(e['command'])[1:]; o = []; i = 0; f = e['file']
                while i < len(a):
                    if a[i] in ('-o', '-MF', '-MT'): i += 2; continue
                    if a[i] in ('-c', '-MD', '-MMD') or a[i] == f: i += 1; continue
                    o.append(a[i]); i += 1
                out = d + '/' + os.path.basename(f) + '.json'
                run([OUT + '/extract', src, INLINE, out, f, '--'] + o, cwd=e['directory'])
                if not os.path.exists(out): raise BuildError('no extraction of ' + f)
            todo.sort(key=lambda e: -os.path.getsize(e['file']))
            with ThreadPoolExecutor(8) as p: list(p.map(one, todo))
        s._guard('x', go)
    def wait(s, k):
        s.ev[k].wait()
        if k in s.err: raise s.err[k]
    def dredd(s): s.wait('dredd'); return s.b + '/src/dredd/dredd'
    def program_dir(s): s.wait('x'); return OUT + '/x'
if __name__ == '__main__':
    b = Build(); print(b.dredd(), b.program_dir(), b.times)
