"""Replays the listed findings on the real dredd; returns those that still fail."""
import os, shutil
from behave import sh, CC
def run(dredd, work, known):
    out = []
    for k in known:
        d = work + '/' + k['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        cxx = k['lang'] == 'cc'; std = [k['std']] if 'std' in k else []
        res = []
        for mut in (False, True):
            f = '%s/%s.%s' % (d, 'm' if mut else 'o', k['lang']); open(f, 'w').write(k['source'])
            if mut: sh([dredd] + k.get('opts', []) + [f, '--', '-w'] + std)
            r = sh([CC[cxx], '-w'] + std + [f, '-o', f + '.x'])
            if r.returncode: res.append('does not compile'); continue
            r = sh([f + '.x'], env={'DREDD_ENABLED_MUTATION': k['env']} if 'env' in k else {})
            res.append((r.returncode, r.stdout))
        if res[0] != res[1]: out.append(k)
        shutil.rmtree(d, ignore_errors=True)
    return out
