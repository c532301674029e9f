"""Planted bugs: writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from the specs in a file (python3 tools/seed.py SPECS.py [id...]).
Every spec: id, prop, edits [(file, old, new)], needs, breaks, demo (python text; exits nonzero on the bug)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python "$here/demo.py"
'''
HEAD = '''import sys, warnings
warnings.simplefilter('ignore')
import numpy as np
import meent
PI = np.pi


def mee(backend=0, **kw):
    kw.setdefault('thickness', [0.3])
    for k in ('ucell',):
        if k in kw and backend == 2 and isinstance(kw[k], np.ndarray):
            import torch
            kw[k] = torch.as_tensor(kw[k])
    return meent.call_mee(backend=backend, **kw)


def num(x):
    return np.asarray(x.detach() if hasattr(x, 'detach') else x)


def check(name, ok):
    print(('ok   ' if ok else 'FAIL ') + name)
    if not ok:
        sys.exit(1)


'''


def run(cwd, d):
    return subprocess.run(['bash', f'{d}/demo.sh'], cwd=cwd, capture_output=True, text=True, timeout=300)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    wt = '/tmp/seedwt'
    for s in ns['SPECS']:
        if only and s['id'] not in only:
            continue
        d = f'{ROOT}/seeded/{s["id"]}'
        os.makedirs(d, exist_ok=True)
        subprocess.run(['rm', '-rf', '/tmp/seedwt'])
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.run(['git', 'clone', '-q', '/repo', wt], check=True)
        open(f'{d}/demo.sh', 'w').write(SH)
        open(f'{d}/demo.py', 'w').write(HEAD + s['demo'].strip() + '\n')
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
        a = run(wt, d)
        for f, old, new, *nth in s['edits']:
            p = f'{wt}/{f}'
            t = open(p).read()
            if nth:                       # the nth occurrence, from 0
                q = t.split(old)
                assert len(q) > nth[0] + 1, (s['id'], f)
                t = old.join(q[:nth[0] + 1]) + new + old.join(q[nth[0] + 1:])
            else:
                assert t.count(old) == 1, (s['id'], f, t.count(old))
                t = t.replace(old, new)
            open(p, 'w').write(t)
        b = run(wt, d)
        open(f'{d}/patch.diff', 'w').write(subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout)
        print(s['id'], 'clean', a.returncode, 'patched', b.returncode, b.stdout.strip()[-150:], (a.stderr + b.stderr).strip()[-300:])
    shutil.rmtree(wt, ignore_errors=True)


main()
