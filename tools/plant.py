"""Confirms a planted bug in a scratch copy of /repo and stores it.

    python3 tools/plant.py SPEC.py [...]

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...]
and DEMO (a Python program, exit 0 when the behaviour is right).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# Exits 0 when the behaviour is right (run with cwd /repo).
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import os
import sys

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                          text=True, **kw)


def main(path):
    spec = runpy.run_path(path)
    scratch = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    repo = os.path.join(scratch, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        demo = os.path.join(scratch, 'demo')
        os.mkdir(demo)
        with open(os.path.join(demo, 'demo.py'), 'w') as stream:
            stream.write(PRE + spec['DEMO'])
        with open(os.path.join(demo, 'demo.sh'), 'w') as stream:
            stream.write(HEAD)
        os.chmod(os.path.join(demo, 'demo.sh'), 0o755)
        r = sh(f'bash {demo}/demo.sh', repo)
        if r.returncode != 0:
            print(spec['ID'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:],
                  r.stderr[-1500:])
            return 1
        for name, old, new in spec['EDITS']:
            full = os.path.join(repo, name)
            text = open(full).read()
            if text.count(old) != 1:
                print(spec['ID'], 'edit does not apply', name,
                      text.count(old))
                return 1
            open(full, 'w').write(text.replace(old, new))
        diff = sh('git diff', repo).stdout
        r = sh(f'bash {demo}/demo.sh', repo)
        if r.returncode == 0:
            print(spec['ID'], 'DEMO PASSES WITH THE BUG')
            return 1
        shown = (r.stdout + r.stderr).strip().splitlines()[-1:]
        t = sh('/opt/venv/bin/python -m pytest -q -k "not bench" -p no:cacheprovider -n 4 --processes --n_workers 1 --threads_per_worker 1 '
               'zcollection 2>&1 | tail -5', repo)
        if ' failed' in t.stdout or 'passed' not in t.stdout:
            print(spec['ID'], 'TESTS FAIL', t.stdout[-1500:])
            return 1
        out = os.path.join(VERIF, 'seeded', spec['ID'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        with open(os.path.join(out, 'patch.diff'), 'w') as stream:
            stream.write(diff)
        with open(os.path.join(out, 'meta.json'), 'w') as stream:
            json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
                       'what_it_breaks': spec['BREAKS']}, stream, indent=1)
        print(spec['ID'], 'planted;', shown, t.stdout.strip().splitlines()[-1])
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(max(main(p) for p in sys.argv[1:]))
