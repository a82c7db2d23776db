"""Mutation campaign (not a check; used to find what the checks miss).

    mutate.py gen N SEED OUT.jsonl       draws N mutants of /repo
    mutate.py tests OUT.jsonl            runs the tests on each of them
    mutate.py checks OUT.jsonl           runs the related checks on the survivors

State is kept in OUT.jsonl (one object per mutant).  Everything runs in scratch
copies of /repo under /tmp.
"""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
ROOT = f'{REPO}/zcollection'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*'}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    start = [0]
    for line in lines:
        start.append(start[-1] + len(line.encode()))
    raw = src.encode()

    def span(node):
        return (start[node.lineno - 1] + node.col_offset,
                start[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        a, b = span(node)
        return raw[a:b].decode()

    out = []

    def add(node, new, kind, func):
        a, b = span(node)
        out.append(dict(file=os.path.relpath(path, REPO), a=a, b=b,
                        old=raw[a:b].decode(), new=new, kind=kind, func=func,
                        line=node.lineno))

    def visit(node, func, cls):
        if isinstance(node, ast.ClassDef):
            for c in node.body:
                visit(c, func, cls + node.name + '.')
            return
        if isinstance(node, (ast.FunctionDef, )):
            name = (func + '.<locals>.' if func else cls) + node.name
            for d in node.args.defaults + node.args.kw_defaults:
                if d is not None:
                    inner(d, name, cls)
            for c in node.body:
                visit(c, name, cls)
            return
        if not func:
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.stmt, )):
                    visit(c, func, cls)
            return
        inner(node, func, cls)

    def inner(node, func, cls):
        if isinstance(node, ast.FunctionDef):
            visit(node, func, cls)
            return
        if isinstance(node, ast.Raise):
            return
        if isinstance(node, ast.Expr):
            if isinstance(node.value, ast.Constant):
                return
            if isinstance(node.value, ast.Call):
                if text(node.value.func).startswith('_LOGGER'):
                    return
                add(node, 'pass', 'drop-call', func)
        if isinstance(node, ast.AugAssign):
            add(node, 'pass', 'drop-aug', func)
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                inner(node.value, func, cls)
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = CMP.get(type(node.ops[0]))
            if op:
                add(node, f'{text(node.left)} {op} '
                    f'{text(node.comparators[0])}', 'cmp', func)
        if isinstance(node, ast.BoolOp):
            op = ' or ' if isinstance(node.op, ast.And) else ' and '
            add(node, '(' + op.join(f'({text(v)})' for v in node.values) +
                ')', 'boolop', func)
            for i in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != i]
                o = ' and ' if isinstance(node.op, ast.And) else ' or '
                add(node, '(' + o.join(f'({text(v)})' for v in rest) + ')',
                    'drop-operand', func)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(node, f'({text(node.operand)})', 'not', func)
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            add(node, f'({text(node.left)} {BIN[type(node.op)]} '
                f'{text(node.right)})', 'binop', func)
        if isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                add(node, str(not node.value), 'bool', func)
            elif isinstance(node.value, int):
                add(node, str(node.value + 1), 'int', func)
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(node, ast.While):
                add(node.test, 'True', 'cond-true', func)
            add(node.test, 'False', 'cond-false', func)
        if isinstance(node, ast.Call):
            for kw in node.keywords:
                if kw.arg is None:
                    continue
                a, b = span(kw)
                while raw[b:b + 1] in b' \n' and raw[b:b + 1]:
                    b += 1
                if raw[b:b + 1] == b',':
                    out.append(dict(file=os.path.relpath(path, REPO), a=a,
                                    b=b + 1, old=raw[a:b + 1].decode(), new='',
                                    kind='drop-kw', func=func,
                                    line=kw.lineno))
                else:
                    add(kw, '', 'drop-kw', func)
        if isinstance(node, ast.Return) and isinstance(
                node.value, ast.IfExp):
            pass
        if isinstance(node, ast.Call) and text(node.func) in ('sorted',
                                                              'set', 'tuple'):
            if text(node.func) == 'sorted' and node.args:
                add(node, f'list({text(node.args[0])})', 'sorted', func)
        if isinstance(node, ast.ListComp) or isinstance(
                node, ast.GeneratorExp):
            for g in node.generators:
                for i in g.ifs:
                    add(i, 'True', 'filter', func)
        if isinstance(node, ast.Break):
            add(node, 'pass', 'break', func)
        if isinstance(node, ast.Continue):
            add(node, 'pass', 'continue', func)
        for field, value in ast.iter_fields(node):
            if field in ('annotation', 'returns'):
                continue
            for c in value if isinstance(value, list) else [value]:
                if isinstance(c, ast.AST):
                    inner(c, func, cls)

    visit(ast.parse(src), '', '')
    return out


def functions():
    res = {}
    for f in sorted(glob.glob(f'{VERIF}/evidence/C*.json')):
        cid = os.path.basename(f)[:-5]

        def walk(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k == 'functions_encoded' and isinstance(v, list):
                        for n in v:
                            res.setdefault(n, set()).add(cid)
                    walk(v)
            elif isinstance(x, list):
                for i in x:
                    walk(i)
        walk(json.load(open(f)))
    return res


def cost(cid):
    return json.load(open(f'{VERIF}/evidence/{cid}.json'))['wall_s']


def copy(dst, m):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.check_call(['cp', '-a', REPO, dst])
    p = os.path.join(dst, m['file'])
    raw = open(p, 'rb').read()
    assert raw[m['a']:m['b']].decode() == m['old']
    new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
    try:
        compile(new, p, 'exec')
    except SyntaxError:
        return False
    open(p, 'wb').write(new)
    return True


def load(p):
    return [json.loads(x) for x in open(p)]


def save(p, ms):
    with open(p + '.tmp', 'w') as fh:
        for m in ms:
            fh.write(json.dumps(m) + '\n')
    os.replace(p + '.tmp', p)


def main():
    cmd = sys.argv[1]
    if cmd == 'gen':
        n, seed, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        every = []
        skip = ('version.py', 'representation.py', 'type_hints.py')
        for dp, _, fn in os.walk(ROOT):
            if 'tests' in dp:
                continue
            for f in sorted(fn):
                if f.endswith('.py') and f not in skip:
                    every += mutants(os.path.join(dp, f))
        print(len(every), 'candidates')
        random.Random(seed).shuffle(every)
        save(out, every[:n])
    elif cmd == 'tests':
        path, k, of = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
        ms = load(path)[k::of]
        mine = f'{path}.t{k}'
        if os.path.exists(mine):
            ms = load(mine)
        dst = f'/tmp/mut{k}'
        for m in ms:
            if 'tests' in m:
                continue
            if not copy(dst, m):
                m['tests'] = 'syntax'
                save(mine, ms)
                continue
            env = dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
                       PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
                       AWS_EC2_METADATA_DISABLED='true')
            try:
                r = subprocess.run(
                    ['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q',
                     '-p', 'no:cacheprovider', '-n', '2', '--timeout=120',
                     f'--basetemp={dst}.tmp', '--processes', '--n_workers',
                     '1', '--threads_per_worker', '1'], cwd=dst, env=env,
                    stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, timeout=400)
                m['tests'] = 'pass' if r.returncode == 0 else 'fail'
            except subprocess.TimeoutExpired:
                m['tests'] = 'fail'
            save(mine, ms)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.rmtree(f'{dst}.tmp', ignore_errors=True)
    elif cmd == 'checks':
        path = sys.argv[2]
        ms = []
        for f in sorted(glob.glob(path + '.t*')):
            ms += [m for m in load(f) if m.get('tests') == 'pass']
        done = {}
        if os.path.exists(path + '.res'):
            done = {(m['file'], m['a'], m['new']): m for m in load(
                path + '.res')}
        fn = functions()
        res = list(done.values())
        for m in ms:
            if (m['file'], m['a'], m['new']) in done:
                continue
            name = f"{m['file']}:{m['func']}"
            ids = sorted(fn.get(name, ()), key=cost)
            m['checks'] = {}
            if copy('/tmp/mutc', m):
                for cid in ids:
                    r = subprocess.run(
                        ['/opt/venv/bin/python', 'check.py', cid, '--tier',
                         'quick'], cwd=VERIF, capture_output=True, text=True,
                        env=dict(os.environ, SYMX_REPO='/tmp/mutc'))
                    m['checks'][cid] = r.returncode
                    if r.returncode == 1:
                        break
            res.append(m)
            save(path + '.res', res)
            print('CAUGHT' if 1 in m['checks'].values() else 'MISSED',
                  m['file'], m['line'], m['func'], m['kind'],
                  repr(m['old'][:60]), '->', repr(m['new'][:60]),
                  m['checks'], flush=True)
        shutil.rmtree('/tmp/mutc', ignore_errors=True)


main()
