"""Runs the harnesses of a property and writes its evidence."""
from __future__ import annotations

import dataclasses
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pickle
import random
import subprocess
import sys
import time
import traceback
import warnings
from typing import Any, Callable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
#: seconds given to the symbolic executions of a whole check
BUDGET = {'quick': 520.0, 'thorough': 2700.0}


@dataclasses.dataclass
class Harness:
    name: str
    func: Callable
    #: structural configurations explored by both tiers / thorough only
    quick: list = dataclasses.field(default_factory=lambda: [{}])
    thorough: list | None = None
    #: the concrete replay needs a dask client
    client: bool = False
    max_seconds: float = 240.0
    thorough_seconds: float = 1500.0
    max_paths: int = 200000
    #: number of explored paths re-executed on the real software per job
    samples: int = 2
    bounds: str = ''


def harnesses(prop):
    return importlib.import_module(f'props.{prop}').HARNESSES


def meta(prop):
    return importlib.import_module(f'props.{prop}')


# -- symbolic side ---------------------------------------------------------------
def _quiet():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    os.environ['PYTHONWARNINGS'] = 'ignore'


def run_job(args):
    prop, hname, config, seconds, seed, deadline = args
    seconds = max(1.0, min(seconds, deadline - time.time()))
    _quiet()
    from . import core, world
    from .harness import SymH
    world.install()
    world.SEEN.clear()
    world.start_coverage()
    harness = next(x for x in harnesses(prop) if x.name == hname)
    errors = []
    reasons = {}

    def run(path):
        h = SymH(path, config)
        world.FakeClient.run_now = None
        world.FakeClient.order = world.FakeClient.late = None
        world.FakeClient.submitted, world.FakeFuture.depth = [], 0
        world.FakeFuture.on_run = None
        world.FakeClient.workers = 2
        world.FORK_EMPTY = bool(config.get('empty', False))
        try:
            harness.func(h)
            return h.reached
        except core.Steering:
            raise
        except Exception as exc:  # escaped from the code under test
            tb = traceback.format_exc()
            key = f'{type(exc).__name__}: {exc}'[:200]
            if len(errors) < 5:
                errors.append(tb)
            raise core.CounterExample(f'unexpected exception {key}',
                                      path.input_values()) from None
        finally:
            h.cleanup()

    res = core.explore(run, max_paths=harness.max_paths, max_seconds=seconds,
                       keep_samples=harness.samples, seed=seed)
    extra_ok = []
    for model, extra in res.samples:
        extra.pop('_canon', None)
        extra_ok.append((model, extra))
    viol = []
    for message, model, extra, inexact in res.violations:
        extra.pop('_canon', None)
        viol.append((message, model, extra))
    return {
        'harness': hname, 'config': config, 'paths': res.paths,
        'infeasible': res.infeasible, 'aborted': res.aborted[:5],
        'n_aborted': len(res.aborted), 'violations': viol,
        'complete': res.complete, 'samples': extra_ok,
        'notes': sorted(res.notes)[:20], 'reached': res.reached,
        'decisions': res.decisions, 'queries': res.stats.queries,
        'solver_s': res.stats.solver_s, 'asserts': res.stats.asserts,
        'asserts_solver': res.stats.asserts_solver, 'wall': res.wall,
        'functions': sorted(world.SEEN), 'errors': errors,
        'unknown': res.stats.unknown,
    }


# -- concrete side ---------------------------------------------------------------
def concrete_main(stream_in, stream_out):
    """Re-execute harnesses on the real software."""
    _quiet()
    from .harness import ConcH, Skip, Violation
    client = None
    jobs = pickle.load(stream_in)
    results = []
    for n, (prop, hname, config, inputs, extra) in enumerate(jobs):
        harness = next(x for x in harnesses(prop) if x.name == hname)
        if harness.client and client is None:
            import dask.distributed
            client = dask.distributed.Client(
                processes=False, n_workers=1, threads_per_worker=1,
                dashboard_address=None)
        h = ConcH(inputs, config, extra)
        try:
            harness.func(h)
            results.append(('ok' if h.reached else 'ok-unreached', ''))
        except Skip as exc:
            results.append(('skip', str(exc)))
        except Violation as exc:
            results.append(('violation', str(exc)))
        except Exception as exc:  # noqa: BLE001
            results.append(('exception', f'{type(exc).__name__}: {exc}\n' +
                            traceback.format_exc()[-1500:]))
        finally:
            h.cleanup()
        print(json.dumps(results[-1]), file=stream_out, flush=True)
    if client is not None:
        os._exit(0)


def concrete(jobs, nproc=6, timeout=240):
    """Results of the concrete re-executions, in order."""
    if not jobs:
        return []
    nproc = max(1, min(nproc, (len(jobs) + 1) // 2))
    chunks = [list(range(i, len(jobs), nproc)) for i in range(nproc)]
    procs = []
    for idx in chunks:
        env = dict(os.environ, PYTHONPATH=VERIF, PYTHONWARNINGS='ignore',
                   PYTHONHASHSEED='0')
        p = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, 'check.py'), '--concrete'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env)
        procs.append((idx, p))
    results = [('timeout', '')] * len(jobs)
    for idx, p in procs:
        try:
            p.stdin.write(pickle.dumps([jobs[i] for i in idx]))
            p.stdin.close()
        except BrokenPipeError:
            pass
    deadline = time.time() + timeout
    import threading

    def reader(idx, p):
        for i, line in zip(idx, p.stdout):
            try:
                results[i] = tuple(json.loads(line))
            except ValueError:
                results[i] = ('garbled', line.decode(errors='replace')[:200])
    threads = [threading.Thread(target=reader, args=a, daemon=True)
               for a in procs]
    for t in threads:
        t.start()
    for t in threads:
        t.join(max(0.1, deadline - time.time()))
    for _, p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    return results


# -- known findings ---------------------------------------------------------------
def known_findings(prop):
    """Signatures listed in known_findings.json for a property."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as stream:
        data = json.load(stream)
    return [f for f in data.get('findings', []) if f['property'] == prop]


def match_finding(findings, harness, config, message):
    for f in findings:
        if f['harness'] == harness and f['message'] in message and all(
                config.get(k) == v for k, v in f.get('config', {}).items()):
            return f
    return None


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def quiet_ok(row):
    return (row['complete'] and not row['violations'] and not row['aborted']
            and not row['notes'] and row['reached'])


# -- driver ---------------------------------------------------------------------
def check(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    mod = meta(prop)
    jobs = []
    by_name = {}
    for h in mod.HARNESSES:
        if only and h.name != only:
            continue
        by_name[h.name] = h
        configs = h.quick if tier == 'quick' or h.thorough is None else (
            h.quick + h.thorough)
        seconds = h.max_seconds if tier == 'quick' else h.thorough_seconds
        for c in configs:
            jobs.append((prop, h.name, c, seconds, seed, t0 + BUDGET[tier]))
    os.makedirs(EVIDENCE, exist_ok=True)
    ctx = multiprocessing.get_context('fork')
    nproc = min(8, len(jobs)) or 1
    rows = []
    # imports shared by the forked workers
    from . import world  # noqa: F401
    import zcollection  # noqa: F401
    pool_jobs = list(jobs)
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        for row in pool.imap_unordered(run_job, pool_jobs):
            rows.append(row)
            if verbose and not (quiet_ok(row) and '-vv' not in sys.argv):
                print(f"  {row['harness']} {row['config']} paths={row['paths']}"
                      f" reached={row['reached']} q={row['queries']}"
                      f" solver={row['solver_s']:.1f}s wall={row['wall']:.1f}s"
                      f" complete={row['complete']}"
                      f" viol={[v[0] for v in row['violations']]}"
                      f" aborted={row['aborted'][:1]} notes={row['notes'][:3]}",
                      flush=True)
                for e in row['errors'][:1]:
                    print(e)
    rows.sort(key=lambda r: (r['harness'], json.dumps(r['config'],
                                                      default=repr)))

    # counterexamples are replayed on the real software
    candidates = []
    for row in rows:
        for message, model, extra in row['violations']:
            candidates.append((row['harness'], row['config'], message, model,
                               extra))
    samples = []
    for row in rows:
        for model, extra in row['samples']:
            samples.append((row['harness'], row['config'], model, extra))
    rng = random.Random(seed)
    limit = 48 if tier == 'quick' else 160
    if len(samples) > limit:
        samples = rng.sample(samples, limit)
    batch = [(prop, a, b, d, e) for a, b, _, d, e in candidates] + [
        (prop, a, b, d, e) for a, b, d, e in samples]
    outcome = concrete(batch, timeout=300 if tier == 'quick' else 900)
    findings = known_findings(prop)
    violations, known, spurious, unreplayed = [], {}, [], []
    for (hname, config, message, model, extra), (status, text) in zip(
            candidates, outcome):
        if status in ('violation', 'exception'):
            shown = text.splitlines()[0] if text else message
            f = match_finding(findings, hname, config,
                              shown) or match_finding(findings, hname, config,
                                                      message)
            if f is not None:
                known[f['id']] = f
                continue
            violations.append((hname, config, shown, model, extra, text))
        elif status == 'timeout':
            unreplayed.append((hname, config, message, model))
        else:
            spurious.append((hname, config, message, jsonable(model), status))
    validated = 0
    for (hname, config, model, extra), (status, text) in zip(
            samples, outcome[len(candidates):]):
        if status.startswith('ok'):
            validated += 1
        elif status in ('violation', 'exception'):
            shown = text.splitlines()[0] if text else ''
            f = match_finding(findings, hname, config, shown)
            if f is not None:
                known[f['id']] = f
                continue
            violations.append((hname, config, shown, model, extra, text))

    reached = sum(r['reached'] for r in rows)
    incomplete = [f"{r['harness']} {r['config']}" for r in rows
                  if not r['complete'] and not r['violations']]
    functions = sorted({f for r in rows for f in r['functions']})
    level = getattr(mod, 'LEVEL', 'other')
    n_paths = sum(r['paths'] for r in rows)
    queries = sum(r['queries'] for r in rows)
    solver_s = sum(r['solver_s'] for r in rows)
    coverage = {
        'explanation':
        'Path-exhaustive symbolic execution of the real zcollection functions '
        'listed under functions_encoded, by CPython on z3 terms; every '
        'feasible path within the bounds was explored and each assertion was '
        'discharged by the solver for all the values of that path, unless '
        'listed under incomplete.',
        'functions_encoded': functions,
        'bounds': {h.name: h.bounds for h in by_name.values()},
        'outside_bounds': getattr(mod, 'OUTSIDE', ''),
        'jobs': len(rows),
        'paths': n_paths,
        'paths_reaching_assertions': reached,
        'decisions': sum(r['decisions'] for r in rows),
        'queries': queries,
        'assertions': sum(r['asserts'] for r in rows),
        'assertions_needing_solver': sum(r['asserts_solver'] for r in rows),
        'solver_s': round(solver_s, 3),
        'solver_unknown': sum(r['unknown'] for r in rows),
        'incomplete': incomplete,
        'fallbacks': sorted({n for r in rows for n in r['notes']}),
        'counterexamples_not_reproduced': [
            [jsonable(x) for x in s] for s in spurious[:10]],
        'counterexamples_not_replayed': len(unreplayed),
        'traces_validated_against_impl': validated,
        'sampled_paths': len(samples),
        'samples': [{'harness': a, 'config': jsonable(b),
                     'inputs': jsonable(d)} for a, b, d, _ in samples[:3]],
        'per_job': [{
            'harness': r['harness'], 'config': jsonable(r['config']),
            'paths': r['paths'], 'queries': r['queries'],
            'complete': r['complete'], 'wall_s': round(r['wall'], 2),
            'solver_s': round(r['solver_s'], 3),
        } for r in rows],
    }
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': coverage, 'wall_s': round(time.time() - t0, 2),
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
        'violations': [],
    }
    printed = set()
    lines = []
    for hname, config, shown, model, extra, text in violations:
        key = (hname, shown)
        if key in printed:
            continue
        printed.add(key)
        digest = hashlib.sha256(repr((hname, config, sorted(
            model.items()))).encode()).hexdigest()[:10]
        path = os.path.join(EVIDENCE, f'replay-{prop}-{digest}.json')
        with open(path, 'w') as stream:
            json.dump({'property': prop, 'harness': hname, 'config': config,
                       'inputs': model, 'extra': extra, 'message': shown,
                       'detail': text}, stream, indent=1, default=repr)
        with open(path + '.pkl', 'wb') as stream:
            pickle.dump((prop, hname, config, model, extra), stream)
        evidence['violations'].append({
            'what': shown[:500], 'harness': hname, 'config': jsonable(config),
            'input': jsonable(model), 'replay': path})
        lines.append(f'VIOLATION property={prop} replay={path}')
        lines.append(f'  {hname} {config}: {shown[:300]}')
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as stream:
        json.dump(evidence, stream, indent=1, default=repr)
    for f in known.values():
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    for line in lines:
        print(line)
    if spurious:
        print(f'note: {len(spurious)} solver counterexample(s) did not '
              'reproduce on the real code (not reported)')
        if verbose:
            for s in spurious[:5]:
                print('   ', s)
    print(f'{prop} {tier}: paths={n_paths} reached={reached} '
          f'queries={queries} solver={solver_s:.1f}s '
          f'validated={validated}/{len(samples)} '
          f'incomplete={len(incomplete)} wall={time.time() - t0:.1f}s')
    if violations:
        return 1
    if unreplayed:
        print('error: counterexamples could not be replayed in time')
        return 3
    if reached == 0:
        print('error: vacuous check (no path reached its assertions)')
        return 2
    return 0


COMMON = [
    'z3 is trusted; Python integers are mathematical, machine integers are '
    'kept inside their declared bounds',
    'dask.distributed is replaced by a synchronous client in symbolic mode; '
    'counterexamples and sampled paths are re-executed with the real '
    'distributed client, zarr and numpy',
    'zarr stores symbolic cells as opaque 64 bit handles (codecs are assumed '
    'lossless)',
    'float64 payloads range over integral values',
]


def main(argv):
    if '--concrete' in argv:
        sys.path.insert(0, VERIF)
        concrete_main(sys.stdin.buffer, sys.stdout)
        return 0
    if '--selftest' in argv:
        from .z3imp import z3
        solver = z3.Solver()
        solver.add(z3.Int('x') > 0, z3.Int('x') < 2)
        assert solver.check() == z3.sat
        import zcollection
        print('zcollection', zcollection.__file__, 'z3',
              z3.get_version_string())
        return 0
    if '--replay' in argv:
        path = argv[argv.index('--replay') + 1]
        with open(path + '.pkl', 'rb') as stream:
            job = pickle.load(stream)
        status, text = concrete([job])[0]
        print(status, text)
        return 0 if status.startswith('ok') else 1
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check(prop, tier, seed, only, '-v' in argv or '-vv' in argv)
