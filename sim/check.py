#!/usr/bin/env python3
"""
check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
check.py replay <FILE>
check.py digests <PROPERTY> [--seed N] [--runs N]     (prints one event-log digest per run, for determinism tests)
"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'CUDA_VISIBLE_DEVICES': '', 'LANG': 'C.UTF-8', 'TZ': 'UTC'}


def reexec():
    repo = os.environ.get('NS_REPO', '/repo')
    if os.environ.get('NS_SIM_CHILD') == '1':
        return
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(ENV)
    env['PYTHONPATH'] = repo
    env['PYTHONHASHSEED'] = os.environ.get('NS_HASHSEED', '0')
    env['MPLCONFIGDIR'] = os.path.join(os.environ.get('TMPDIR', '/tmp'), 'nssim-mpl-{}'.format(os.getuid()))
    env['NS_SIM_CHILD'] = '1'
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


def load(pid):
    """The world of a property; a failure to import the code under test is a violation of every property."""
    import traceback
    from sim import core, registry
    try:
        return registry.get(pid)
    except Exception as e:
        repo = core.REPO + '/'
        if not any(f.filename.startswith(repo) for f in traceback.extract_tb(e.__traceback__)):
            raise
        msg = 'the package cannot be imported: {!r}\n{}'.format(e, traceback.format_exc()[-2000:])
        path = os.path.join(core.REPLAYS, '{}-import.json'.format(pid))
        core.write_json(path, {'property': pid, 'import': True, 'violation': {'kind': 'import-fails', 'msg': msg}})
        core.write_json(os.path.join(core.EVIDENCE, pid + '.json'), {
            'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'exploration', 'wall_s': 0.0, 'violations': 1, 'assumptions': [],
            'coverage': {'evaluations': 1, 'distinct_nontrivial': 0, 'rule': 'the package could not be imported', 'samples': [msg]}})
        print(msg)
        print('VIOLATION property={} replay={}'.format(pid, path))
        sys.exit(1)


def main():
    reexec()
    sys.path.insert(0, os.path.dirname(HERE))
    from sim import core
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('file', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int, default=None)
    ap.add_argument('--workers', type=int, default=None)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.what == 'setup':       # nothing to build: the checks import /repo's working tree; verify that the interpreter is usable
        import torch, torchdiffeq, sortedcontainers
        print('torch {} torchdiffeq {}'.format(torch.__version__, torchdiffeq.__version__))
        return 0
    if a.what == 'replay':
        import json
        with open(a.file) as f:
            d = json.load(f)
        pid = d['property']
        if d.get('import'):
            load(pid)
            print('no violation on replay')
            return 0
        return core.replay(load(pid), a.file)
    if a.what == 'digests':
        w = load(a.file)
        n = a.runs or 40
        plans = [core.plan_for(w, a.seed, i, a.tier) for i in range(n)]
        res = dict(core.run_plans(w, plans, workers=a.workers))
        for i in range(n):
            v = res[i]['violation']
            print(a.file, a.seed, i, res[i]['digest'], v['kind'] if v else 'ok')
        return 0
    if a.what == 'plans':       # digests of the plans on standard input (used to compare interpreters)
        import json
        w = load(a.file)
        plans = json.load(sys.stdin)
        res = dict(core.run_plans(w, plans, workers=a.workers))
        print(json.dumps([res[i]['digest'] for i in range(len(plans))]))
        return 0
    return core.check(load(a.what), a.tier, a.seed, runs=a.runs, workers=a.workers)


if __name__ == '__main__':
    sys.exit(main())
