"""
Deterministic simulation core.

One run = one JSON *plan* (configuration + operation list + fault list + schedule seed), generated from one integer seed
and executed in a freshly forked process, so that nothing a run did can reach another run.  Running a plan is a pure
function of the plan and of the code in /repo: every random choice is drawn from PRNGs seeded in the plan, every fault is
placed by the plan, and the event log of the run is hashed into a digest that a replay has to reproduce.
"""
import hashlib
import json
import os
import random
import selectors
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NS_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(VERIF, 'known_findings.json')

RUN_TIMEOUT_S = 240.0


def derive(*parts):
    """A 63 bit seed derived from arbitrary parts (independent of PYTHONHASHSEED)."""
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big') >> 1


def rng_of(*parts):
    return random.Random(derive(*parts))


class SimCrash(BaseException):
    """Simulated process crash: not an Exception, so that nothing in the code under test handles it."""


class Inconclusive(Exception):
    """The run left the domain of the property (e.g. the exact solution of the differential equation blows up)."""


class Violation(Exception):
    def __init__(self, kind, msg, **tags):
        super(Violation, self).__init__('{}: {}'.format(kind, msg))
        self.kind = kind
        self.msg = msg
        self.tags = tags


class Trace(object):
    """Event log of one run. Logging never draws random numbers and never reads a clock."""

    def __init__(self):
        self._h = hashlib.sha256()
        self.events = 0
        self.lines = []          # readable prefix (samples, replays)
        self.faults = {}         # fault kind -> number of times it fired
        self.probes = {}         # rare condition -> number of times it was hit
        self.ops = {}            # operation kind -> number of times executed
        self.sim_steps = 0       # right hand side evaluations / syscalls / scheduler steps
        self.sim_time = 0.0      # simulated (integration) time covered
        self.states = set()      # hashes of visited abstract states
        self.checks = 0          # oracle evaluations

    def log(self, *parts):
        line = ' '.join(str(p) for p in parts)
        self._h.update(line.encode())
        self._h.update(b'\n')
        self.events += 1
        if len(self.lines) < 60:
            self.lines.append(line[:200])

    def bytes(self, name, b):
        self.log(name, hashlib.sha256(b).hexdigest()[:16])

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log('FAULT', kind)

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def op(self, kind):
        self.ops[kind] = self.ops.get(kind, 0) + 1

    def state(self, *parts):
        self.states.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:12])

    def digest(self):
        return self._h.hexdigest()[:32]


def tensor_sig(t):
    import torch
    if t is None:
        return 'None'
    t = t.detach().contiguous()
    return '{}{}'.format(tuple(t.shape), hashlib.sha256(t.numpy().tobytes()).hexdigest()[:12])


class World(object):
    """A property's simulation: generator of plans, executor with oracle, and simplifier for minimisation."""
    pid = None
    title = ''
    quick_runs = 200
    thorough_runs = 4000
    rule = ''
    real = []
    stub = []
    assumptions = []
    needs_torch = True

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, plan, tr, scratch):
        """Execute the plan; raise Violation if the property is broken."""
        raise NotImplementedError

    def nontrivial(self, plan, res):
        return len(plan.get('ops', [])) >= 2

    def may_be_slow(self, plan):
        """Is a run of this plan that does not end in time inconclusive (rather than a lack of progress)?"""
        c = plan.get('cfg')
        return isinstance(c, dict) and isinstance(c.get('integrator'), dict) and c['integrator'].get('name') == 'dopri5'

    def fixed_plans(self, tier):
        """Plans that are always executed (regression scenarios, known findings)."""
        return []

    def simplify(self, plan):
        """Yield simpler variants of a plan (after the operation list has been minimised)."""
        return []

    def post(self, results, tier, seed):
        """Optional check across runs; returns list of (plan, Violation)."""
        return []


# ----------------------------------------------------------------------------------------------------------------------
# execution of one plan in a forked child

def _child(world, plan, wfd):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    scratch = tempfile.mkdtemp(prefix='nssim-')
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('NS_SIM_STDERR'):
        os.dup2(devnull, 2)
    tr = Trace()
    res = {'violation': None}
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        random.seed(0)
        if world.needs_torch:
            import numpy as np
            import torch
            import warnings
            warnings.simplefilter('ignore')
            np.random.seed(0)
            torch.manual_seed(0)
            torch.set_num_threads(1)
            torch.set_default_dtype(torch.float64 if plan.get('dtype', 'float64') == 'float64' else torch.float32)
        tr.log('PLAN', derive(json.dumps(plan, sort_keys=True)))
        world.run(plan, tr, scratch)
    except Violation as v:
        res['violation'] = {'kind': v.kind, 'msg': v.msg[:4000], 'tags': v.tags}
    except Inconclusive as e:
        tr.probe('inconclusive-' + str(e))
        tr.log('INCONCLUSIVE', e)
    except (Exception, SimCrash, KeyboardInterrupt) as e:
        if isinstance(e, AssertionError) and 'underflow in dt' in str(e):
            tr.probe('inconclusive-adaptive-step-underflow')
            return _finish(res, tr, cwd, scratch, wfd)
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO + '/')]
        kind = 'unexpected-exception' if where else 'unusable-result'
        loc = ''
        if where:
            loc = ' at {}'.format(os.path.relpath(where[-1].filename, REPO))
        res['violation'] = {'kind': kind, 'msg': '{}: {}{}\n{}'.format(type(e).__name__, e, loc, traceback.format_exc()[-3000:]),
                            'tags': {'exception': type(e).__name__}}
    _finish(res, tr, cwd, scratch, wfd)


def _finish(res, tr, cwd, scratch, wfd):
    if res['violation'] is not None:
        tr.log('VIOLATION', res['violation']['kind'])
    try:
        os.chdir(cwd)
    except OSError:
        os.chdir('/')
    shutil.rmtree(scratch, ignore_errors=True)
    res.update(digest=tr.digest(), events=tr.events, lines=tr.lines, faults=tr.faults, probes=tr.probes, ops=tr.ops,
               sim_steps=tr.sim_steps, sim_time=tr.sim_time, states=sorted(tr.states), checks=tr.checks)
    with os.fdopen(wfd, 'wb') as f:
        f.write(json.dumps(res).encode())
    os._exit(0)


def run_plans(world, plans, workers=None, deadline=None, timeout=RUN_TIMEOUT_S, stop_when=None):
    """
    Execute plans, each in its own forked process. Yields (index, result) in order of completion; the result of a run does
    not depend on that order. stop_when(index,result) may end the batch early.
    """
    workers = workers or max(1, min(8, os.cpu_count() or 1))
    sel = selectors.DefaultSelector()
    live = {}
    nxt = 0
    stopping = False
    out = []
    while live or (nxt < len(plans) and not stopping):
        while not stopping and nxt < len(plans) and len(live) < workers:
            if deadline is not None and time.time() > deadline:
                stopping = True
                break
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    _child(world, plans[nxt], w)
                finally:
                    os._exit(3)
            os.close(w)
            live[r] = [nxt, pid, b'', time.time()]
            sel.register(r, selectors.EVENT_READ)
            nxt += 1
        for key, _ in sel.select(timeout=1.0):
            fd = key.fd
            chunk = os.read(fd, 1 << 20)
            if chunk:
                live[fd][2] += chunk
                continue
            idx, pid, buf, _t = live.pop(fd)
            sel.unregister(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                res = json.loads(buf.decode())
            except ValueError:
                res = _dead('process-died', 'the simulated process died without a result')
            yield idx, res
            if stop_when is not None and stop_when(idx, res):
                stopping = True
        now = time.time()
        for fd in list(live):
            idx, pid, buf, t0 = live[fd]
            if now - t0 > timeout:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                sel.unregister(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                res = _dead('no-progress', 'the run did not finish within {} s'.format(timeout))
                if world.may_be_slow(plans[idx]):
                    res['violation'] = None
                    res['probes'] = {'inconclusive-too-slow': 1}
                yield idx, res
                if stop_when is not None and stop_when(idx, res):
                    stopping = True
    sel.close()


def _dead(kind, msg):
    return {'violation': {'kind': kind, 'msg': msg, 'tags': {}}, 'digest': kind, 'events': 0, 'lines': [], 'faults': {},
            'probes': {}, 'ops': {}, 'sim_steps': 0, 'sim_time': 0.0, 'states': [], 'checks': 0}


def run_one(world, plan):
    return list(run_plans(world, [plan], workers=1))[0][1]


# ----------------------------------------------------------------------------------------------------------------------
# minimisation

def minimise(world, plan, res, budget_s=60.0):
    """Shrink operation list, fault list and arguments while the same violation class persists."""
    kind = res['violation']['kind']
    t_end = time.time() + budget_s
    best, best_res = plan, res
    tried = 0

    def still(p):
        nonlocal tried
        tried += 1
        r = run_one(world, p)
        if r['violation'] is not None and r['violation']['kind'] == kind:
            return r
        return None

    for key in ('ops', 'faults'):
        if not isinstance(best.get(key), list):
            continue
        n = 2
        while len(best[key]) >= 1 and time.time() < t_end:
            items = best[key]
            n = min(n, len(items))
            size = max(1, len(items) // n)
            reduced = False
            for i in range(0, len(items), size):
                if time.time() > t_end:
                    break
                cand = dict(best)
                cand[key] = items[:i] + items[i + size:]
                r = still(cand)
                if r is not None:
                    best, best_res = cand, r
                    n = max(2, n - 1)
                    reduced = True
                    break
            if not reduced:
                if size <= 1:
                    break
                n = min(len(items), n * 2)
    progress = True
    while progress and time.time() < t_end:
        progress = False
        for cand in world.simplify(best):
            if time.time() > t_end:
                break
            if cand == best:
                continue
            r = still(cand)
            if r is not None:
                best, best_res = cand, r
                progress = True
                break
    return best, best_res, tried


# ----------------------------------------------------------------------------------------------------------------------
# known findings

def load_known(pid):
    try:
        with open(KNOWN) as f:
            entries = json.load(f)['entries']
    except (OSError, ValueError, KeyError):
        return []
    return [e for e in entries if e.get('property') == pid and e.get('status') == 'finding']


def match_known(known, violation):
    for e in known:
        m = e['match']
        if m.get('kind') != violation['kind']:
            continue
        if all(violation.get('tags', {}).get(k) == v for k, v in m.get('tags', {}).items()) and \
                m.get('msg_contains', '') in violation['msg']:
            return e
    return None


# ----------------------------------------------------------------------------------------------------------------------
# the check

def plan_for(world, seed, i, tier):
    rng = rng_of(seed, world.pid, i)
    plan = world.gen(rng, tier)
    plan['seed'] = seed
    plan['index'] = i
    return plan


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, path)


def check(world, tier, seed, runs=None, workers=None, max_wall=None):
    t0 = time.time()
    if max_wall is None:
        max_wall = 600.0 if tier == 'quick' else 6 * 3600.0
    deadline = t0 + max_wall
    runs = runs or (world.quick_runs if tier == 'quick' else world.thorough_runs)
    fixed = world.fixed_plans(tier)
    for k, p in enumerate(fixed):
        p['seed'] = seed
        p['index'] = 'fixed{}'.format(k)
    plans = fixed + [plan_for(world, seed, i, tier) for i in range(runs)]
    known = load_known(world.pid)
    hit_known = {}
    bad = []

    def stop(idx, res):
        v = res['violation']
        return v is not None and match_known(known, v) is None

    results = {}
    for idx, res in run_plans(world, plans, workers=workers, deadline=deadline, stop_when=stop):
        results[idx] = res
        v = res['violation']
        if v is not None:
            e = match_known(known, v)
            if e is not None:
                hit_known.setdefault(e['id'], e)
            else:
                bad.append(idx)
    main_wall = time.time() - t0

    # determinism self check: re-execute a sample with another worker count and compare the event log digests
    nondet = 0
    sample = sorted(results)[:: max(1, len(results) // 12)][:12]
    if not bad:
        re = dict(run_plans(world, [plans[i] for i in sample], workers=3))
        nondet = sum(1 for k, i in enumerate(sample) if re.get(k, {}).get('digest') != results[i]['digest'])

    violation_lines = []
    if not bad:
        for plan, v in world.post([(plans[i], results[i]) for i in sorted(results)], tier, seed):
            vd = {'kind': v.kind, 'msg': v.msg, 'tags': v.tags}
            e = match_known(known, vd)
            if e is not None:
                hit_known.setdefault(e['id'], e)
                continue
            path = os.path.join(REPLAYS, '{}-{}-post.json'.format(world.pid, seed))
            write_json(path, {'property': world.pid, 'plan': plan, 'violation': vd, 'digest': None, 'post': True})
            violation_lines.append((path, vd))
            break

    if bad:
        idx = min(bad)
        res = results[idx]
        budget = min(90.0, max(5.0, 800.0 - (time.time() - t0))) if tier == 'quick' else 600.0
        mplan, mres, tried = minimise(world, plans[idx], res, budget_s=budget)
        path = os.path.join(REPLAYS, '{}-{}-{}.json'.format(world.pid, seed, plans[idx]['index']))
        write_json(path, {'property': world.pid, 'plan': mplan, 'violation': mres['violation'], 'digest': mres['digest'],
                          'trace': mres['lines'], 'original_plan': plans[idx], 'minimisation_runs': tried})
        violation_lines.append((path, mres['violation']))

    wall = time.time() - t0
    agg_f, agg_p, agg_o = {}, {}, {}
    states = set()
    digests = set()
    for i, r in results.items():
        for agg, key in ((agg_f, 'faults'), (agg_p, 'probes'), (agg_o, 'ops')):
            for k, v in r[key].items():
                agg[k] = agg.get(k, 0) + v
        states.update(r['states'])
        if world.nontrivial(plans[i], r):
            digests.add(r['digest'])
    done = sorted(results)
    samples = [{'index': plans[i]['index'], 'plan': plans[i], 'trace': results[i]['lines'][:15], 'digest': results[i]['digest']}
               for i in (done[len(fixed):len(fixed) + 1] + done[-1:])]
    ev = {
        'property': world.pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 3),
        'violations': len(violation_lines),
        'assumptions': list(world.assumptions),
        'coverage': {
            'evaluations': len(results), 'distinct_nontrivial': len(digests), 'rule': world.rule, 'samples': samples,
            'runs_requested': len(plans), 'fixed_scenarios': len(fixed),
            'seeds_per_hour': int(len(results) / max(1e-6, main_wall) * 3600),
            'simulated_time': round(sum(r['sim_time'] for r in results.values()), 3),
            'simulated_steps': sum(r['sim_steps'] for r in results.values()),
            'oracle_checks': sum(r['checks'] for r in results.values()),
            'events_logged': sum(r['events'] for r in results.values()),
            'operations': agg_o, 'faults_fired': agg_f, 'probes': agg_p,
            'distinct_abstract_states': len(states),
            'determinism_reruns': len(sample) if not bad else 0, 'determinism_mismatches': nondet,
            'components_real': world.real, 'components_stubbed': world.stub,
            'known_findings_reproduced': sorted(hit_known),
        },
    }
    write_json(os.path.join(EVIDENCE, '{}.json'.format(world.pid)), ev)
    for e in sorted(hit_known.values(), key=lambda x: x['id']):
        print('KNOWN-FINDING: property={} {}'.format(world.pid, e['what']))
    for path, v in violation_lines:
        print('  kind: {}'.format(v['kind']))
        print('  ' + v['msg'].replace('\n', '\n  '))
        print('VIOLATION property={} replay={}'.format(world.pid, path))
    print('{} {} seed={} runs={} distinct={} faults={} wall={:.1f}s{}'.format(
        world.pid, tier, seed, len(results), len(digests), sum(agg_f.values()), wall,
        ' NONDETERMINISTIC={}'.format(nondet) if nondet else ''))
    return 1 if violation_lines else 0


def replay(world, path):
    with open(path) as f:
        d = json.load(f)
    if d.get('post'):
        found = world.post_replay(d['plan']) if hasattr(world, 'post_replay') else None
        if found is not None:
            print('  kind: {}\n  {}'.format(found.kind, found.msg))
            print('VIOLATION property={} replay={}'.format(world.pid, path))
            return 1
        print('no violation on replay')
        return 0
    res = run_one(world, d['plan'])
    v = res['violation']
    print('digest {} ({})'.format(res['digest'], 'identical to the recorded one' if res['digest'] == d['digest'] else 'DIFFERS from {}'.format(d['digest'])))
    if v is None:
        print('no violation on replay')
        return 0
    print('  kind: {}\n  {}'.format(v['kind'], v['msg']))
    print('VIOLATION property={} replay={}'.format(world.pid, path))
    return 1
