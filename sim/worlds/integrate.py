"""C06: checkpointed and adjoint integration return what plain integration returns: all requested times, same values, same gradients."""
import torch
import torch.nn as nn
from torchdiffeq import odeint

from sim import nsmodel as nm
from sim.core import World, Violation, tensor_sig
from sim.worlds.block import EXC


class Field(nn.Module):
    """A tame, time-dependent vector field with parameters; logs evaluations and injects faults."""

    def __init__(self, c, tr):
        super(Field, self).__init__()
        g = torch.Generator().manual_seed(c['seed'])
        self.c = c
        self.A = nn.Parameter(0.6 * torch.randn(c['dim'], c['dim'], generator=g))
        self.b = nn.Parameter(0.5 * torch.randn(c['dim'], generator=g))
        self.tr = tr
        self.fault = None
        self.fired = False
        self.lo, self.hi = 1e9, -1e9
        self.count = 0

    def optimise(self, wrt):
        self.A.requires_grad_(wrt in ('all', 'parameters'))
        self.b.requires_grad_(wrt in ('all', 'parameters', 'b'))

    def forward(self, t, x):
        self.tr.sim_steps += 1
        tt = float(t.detach())
        self.tr.log('eval', '{:.6f}'.format(tt))
        self.lo, self.hi = min(self.lo, tt), max(self.hi, tt)
        if self.fault is not None and self.count == self.fault[0]:
            self.fired = True
            exc = self.fault[1]
            self.fault = None
            raise EXC[exc]('injected')
        self.count += 1
        return torch.tanh(x @ self.A.t()) + self.b * torch.sin(3.0 * t)


GRID = 0.25


def gen_t(rng, aligned):
    n = rng.choice([2, 2, 3, 4, 6])
    if aligned:
        ks = sorted(rng.sample(range(0, 13), n))
        t = [GRID * k for k in ks]
    else:
        t = sorted(round(3 * rng.random(), 3) for _ in range(n))
        t = [v + 0.01 * i for i, v in enumerate(t)]
    if rng.random() < 0.3:
        t = t[::-1]
    if rng.random() < 0.6:
        t = [v - t[0] for v in t]
    return t


def gen_strategy(rng, aligned, t):
    r = rng.random()
    span = abs(t[-1] - t[0])
    if r < 0.15:
        return {'strategy': 'adjoint'}
    if r < 0.25:
        return {'strategy': 'direct'}
    if r < 0.6:
        if aligned:
            cells = round(span / GRID)
            nrs = [k - 1 for k in range(1, cells + 1) if cells % k == 0]
            return {'strategy': 'checkpoint', 'nr': rng.choice(nrs)}
        return {'strategy': 'checkpoint', 'nr': rng.choice([0, 1, 2, 3, 5, 9])}
    if aligned:
        return {'strategy': 'interval', 'every': GRID * rng.choice([1, 1, 2, 3, 5, 40])}
    return {'strategy': 'interval', 'every': rng.choice([0.07, 0.1, 0.25, 0.3, 0.5, 1.0, 7.0])}


class CheckpointedIntegrationWorld(World):
    pid = 'C06'
    quick_runs = 700
    thorough_runs = 20000
    real = ['generic integrator', 'torch checkpointing', 'torchdiffeq solvers', 'torch autograd']
    stub = ['right hand side (smooth time-dependent vector field that logs and injects faults)']
    assumptions = ['the requested times are strictly monotone', 'torchdiffeq is trusted',
                   'where the checkpoints do not lie on the step grid only agreement within the discretisation error is required']
    rule = ('2-5 integrations of up to three different right hand sides by one integrator over seeded time vectors (increasing, decreasing, starting anywhere, on or off the step '
            'grid) with checkpoints by number or interval or with the adjoint method; backward passes are deferred and run in seeded '
            'order, evaluations fail at seeded points in forward or backward passes and are retried; values and gradients are compared '
            'with plain integration; non-trivial: checkpoints or adjoint used with at least one backward pass')

    def gen(self, rng, tier):
        aligned = rng.random() < 0.6
        name = rng.choice(['rk4', 'rk4', 'midpoint', 'euler', 'dopri5']) if aligned else rng.choice(['rk4', 'dopri5'])
        c = {'name': name, 'aligned': aligned,
             'fields': [{'dim': rng.choice([1, 2, 3]), 'seed': rng.randrange(10 ** 6)} for _ in range(rng.choice([1, 2, 3]))]}
        ops = []
        t_first = gen_t(rng, aligned)
        strat = gen_strategy(rng, aligned, t_first)
        c.update(strat)
        pend = []
        for i in range(rng.randint(2, 4 if tier == 'quick' else 7)):
            t = t_first if i == 0 else gen_t(rng, aligned)
            if aligned and 'nr' in c:
                cells = round(abs(t[-1] - t[0]) / GRID)
                if cells % (c['nr'] + 1):
                    t = t_first
            fault = None
            if rng.random() < 0.35:
                fault = [rng.choice(['fwd', 'bwd']), rng.choice([0, 1, 2, 5, 11, 30]), rng.choice(['RuntimeError', 'MemoryError', 'KeyboardInterrupt', 'SimCrash'])]
            ops.append({'op': 'int', 'id': i, 'field': rng.randrange(len(c['fields'])), 't': t, 'batch': rng.choice([1, 2]), 'xseed': rng.randrange(10 ** 6), 'fault': fault,
                        'wrt': rng.choice(['all', 'all', 'all', 'x0', 'parameters', 'b', 'none']), 'twice': rng.random() < 0.15})
            pend.append(i)
            if rng.random() < 0.4:
                k = rng.choice(pend)
                pend.remove(k)
                ops.append({'op': 'bwd', 'id': k})
        rng.shuffle(pend)
        ops += [{'op': 'bwd', 'id': k} for k in pend]
        return {'cfg': c, 'ops': ops}

    def nontrivial(self, plan, res):
        return plan['cfg']['strategy'] != 'direct' and res['probes'].get('gradients-compared', 0) > 0

    def integrator(self, c):
        step = 0.125 if c['aligned'] else 0.03
        if c['strategy'] == 'adjoint':          # the adjoint equation is discretised on its own: compared in the limit of small steps
            step /= {'euler': 32, 'midpoint': 4}.get(c['name'], 1)
        i = {'name': c['name'], 'strategy': c['strategy'], 'step': step, 'rtol': 1e-8, 'atol': 1e-9,
             'nr': c.get('nr'), 'every': c.get('every')}
        return nm.make_integrator(i), i

    def run(self, plan, tr, scratch):
        c = plan['cfg']
        fields = [Field(fc, tr) for fc in c['fields']]
        integ, icfg = self.integrator(c)
        pend = {}
        last = None
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'int':
                f = fields[o['field']]
                g = torch.Generator().manual_seed(o['xseed'])
                x0 = torch.randn(o['batch'], f.c['dim'], generator=g).requires_grad_(o.get('wrt', 'all') in ('all', 'x0'))
                f.optimise(o.get('wrt', 'all'))
                t = torch.tensor(o['t'])
                f.lo, f.hi, f.count, f.fired, f.fault = 1e9, -1e9, 0, False, None
                if o['fault'] and o['fault'][0] == 'fwd':
                    f.fault = (o['fault'][1], o['fault'][2])
                    try:
                        integ.integrate(f, x0, t)
                    except EXC[o['fault'][2]] as e:
                        if not f.fired:
                            raise
                        tr.fault('abort-forward-' + o['fault'][2])
                    f.fault = None
                sol = integ.integrate(f, x0, t)
                tr.sim_time += abs(o['t'][-1] - o['t'][0])
                tr.log('int', o['id'], tensor_sig(sol))
                tr.state(c['name'], c['strategy'], str(c.get('nr')), str(c.get('every')), str(o['t']))
                self.check_values(c, icfg, f, x0, t, sol, o, tr)
                pend[o['id']] = (x0, t, sol, o, f)
                last = o['id']
            elif o['op'] == 'bwd' and o['id'] in pend:
                x0, t, sol, io, f = pend.pop(o['id'])
                if io.get('wrt') == 'none':
                    continue
                if last != io['id']:
                    tr.probe('backward-after-other-integration')
                self.backward(c, icfg, f, x0, t, sol, io, tr, integ)

    def weight(self, sol, o):
        g = torch.Generator().manual_seed(o['xseed'] + 1)
        return torch.randn(sol.shape, generator=g)

    def plain(self, icfg, f, x0, t):
        if icfg['name'] == 'dopri5':
            return odeint(f, x0, t, rtol=icfg['rtol'], atol=icfg['atol'], method='dopri5')
        return odeint(f, x0, t, method=icfg['name'], options={'step_size': icfg['step']})

    def exact(self, f, x0, t):
        """The solution of the differential equation, by many small steps between the requested times."""
        n = 64
        fine = torch.cat([a + (b - a) * torch.arange(n) / n for a, b in zip(t[:-1], t[1:])] + [t[-1:]])
        return odeint(f, x0, fine, method='rk4')[::n]

    def tol(self, c):
        if c['name'] == 'dopri5':
            return 1e-5
        return 1e-9 if c['aligned'] else 5e-3

    def check_values(self, c, icfg, f, x0, t, sol, o, tr):
        tr.checks += 1
        info = 'times {} strategy {}'.format(o['t'], c)
        lo, hi = min(o['t']), max(o['t'])
        if f.lo < lo - 1e-6 or f.hi > hi + 1e-6:
            # adaptive solvers may step beyond the end and interpolate
            if c['name'] != 'dopri5':
                raise Violation('evaluated-outside-time-range', '[{},{}] {}'.format(f.lo, f.hi, info))
        if sol.shape[0] != len(o['t']) or tuple(sol.shape[1:]) != tuple(x0.shape):
            raise Violation('wrong-number-of-time-points', 'result of shape {} for {}'.format(tuple(sol.shape), info))
        with torch.no_grad():
            ref = self.exact(f, x0, t) if c['name'] == 'dopri5' else self.plain(icfg, f, x0, t)
        if not torch.equal(sol[0].detach(), x0.detach()):
            raise Violation('does-not-start-at-initial-condition', info)
        ok, why = nm.close(sol.detach(), ref, self.tol(c), self.tol(c) * 0.1)
        if not ok:
            raise Violation('solution-differs', '{} {}'.format(why, info))

    def backward(self, c, icfg, f, x0, t, sol, o, tr, integ):
        info = 'times {} strategy {}'.format(o['t'], c)
        w = self.weight(sol, o)
        f.optimise(o.get('wrt', 'all'))
        names, leaves = zip(*[(n, p) for n, p in zip(['x0', 'A', 'b'], [x0, f.A, f.b]) if p.requires_grad])
        f.fired, f.fault, f.count = False, None, 0
        for p in [x0, f.A, f.b]:
            p.grad = None
        if o['fault'] and o['fault'][0] == 'bwd':
            f.fault = (o['fault'][1], o['fault'][2])
        times = 2 if o.get('twice') else 1

        def differentiate(sol):
            for k in range(times):
                (w * sol).sum().backward(retain_graph=k + 1 < times)
        try:
            differentiate(sol)
        except EXC[o['fault'][2]] if o['fault'] else () as e:
            if not f.fired:
                raise
            tr.fault('abort-backward-' + o['fault'][2])
            f.fault = None
            for p in leaves:
                p.grad = None
            # the backward pass failed: repeat the whole computation
            differentiate(integ.integrate(f, x0, t))
        f.fault = None
        if times == 2:
            tr.probe('differentiated-twice')
        for n, p in zip(['x0', 'A', 'b'], [x0, f.A, f.b]):
            if not p.requires_grad and p.grad is not None:
                raise Violation('gradient-of-frozen', '{} {}'.format(n, info))
        got = [torch.zeros_like(p) if p.grad is None else p.grad.clone() for p in leaves]
        tr.log('bwd', o['id'], *[tensor_sig(g) for g in got])
        tr.checks += 1
        for p in leaves:
            p.grad = None
        exact = c['name'] == 'dopri5'
        ref = self.exact(f, x0, t) if exact else self.plain(icfg, f, x0, t)
        (times * w * ref).sum().backward()
        tol = self.tol(c)
        if c['strategy'] == 'adjoint' and c['name'] != 'dopri5':
            tol = 5e-2 if c['name'] == 'euler' else 1e-2     # gradient by solving the adjoint equation backward, not exact
        elif exact:
            # otherwise differentiated through the choice of the adaptive steps, which differ
            tol = 1e-3 if c['strategy'] == 'adjoint' else 0.25
        elif not c['aligned']:
            tol = 2e-2
        for n, g, p in zip(names, got, leaves):
            scale = max(1.0, float(p.grad.abs().max()))
            ok, why = nm.close(g, p.grad, tol, tol * scale)
            if not ok:
                raise Violation('gradient-differs', '{}: {} {}'.format(n, why, info))
            p.grad = None
        tr.probe('gradients-compared')
