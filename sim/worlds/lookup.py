"""C05: time-dependent parameters are looked up by time only, whatever was requested before."""
import torch

import neuro_shooting.shooting_blocks as sb

from sim import nsmodel as nm
from sim.core import Violation
from sim.lines import LineFault
from sim.worlds.block import BlockWorld, BlockSim, abort_op, fwd, gen_misc, loss_of, with_echo


def allowed(t, t0, t1, n):
    """Indices of the parameter sets that may be used at time t (two candidates only at a boundary that is not representable)."""
    if n == 1 or t < t0:
        return {0}
    if t >= t1:
        return {n - 1}
    dyadic = n in (1, 2, 4, 8, 16)
    out = set()
    h = (t1 - t0) / n
    for k in range(n):
        lo, hi = t0 + k * h, t0 + (k + 1) * h
        if lo <= t < hi:
            out.add(k)
    if not dyadic:
        for k in range(1, n):
            if abs(t - (t0 + k * h)) < 1e-6:
                out |= {k - 1, k}
    else:
        for k in range(1, n):
            d = t - (t0 + k * h)
            if d != 0 and abs(d) < 1e-6:
                out |= {k - 1, k}
    return out


class LookupWorld(BlockWorld):
    pid = 'C05'
    quick_runs = 700
    thorough_runs = 20000
    rule = ('two kinds of runs: (a) a parameter lookup over a seeded time range is asked for a seeded sequence of times (advancing, '
            'going back, jumping, on and next to interval boundaries, outside of the range), requests may be interrupted before any line; (b) a block '
            'with time-dependent parameters runs forward and backward passes (all integrators and checkpointing strategies), aborts '
            'and time changes, and the parameters used at every right hand side evaluation are compared with those of the interval '
            'that contains the evaluation time; non-trivial: at least one request went back in time')

    def gen(self, rng, tier):
        if rng.random() < 0.5:
            t0, t1 = rng.choice([(0.0, 1.0), (0.0, 2.0), (0.0, 0.5), (0.5, 2.5), (0.0, 10.0)])
            n = rng.choice([1, 2, 3, 4, 5, 8, 10, 16])
            cuts = rng.random() < 0.5
            ops = []
            t = t0
            for _ in range(rng.randint(5, 30)):
                r = rng.random()
                h = (t1 - t0) / n
                if r < 0.3:
                    t = min(t1, t + rng.random() * h * rng.choice([0.5, 1, 3]))
                elif r < 0.5:
                    t = max(t0, t - rng.random() * h * rng.choice([0.5, 1, 3]))
                elif r < 0.65:
                    t = t0 + h * rng.randrange(n + 1)
                elif r < 0.75:
                    t = t0 + h * rng.randrange(n + 1) + rng.choice([-1, 1]) * h / 1024
                elif r < 0.85:
                    t = t0 + rng.random() * (t1 - t0)
                elif r < 0.9:
                    t = rng.choice([t0, t1, t1, t0])
                elif r < 0.95:
                    t = t0 - rng.random()
                else:
                    t = t1 + rng.random()
                ops.append({'op': 'query', 't': t})
                if cuts and rng.random() < 0.3:      # the request is interrupted before its n-th line
                    ops[-1]['cut'] = rng.randint(1, rng.choice([8, 16, 40]))
                    if rng.random() < 0.5:          # and, as likely as not, repeated or followed by a request for a nearby boundary
                        ops.append({'op': 'query', 't': rng.choice([t, t0 + h * rng.randrange(n + 1)])})
            return {'kind': 'direct', 't0': t0, 't1': t1, 'n': n, 'ops': ops}
        cfg = nm.sample_cfg(rng, modes=('pf_td',), strategies=('direct', 'checkpoint', 'interval'), integrators=('fixed',))
        ops = []
        for _ in range(rng.randint(2, 4 if tier == 'quick' else 8)):
            r = rng.random()
            if r < 0.5:
                ops.append(dict(fwd(rng), bwd=rng.random() < 0.5, grad=True))
            elif r < 0.7:
                ops.append(abort_op(rng))
            else:
                ops.append(gen_misc(rng, ['time', 'time', 'perturb', 'step', 'move', 'reload']))
        ops.append(dict(fwd(rng), bwd=True, grad=True))
        return {'kind': 'block', 'cfg': cfg, 'ops': with_echo(rng, ops)}

    def simplify(self, plan):
        if plan['kind'] == 'block':
            for p in super(LookupWorld, self).simplify(plan):
                yield p
        else:
            for i, o in enumerate(plan['ops']):
                if 'cut' in o:
                    yield dict(plan, ops=plan['ops'][:i] + [{'op': 'query', 't': o['t']}] + plan['ops'][i + 1:])

    def nontrivial(self, plan, res):
        return res['probes'].get('went-back-in-time', 0) > 0

    def run(self, plan, tr, scratch):
        if plan['kind'] == 'direct':
            self.direct(plan, tr)
        else:
            self.block(plan, tr)

    def direct(self, plan, tr):
        made = []

        def create():
            made.append(object())
            return made[-1]
        f = sb.ParticleFreeParameterFunc(time_dependent_steps=plan['n'], integration_time=torch.tensor([plan['t0'], plan['t1']]),
                                         parameter_creation_func=create)
        if len(made) != plan['n'] or len(f.get_time_parameter_list()) != plan['n']:
            raise Violation('number-of-parameter-sets', '{} instead of {}'.format(len(made), plan['n']))
        order = {id(p): k for k, p in enumerate(f.get_time_parameter_list())}
        last = None
        for o in plan['ops']:
            tr.op('query')
            if 'cut' in o:
                lf = LineFault(o['cut'], KeyboardInterrupt('injected'))
                try:
                    with lf:
                        f.get_parameters_at_time(torch.tensor(o['t']))
                except KeyboardInterrupt:
                    tr.fault('abort-at-line')
                    tr.log('cut', repr(o['t']), o['cut'])
                if lf.fired:
                    continue
            p = f.get_parameters_at_time(torch.tensor(o['t']))
            k = order.get(id(p))
            ok = allowed(o['t'], plan['t0'], plan['t1'], plan['n'])
            tr.log('query', repr(o['t']), k)
            tr.checks += 1
            tr.sim_steps += 1
            if last is not None:
                tr.sim_time += abs(o['t'] - last)
                if o['t'] < last:
                    tr.probe('went-back-in-time')
            last = o['t']
            tr.state(plan['n'], k)
            if k not in ok:
                raise Violation('wrong-parameters', 'time {} of [{},{}] with {} sets: got set {} instead of {}'.format(
                    o['t'], plan['t0'], plan['t1'], plan['n'], k, sorted(ok)))

    def block(self, plan, tr):
        s = BlockSim(plan, tr)
        c = s.c
        bad = []
        last = [None]

        def hook(module, t, st, co, da, ds, dc, dd, po, custom):
            t = float(t)
            if last[0] is not None and t < last[0]:
                tr.probe('went-back-in-time')
            last[0] = t
            P = dict(s.block.named_parameters())
            tr.checks += 1
            fits = []
            for k in sorted(allowed(t, 0.0, s.T_build, c['steps'])):
                want = nm.pf_theta(c, P, k)
                got = {'{}.{}'.format(o, n): v for o in po for n, v in po[o].get_parameter_dict().items()}
                fits.append(sorted(got) == sorted(want) and all(nm.same_bits(got[n].detach(), want[n].detach()) for n in want))
            if not any(fits) and not bad:
                used = [k for k in range(c['steps']) if all(nm.same_bits(v.detach(), nm.pf_theta(c, P, k)['{}.{}'.format(o, n)].detach())
                                                            for o in po for n, v in po[o].get_parameter_dict().items())]
                bad.append('time {} of [0,{}] with {} sets: used set {} instead of {}'.format(
                    t, s.T_build, c['steps'], used, sorted(allowed(t, 0.0, s.T_build, c['steps']))))
        s.block.shooting_integrand.register_lagrangian_gradient_hook(hook)

        def verdict():
            if bad:
                raise Violation('wrong-parameters', bad[0] + ' cfg {}'.format(c))
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'forward':
                x, vals, out = s.forward(o['seed'], o['batch'], True)
                verdict()
                if o['bwd']:
                    loss_of(out, 3).backward()
                    s.block.zero_grad()
            elif o['op'] == 'abort':
                x = nm.data_of(c, o['seed'], o['batch'])
                if o['phase'] == 'forward':
                    s.aborted(lambda: s.block(x=x), o['at'], o['exc'])
                else:
                    out = s.block(x=x)
                    s.aborted(lambda: out[0].pow(2).sum().backward(), o['at'], o['exc'])
                    s.block.zero_grad()
            else:
                s.misc(o)
            verdict()
