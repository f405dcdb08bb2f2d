"""C07: every evaluation of the right hand side satisfies the shooting equations, in every context in which it happens."""
from types import SimpleNamespace as Namespace

import torch

from sim import nsmodel as nm
from sim.core import Violation, tensor_sig
from sim.worlds.block import BlockWorld, BlockSim, abort_op, fwd, gen_misc, loss_of, with_echo
from sim.worlds.lookup import allowed
from sim.worlds.multi import ChainSim, chain_abort, chain_data, gen_chain


def flat(d, dim=None):
    """Values of a dictionary of dictionaries in the order of their sorted names; those of several blocks are put side by side."""
    out = [[d[b][k].detach() for k in sorted(d[b])] for b in d]
    if len(out) == 1:
        return out[0]
    return [torch.cat(v, dim=dim) for v in zip(*out)]


class EquationMonitor(object):
    """Registered as a hook: checks parameters and derivatives at every right hand side evaluation against the reference."""

    def __init__(self, s, tr):
        self.s, self.tr, self.bad, self.first = s, tr, [], None

    def new_pass(self):
        self.first = None

    def fail(self, what, why, t):
        if not self.bad:
            self.bad.append((what, '{} at t={}: {} (cfg {}, analytic {})'.format(what, t, why, self.s.c, self.s.analytic)))

    def verdict(self):
        if self.bad:
            raise Violation('equation-' + self.bad[0][0], self.bad[0][1])

    def __call__(self, module, t, st, co, da, ds, dc, dd, po, custom):
        s, c = self.s, self.s.c
        t = float(t)
        names = nm.state_names(c)
        side = -3 if c['model'] in nm.CONV else -1
        q = {k: v.clone().requires_grad_(True) for k, v in zip(names, flat(st, side))}
        p = {k: v.clone().requires_grad_(True) for k, v in zip(names, flat(co, side))}
        d = {k: v.clone() for k, v in zip(names, flat(da, side))}
        if len(st) > 1:
            self.tr.probe('evaluations-with-several-blocks')
        got = {'{}.{}'.format(o, n): v.detach() for o in po for n, v in po[o].get_parameter_dict().items()}
        self.tr.checks += 1
        biggest = max([float(v.abs().max()) for v in list(q.values()) + list(p.values()) + list(d.values()) + list(got.values()) if v.numel()])
        if not biggest < 50:
            self.tr.probe('evaluation-skipped-values-too-large')
            return
        with torch.enable_grad():
            if c['mode'].startswith('pf'):
                P = {k: v.detach() for k, v in s.block.named_parameters()}
                cands = [nm.pf_theta(c, P, k) for k in sorted(allowed(t, 0.0, s.T_build, c['steps'] if c['mode'] == 'pf_td' else 1))]
            elif c['mode'] == 'rnn':
                if self.first is None:
                    self.first = {k: v.detach() for k, v in nm.theta_star(c, q, p).items()}
                cands = [self.first]
            else:
                cands = [{k: v.detach() for k, v in nm.theta_star(c, q, p).items()}]
            why = ''
            for th in cands:
                why = ''
                if sorted(th) != sorted(got):
                    why = 'parameters {} instead of {}'.format(sorted(got), sorted(th))
                    continue
                for k in th:
                    ok, w = nm.close(got[k].reshape(-1), th[k].reshape(-1), 1e-8, 1e-10)
                    if not ok:
                        why = '{}: {}'.format(k, w)
                        break
                if not why:
                    break
            if why:
                return self.fail('parameters', why, t)
            self.cmp('state', nm.f_rhs(c, q, th), flat(ds, side), t)
            self.cmp('data', nm.f_rhs(c, d, th), flat(dd, side), t)
            if not c['mode'].startswith('pf'):
                self.cmp('costate', nm.costate_rhs(c, q, p, th), flat(dc, side), t)
        self.tr.probe('evaluations-in-backward' if self.in_backward else 'evaluations-in-forward')

    in_backward = False

    def cmp(self, what, ref, got, t):
        for k, g in zip(sorted(ref), got):
            ok, why = nm.close(g, ref[k].detach(), 1e-8, 1e-9)
            if not ok:
                return self.fail(what, '{}: {}'.format(k, why), t)


class EquationsWorld(BlockWorld):
    pid = 'C07'
    quick_runs = 420
    thorough_runs = 12000
    rule = ('histories of forward passes, backward passes (including recomputation after checkpoints and adjoint integration), aborts, '
            'parameter updates, switches between automatic and analytic equations and time changes; at every right hand side '
            'evaluation (of single blocks and of chains of blocks, in which several blocks contribute particles) the parameters and the three derivatives are compared with the reference model at the same state; '
            'non-trivial: at least one evaluation during a backward pass or after an abort; distinct: different event-log digests')

    def gen(self, rng, tier):
        if rng.random() < 0.2:
            return self.gen_chained(rng, tier)
        cfg = nm.transposed(rng, nm.sample_cfg(rng))
        if rng.random() < 0.4:
            cfg['model'] = rng.choice(nm.ANALYTIC)
            cfg.pop('S', None)
            if cfg['model'] == 'symm':
                cfg['infl'] = 1
            if cfg['model'] not in nm.LEARNED_INIT:
                cfg['init'] = None
            if cfg['mode'] != 'rnn':
                cfg['analytic'] = True
        nm.weighted(rng, cfg)
        ops = []
        for _ in range(rng.randint(2, 4 if tier == 'quick' else 8)):
            r = rng.random()
            if r < 0.45:
                ops.append(dict(fwd(rng), bwd=rng.random() < 0.5, grad=True))
            elif r < 0.6:
                ops.append(abort_op(rng))
            else:
                ops.append(gen_misc(rng, ['time', 'perturb', 'move', 'reload', 'analytic', 'analytic', 'train']))
        ops.append(dict(fwd(rng), bwd=True, grad=True))
        return {'cfg': cfg, 'ops': with_echo(rng, ops)}

    def nontrivial(self, plan, res):
        return res['probes'].get('evaluations-in-backward', 0) > 0 or sum(res['faults'].values()) > 0

    def gen_chained(self, rng, tier):
        plan = gen_chain(rng, tier)
        ops = []
        for _ in range(rng.randint(1, 2 if tier == 'quick' else 5)):
            r = rng.random()
            if r < 0.5:
                ops.append({'op': 'forward', 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3]), 'lead': rng.choice([None, None, 2]),
                            'bwd': rng.random() < 0.4})
            elif r < 0.8:
                ops.append(chain_abort(rng))
            else:
                ops.append({'op': 'perturb', 'seed': rng.randrange(10 ** 6)})
        ops.append({'op': 'forward', 'seed': rng.randrange(10 ** 6), 'batch': 2, 'lead': None, 'bwd': rng.random() < 0.7})
        return dict(plan, ops=ops)

    def chained(self, plan, tr):
        s = ChainSim(plan, tr)
        mons = []
        for b, c in zip(s.blocks, s.cfgs):
            mons.append(EquationMonitor(Namespace(c=c, analytic=False, block=b), tr))
            b.shooting_integrand.register_lagrangian_gradient_hook(mons[-1])
        for o in plan['ops']:
            tr.op(o['op'])
            for m in mons:
                m.in_backward = False
            if o['op'] == 'forward':
                out = s.forward(chain_data(s.c, o['seed'], o['batch'], o['lead']))[-1]
                tr.log('forward', tensor_sig(out[0]))
                for m in mons:
                    m.verdict()
                    m.in_backward = True
                if o['bwd']:
                    loss_of(out, 3).backward()
            elif o['op'] == 'abort':
                s.aborted(lambda: s.forward(chain_data(s.c, o['seed'], o['batch'])), o['at'], o['exc'])
            else:
                s.perturb(o['seed'])
            for m in mons:
                m.verdict()

    def run(self, plan, tr, scratch):
        if 'more' in plan:
            return self.chained(plan, tr)
        s = BlockSim(plan, tr)
        mon = EquationMonitor(s, tr)
        s.block.shooting_integrand.register_lagrangian_gradient_hook(mon)
        for o in plan['ops']:
            tr.op(o['op'])
            mon.in_backward = False
            if o['op'] == 'forward':
                mon.new_pass()
                x, vals, out = s.forward(o['seed'], o['batch'], True)
                mon.verdict()
                if o['bwd']:
                    mon.in_backward = True
                    loss_of(out, 3).backward()
                    s.block.zero_grad()
            elif o['op'] == 'abort':
                x = nm.data_of(s.c, o['seed'], o['batch'])
                mon.new_pass()
                if o['phase'] == 'forward':
                    s.aborted(lambda: s.block(x=x), o['at'], o['exc'])
                else:
                    out = s.block(x=x)
                    mon.in_backward = True
                    s.aborted(lambda: out[0].pow(2).sum().backward(), o['at'], o['exc'])
                    s.block.zero_grad()
            else:
                s.misc(o)
            mon.verdict()
