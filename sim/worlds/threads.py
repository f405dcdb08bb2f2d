"""C18: independent models do not influence each other, whatever the interleaving of their work."""
import sys

import torch

from sim import nsmodel as nm
from sim.core import Violation, rng_of, tensor_sig
from sim.lines import tracer
from sim.sched import Sched
from sim.worlds.block import BlockWorld, FaultHook, EXC, loss_of

import neuro_shooting.parameter_initialization as pi


def line_tracer(pause, rng, p):
    """Trace function that makes (a seeded sample of) the executed lines of the code under test context switches."""
    def on_line():
        if rng.random() < p:
            pause('line', True)
    return tracer(on_line)


class IndependenceWorld(BlockWorld):
    pid = 'C18'
    quick_runs = 200
    thorough_runs = 10000
    stub = ['thread scheduler (one real thread runs at a time; the next one is chosen by the seeded generator at every evaluation of a right hand side and, in half of the runs, at a sample of the executed lines)']
    assumptions = ['context switches happen between lines of the code under test, not inside of torch and torchdiffeq functions',
                   'every model is used by one thread at a time']
    rule = ('2-4 models, some sharing the integrator object, the integrator options or the initialisers, run their own programs of forward '
            'passes, backward passes, optimiser steps, setting changes and aborted passes in threads that are interleaved by a seeded '
            'scheduler at every right hand side evaluation and at sampled lines of the code; every output, gradient and parameter of every model is compared with '
            'the same program executed alone; non-trivial: at least one context switch inside a pass')

    def gen(self, rng, tier):
        n = rng.choice([2, 2, 3, 4])
        share = rng.choice(['none', 'integrator', 'integrator', 'options', 'init'])
        base = nm.sample_cfg(rng, integrators=('fixed',) * 9 + ('dopri5',), T=(0.5, 1.0))
        if share == 'integrator' and rng.random() < 0.4:
            base['integrator'].update(strategy='checkpoint', nr=rng.choice([1, 2, 4, 8]))
        cfgs, progs = [], []
        for i in range(n):
            c = nm.sample_cfg(rng, integrators=('fixed',), T=(0.5, 1.0)) if rng.random() < 0.7 else dict(base, seed=rng.randrange(10 ** 6))
            if share == 'integrator':
                c['integrator'] = dict(base['integrator'])
                if c['integrator']['strategy'] != 'direct' and c['mode'] == 'rnn' or c['integrator']['strategy'] == 'adjoint' and c['mode'].startswith('pf'):
                    c['mode'] = 'particle'
                if base['integrator']['name'] == 'dopri5':
                    c.update(mag=0.2, nl='tanh', T=0.5)
                    if c['mode'] == 'pf_td':
                        c['mode'] = 'pf_rnn'
            cfgs.append(c)
            prog = []
            for _ in range(rng.randint(2, 4 if tier == 'quick' else 7)):
                k = rng.choice(['fwd', 'fwd', 'step', 'step', 'time', 'abort', 'nograd', 'penalty'])
                o = {'op': k, 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3])}
                if k == 'time':
                    o['t'] = rng.choice([[0.0, 0.5], [0.0, 0.5, 1.0], [0.0, 1.0], None])
                if k == 'abort':
                    o.update(at=rng.choice([0, 1, 4]), exc=rng.choice(['RuntimeError', 'MemoryError']))
                prog.append(o)
            prog.append({'op': 'step', 'seed': 3, 'batch': 2})
            progs.append(prog)
        return {'cfg': base, 'cfgs': cfgs, 'progs': progs, 'share': share, 'switch': rng.choice([0.05, 0.2, 0.5, 0.9]), 'sseed': rng.randrange(10 ** 9),
                'lines': rng.choice([0, 0, 0.005, 0.02, 0.05]), 'ops': list(range(n)), 'via_options': rng.random() < 0.5}

    def simplify(self, plan):
        for i, p in enumerate(plan['progs']):
            for j in range(len(p)):
                progs = list(plan['progs'])
                progs[i] = p[:j] + p[j + 1:]
                yield dict(plan, progs=progs)
        if plan.get('lines'):
            yield dict(plan, lines=0)
        if plan['share'] != 'none':
            yield dict(plan, share='none')

    def nontrivial(self, plan, res):
        return res['probes'].get('context-switches', 0) > 0

    def build(self, plan):
        """All models, created one after the other (possibly sharing objects)."""
        share = plan['share']
        integ = None
        options = {}
        inits = {}
        blocks = {}
        for i in plan['ops']:
            c = plan['cfgs'][i]
            kw = {}
            if share == 'integrator':
                if integ is None:
                    integ = nm.make_integrator(plan['cfg']['integrator'])
                it = integ
            elif share == 'options':
                j = c['integrator']
                if j['name'] == 'dopri5':
                    it = nm.make_integrator(j)
                else:
                    import neuro_shooting.generic_integrator as gi
                    extra = {}
                    if j['strategy'] == 'adjoint':
                        extra['use_adjoint_integration'] = True
                    elif j['strategy'] == 'checkpoint':
                        extra['nr_of_checkpoints'] = j['nr']
                    elif j['strategy'] == 'interval':
                        extra['checkpointing_time_interval'] = j['every']
                    it = gi.GenericIntegrator(integrator_library='odeint', integrator_name=j['name'], integrator_options=options, step_size=j['step'], **extra)
            else:
                it = nm.make_integrator(c['integrator'])
            if share == 'init':
                conv = c['model'] in nm.CONV
                if conv not in inits:
                    cls = pi.ConvolutionEvolutionParameterInitializer if conv else pi.VectorEvolutionParameterInitializer
                    inits[conv] = (cls(only_random_initialization=True, random_initialization_magnitude=0.15),
                                   cls(only_random_initialization=True, random_initialization_magnitude=0.15))
                kw = dict(state_initializer=inits[conv][0], costate_initializer=inits[conv][1])
            blocks[i] = nm.make_block(c, name='block', integrator=it, **kw)
        return blocks

    def program(self, c, b, prog, pause, tr, who):
        """Executes the program of one model; returns everything observable."""
        out = []
        b.shooting_integrand.register_lagrangian_gradient_hook(lambda *a: pause('rhs'))
        pending = None
        x = nm.data_of(c, 1, 1)
        b(x=x)
        opt = torch.optim.SGD(b.parameters(), lr=0.05)
        for o in prog:
            pause(o['op'])
            x = nm.data_of(c, o['seed'], o['batch']).requires_grad_(True)
            k = o['op']
            if k == 'time':
                if o['t'] is None:
                    b.set_integration_time(c['T'])
                else:
                    b.set_integration_time_vector(torch.tensor(o['t']), suppress_warning=True)
            elif k == 'nograd':
                with torch.no_grad():
                    out.append(('nograd', b(x=x)[0].clone()))
            elif k == 'abort':
                fh = FaultHook(tr, o['at'], o['exc'])
                h = b.shooting_integrand.register_lagrangian_gradient_hook(fh)
                try:
                    b(x=x)
                except EXC[o['exc']] as e:
                    if 'injected' not in str(e):
                        raise
                    tr.fault('abort-' + o['exc'])
                h.remove()
            elif k == 'fwd':
                pending = (x, b(x=x))
                out.append(('fwd', pending[1][0].detach().clone()))
            elif k == 'penalty':
                b(x=x)
                pause('before-penalty')
                p = b.get_norm_penalty()
                out.append(('penalty', p.detach().clone().reshape(-1) if p is not None else torch.zeros(0)))
            elif k == 'step':
                r = pending[1] if pending is not None else b(x=x)
                x = pending[0] if pending is not None else x
                pending = None
                opt.zero_grad()
                pause('before-backward')
                loss_of(r, 5).backward()
                out.append(('gx', x.grad.clone()))
                for n, p in sorted(b.named_parameters()):
                    if p.grad is not None:
                        out.append(('g.' + n, p.grad.clone()))
                        p.grad.nan_to_num_(0.0, 1.0, -1.0).clamp_(-1, 1)
                opt.step()
                for n, p in sorted(b.named_parameters()):
                    out.append(('p.' + n, p.detach().clone()))
        return out

    def run(self, plan, tr, scratch):
        alone = {}
        for i in plan['ops']:
            # alone: nothing else exists
            b = self.build(dict(plan, ops=[i]))[i]
            alone[i] = self.program(plan['cfgs'][i], b, plan['progs'][i], lambda w: None, tr, i)
        blocks = self.build(plan)
        sched = Sched(rng_of('sched', plan['sseed']), tr, switch=plan['switch'])

        def body(i):
            def run():
                if plan.get('lines'):
                    sys.settrace(line_tracer(sched.yield_point, rng_of('lines', plan['sseed'], i), plan['lines']))
                return self.program(plan['cfgs'][i], blocks[i], plan['progs'][i], sched.yield_point, tr, i)
            return run
        for i in plan['ops']:
            sched.spawn('m{}'.format(i), body(i))
        sched.run()
        tr.sim_steps += sched.steps
        tr.state(plan['share'], len(plan['ops']), sched.switches)
        for i in plan['ops']:
            n = 'm{}'.format(i)
            if n in sched.errors:
                raise Violation('interleaving-fails', 'model {} fails only when interleaved: {!r} (cfg {})'.format(i, sched.errors[n], plan['cfgs'][i]))
            got = sched.results[n]
            tr.checks += 1
            if [k for k, _ in got] != [k for k, _ in alone[i]]:
                raise Violation('interleaving-structure', '{} vs {}'.format([k for k, _ in got], [k for k, _ in alone[i]]))
            for (k, a), (_, b) in zip(got, alone[i]):
                if nm.blown([b]):
                    break
                ok, why = nm.close(a, b, 1e-10, 1e-12)
                if not ok:
                    raise Violation('interleaving-differs', 'model {}, {}: {} (share {}, cfg {})'.format(i, k, why, plan['share'], plan['cfgs'][i]))
            tr.log('model', i, *[tensor_sig(v) for _, v in got[-2:]])
