"""
C15: a training that is killed and resumed from its last readable checkpoint ends like the uninterrupted training.
C17: after the random seed was set, a training is a function of the seed only, not of the history of the process.
"""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np
import torch

import neuro_shooting.custom_lr_scheduler as lrs
import neuro_shooting.res_net as res_net
import neuro_shooting.utils as utils

from sim import nsmodel as nm
from sim.core import Violation, tensor_sig, VERIF
from sim.worlds.block import BlockWorld, Counter, FaultHook, run_with_fault
from sim.worlds.chain import Storage


def build_model(plan, seed=None):
    """seed=None: build with the current state of the global random number generators."""
    c = plan['cfg']
    if plan['kind'] == 'block':
        if seed is None:
            seed = int(torch.randint(0, 10 ** 6, (1,)))
        return nm.make_block(c, seed=seed)
    if seed is not None:
        torch.manual_seed(seed)
    return res_net.BasicResNet(nr_of_image_channels=1, layer_channels=[2, 3], nr_of_blocks_per_layer=plan['blocks'], nr_of_particles=2,
                               particle_sizes=plan['psizes'], nr_of_classes=2, nonlinearity='tanh',
                               integrator=nm.make_integrator(nm.direct_integrator(c['integrator'])))


def integrands(plan, m):
    return [m.shooting_integrand] if plan['kind'] == 'block' else [b.shooting_integrand for l in m.shooting_layers for b in l]


class Training(object):
    """A training loop as in the demos: optimiser, plateau scheduler, norm penalty, noise from the global generator."""

    def __init__(self, plan, tr, seed):
        self.plan, self.tr = plan, tr
        self.m = build_model(plan, seed)
        integrands(plan, self.m)[0].register_lagrangian_gradient_hook(Counter(tr))
        self.call(self.data(0)[0])          # parameters are only available after a forward pass
        t = plan['train']
        kw = {'momentum': 0.9} if t['opt'] == 'SGDm' else {}
        self.opt = getattr(torch.optim, 'SGD' if t['opt'].startswith('SGD') else 'Adam')(self.m.parameters(), lr=t['lr'], **kw)
        self.sch = lrs.CustomReduceLROnPlateau(self.opt, factor=0.5, patience=t['patience'], threshold=t['threshold'])
        self.losses = []

    def data(self, step):
        c = self.plan['cfg']
        if self.plan['kind'] == 'block':
            x = nm.data_of(c, 1000 + step % 3, self.plan['batch'])
        else:
            g = torch.Generator().manual_seed(1000 + step % 3)
            x = torch.randn((self.plan['batch'] + 1, 1, 6, 6), generator=g)
        return x, 0.3

    def call(self, x):
        out = self.m(x=x)
        return out[0] if self.plan['kind'] == 'block' else out

    def step(self, i):
        t = self.plan['train']
        x, y = self.data(i)
        if t['noise']:
            x = x + 0.01 * torch.randn(x.shape)
        self.opt.zero_grad()
        out = self.call(x)
        loss = (out - y).pow(2).mean()
        if t['penalty'] and self.plan['kind'] == 'block':
            p = self.m.get_norm_penalty()
            if p is not None and p.requires_grad:
                loss = loss + t['penalty'] * p.sum()
        if loss.requires_grad:
            loss.backward()
            for p in self.m.parameters():
                if p.grad is not None:
                    p.grad.nan_to_num_(0.0, 1.0, -1.0).clamp_(-1, 1)
            self.opt.step()
        self.sch.step(float(loss.detach()))
        self.losses.append(float(loss.detach()))
        self.tr.log('step', i, tensor_sig(loss.detach()))

    def state(self, step):
        return {'step': step, 'model': self.m.state_dict(), 'opt': self.opt.state_dict(), 'sch': self.sch.state_dict(),
                'rng': torch.get_rng_state(), 'losses': list(self.losses)}

    def restore(self, st):
        self.m.load_state_dict(st['model'])
        self.opt.load_state_dict(st['opt'])
        self.sch.load_state_dict(st['sch'])
        torch.set_rng_state(st['rng'])
        self.losses = list(st['losses'])
        return st['step']

    def final(self):
        r = {'p.' + k: v.detach().clone() for k, v in self.m.named_parameters()}
        r.update(('b.' + k, v.detach().clone()) for k, v in self.m.named_buffers())
        r['lr'] = torch.tensor([float(g['lr']) for g in self.opt.param_groups])
        r['losses'] = torch.tensor(self.losses)
        r['converged'] = torch.tensor(float(self.sch.has_convergence_been_reached()))
        return r


def gen_training(rng, tier):
    kind = rng.choice(['block'] * 5 + ['resnet'])
    if kind == 'block':
        cfg = nm.sample_cfg(rng, integrators=('fixed',), T=(0.5, 1.0))
    else:
        cfg = nm.sample_cfg(rng, models=['conv'], modes=('particle',), T=(1.0,), integrators=('fixed',), strategies=('direct',))
        cfg['integrator']['step'] = 0.5
    return {'kind': kind, 'cfg': cfg, 'batch': rng.choice([1, 2, 4]), 'blocks': [rng.choice([1, 2]), 1],
            'psizes': rng.choice([[[4, 4], [3, 3]], [[3, 3], [3, 3]]]),
            'train': {'opt': rng.choice(['SGD', 'SGDm', 'Adam']), 'lr': rng.choice([0.05, 0.01]), 'patience': rng.choice([0, 1]),
                      'threshold': rng.choice([1e-4, 0.1]), 'noise': rng.random() < 0.5, 'penalty': rng.choice([0, 0, 0.1])}}


def same(a, b, rtol, what, plan):
    if sorted(a) != sorted(b):
        raise Violation(what + '-structure', '{} vs {}'.format(sorted(a), sorted(b)))
    if any(not torch.isfinite(v).all() or (v.numel() and v.abs().max() > nm.BLOWUP) for v in b.values()):
        return False
    for k in sorted(b):
        if nm.same_bits(a[k], b[k]):
            continue
        ok, why = nm.close(a[k], b[k], rtol, rtol * 0.01)
        if not ok:
            raise Violation(what, '{}: {} (cfg {}, training {})'.format(k, why, plan['cfg'], plan['train']))
    return True


class TrainingWorld(BlockWorld):
    real = BlockWorld.real + ['residual network', 'plateau scheduler', 'torch optimisers', 'serialisation']

    def simplify(self, plan):
        t = plan['train']
        for k, v in (('noise', False), ('penalty', 0), ('opt', 'SGD')):
            if t[k] != v:
                yield dict(plan, train=dict(t, **{k: v}))
        if plan['kind'] == 'block':
            for p in super(TrainingWorld, self).simplify(plan):
                yield p


class TrainingCrashWorld(TrainingWorld):
    pid = 'C15'
    quick_runs = 220
    thorough_runs = 9000
    stub = ['training data (seeded tensors)', 'process kill (all objects dropped, only files survive)']
    rule = ('a training (block or residual network, optimiser, plateau scheduler) stores checkpoints at seeded steps and is killed at '
            'seeded points: between steps, at a right hand side evaluation inside a forward or backward pass, or while a checkpoint is '
            'written (torn, lost); a new process with differently initialised objects resumes from the last readable checkpoint; '
            'parameters, optimiser-driven learning rates, losses and convergence flag at the end are compared with the uninterrupted '
            'training; non-trivial: at least one crash')

    def gen(self, rng, tier):
        plan = gen_training(rng, tier)
        ops = []
        n = 0
        for _ in range(rng.randint(4, 7 if tier == 'quick' else 12)):
            o = {'op': 'step'}
            if rng.random() < 0.35:
                o['kill'] = rng.choice([0, 0, 1, 3, 6, 10, 20])
                o['phase'] = rng.choice(['forward', 'backward'])
            ops.append(o)
            r = rng.random()
            if r < 0.4:
                ops.append({'op': 'save'})
            elif r < 0.6:
                ops.append({'op': 'kill', 'write': rng.choice([None, None, 'torn', 'lost'])})
        if not any(o['op'] == 'kill' or 'kill' in o for o in ops):
            ops.append({'op': 'kill', 'write': None})
        ops.append({'op': 'step'})
        plan['ops'] = ops
        return plan

    def nontrivial(self, plan, res):
        return sum(res['faults'].values()) > 0

    def run(self, plan, tr, scratch):
        c = plan['cfg']
        steps = [i for i, o in enumerate(plan['ops']) if o['op'] == 'step']
        # uninterrupted
        t = Training(plan, tr, c['seed'])
        torch.manual_seed(77)
        for n, i in enumerate(steps):
            t.step(n)
        want = t.final()
        # with crashes
        store = Storage(scratch, tr)
        life = 0
        t = Training(plan, tr, c['seed'])
        torch.manual_seed(77)
        store.save(t.state(0), None)
        fired = set()
        n = 0               # next step
        i = 0
        where = {s: n for n, s in enumerate(steps)}
        budget = 400
        while i < len(plan['ops']) and budget:
            budget -= 1
            o = plan['ops'][i]
            tr.op(o['op'])
            killed = False
            if o['op'] == 'step':
                n = where[i]
                if 'kill' in o and i not in fired:
                    fired.add(i)
                    killed = run_with_fault(tr, integrands(plan, t.m), lambda: t.step(n), o['kill'], 'SimCrash')
                    if killed:
                        tr.fault('crash-inside-step')
                else:
                    t.step(n)
                n += 1
            elif o['op'] == 'save':
                store.save(t.state(n), None)
            elif o['op'] == 'kill' and i not in fired:
                fired.add(i)
                if o['write']:
                    store.save(t.state(n), o['write'])
                tr.fault('crash-between-steps')
                killed = True
            if killed:
                life += 1
                del t
                t = Training(plan, tr, c['seed'] + (0 if c['mode'].startswith('pf') else 1000 * life))
                n = t.restore(store.latest())
                tr.probe('resumed')
                tr.state(plan['kind'], c['model'], c['mode'], c['integrator']['strategy'], plan['train']['opt'], n, life)
                i = steps[n] if n < len(steps) else len(plan['ops'])
                continue
            i += 1
        tr.checks += 1
        got = t.final()
        same(got, want, 1e-9, 'resumed-training-differs', plan)
        tr.log('final', *[tensor_sig(got[k]) for k in sorted(got)])


class RepeatabilityWorld(TrainingWorld):
    pid = 'C17'
    quick_runs = 260
    thorough_runs = 8000
    assumptions = BlockWorld.assumptions + ['one machine, one version of the libraries, one thread']
    rule = ('the same seeded training (model construction, random initialisation, noise, optimiser) is executed twice in one process with '
            'a seeded history in between (other models, aborted passes, random numbers of all generators, another training), and, for a '
            'sample, in fresh interpreters with other string hash seeds; all parameters, losses and learning rates have to be identical; '
            'non-trivial: at least two history operations')

    def gen(self, rng, tier):
        plan = gen_training(rng, tier)
        plan['n'] = rng.choice([1, 2, 3])
        plan['user_seed'] = rng.choice([0, 1, 42, 2 ** 31 - 1, rng.randrange(10 ** 6)])
        plan['other'] = rng.choice([1, 1, 2, 10, 100, 256, 1000, 1024, 10000, 65536, 10 ** 6, 2 ** 31])
        ops = []
        for _ in range(rng.randint(1, 5)):
            k = rng.choice(['rng', 'rng', 'noseed', 'model', 'abort', 'train', 'otherseed'])
            o = {'op': k, 'n': rng.randint(1, 5), 'gen': rng.choice(['torch', 'numpy', 'random'])}
            if k in ('model', 'abort', 'train'):
                o['cfg'] = nm.sample_cfg(rng, integrators=('fixed',), T=(0.5, 1.0))
                o['at'] = rng.choice([0, 1, 5])
            ops.append(o)
        plan['ops'] = ops
        plan['again'] = rng.random() < 0.5
        return plan

    def once(self, plan, tr):
        utils.setup_random_seed(plan['user_seed'])
        draws = (random.random(), float(np.random.rand()), float(torch.rand(1)))
        t = Training(plan, tr, None)
        for i in range(plan['n']):
            t.step(i)
        f = t.final()
        f['draws'] = torch.tensor(draws + (random.random(), float(np.random.rand()), float(torch.rand(1))), dtype=torch.float64)
        return f

    def run(self, plan, tr, scratch):
        a = self.once(plan, tr)
        for o in plan['ops']:
            self.history(plan, o, tr)
        b = self.once(plan, tr)
        tr.checks += 1
        self.identical(a, b)
        h = hashlib.sha256()
        for k in sorted(a):
            h.update(k.encode())
            h.update(a[k].contiguous().numpy().tobytes())
        tr.log('FINAL', h.hexdigest())
        tr.state(plan['kind'], plan['cfg']['model'], plan['cfg']['mode'], plan['train']['opt'], tuple(o['op'] for o in plan['ops']))
        # another seed gives another model
        f = dict(plan, user_seed=(plan['user_seed'] + plan.get('other', 1)) % 2 ** 32)
        utils.setup_random_seed(f['user_seed'])
        other = (random.random(), float(np.random.rand()), float(torch.rand(1)))
        if any(abs(x - float(y)) < 1e-15 for x, y in zip(other, a['draws'][:3])):
            raise Violation('seed-ignored', 'seeds {} and {} give the same random numbers {}'.format(plan['user_seed'], f['user_seed'], other))

    def identical(self, a, b):
        if sorted(a) != sorted(b):
            raise Violation('not-repeatable', 'different parameters: {} vs {}'.format(sorted(a), sorted(b)))
        for k in sorted(a):
            if not nm.same_bits(a[k], b[k]):
                raise Violation('not-repeatable', '{} differs after the same seed was set ({} vs {})'.format(k, a[k].flatten()[:3], b[k].flatten()[:3]))

    def history(self, plan, o, tr):
        k = o['op']
        tr.op(k)
        if k == 'rng':
            for _ in range(o['n']):
                {'torch': lambda: torch.randn(3), 'numpy': lambda: np.random.rand(), 'random': lambda: random.random()}[o['gen']]()
        elif k == 'noseed':
            st = (random.getstate(), np.random.get_state()[1].copy(), torch.get_rng_state().clone())
            utils.setup_random_seed(-1)
            st2 = (random.getstate(), np.random.get_state()[1], torch.get_rng_state())
            if st[0] != st2[0] or not np.array_equal(st[1], st2[1]) or not torch.equal(st[2], st2[2]):
                raise Violation('no-seed-changes-generators', 'seed -1 is documented to leave everything at random')
        elif k == 'otherseed':
            utils.setup_random_seed(plan['user_seed'] + o['n'])
        elif k == 'train':
            self.once(dict(plan, cfg=o['cfg'], kind='block', user_seed=5, n=1), tr)
        else:
            b = nm.make_block(o['cfg'])
            x = nm.data_of(o['cfg'], o['n'], 2)
            if k == 'model':
                b(x=x)
                return
            fh = FaultHook(tr, o['at'], 'RuntimeError')
            b.shooting_integrand.register_lagrangian_gradient_hook(fh)
            try:
                b(x=x)
            except RuntimeError as e:
                if not fh.fired:
                    raise
                tr.fault('abort-RuntimeError')

    # --- other interpreters -------------------------------------------------------------------------------------------
    def elsewhere(self, plans, hashseed):
        env = dict(os.environ, NS_HASHSEED=str(hashseed))
        env.pop('NS_SIM_CHILD', None)
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'sim', 'check.py'), 'plans', self.pid], input=json.dumps(plans).encode(),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
        return json.loads(r.stdout.decode().strip().splitlines()[-1])

    def post(self, results, tier, seed):
        take = results[::max(1, len(results) // (24 if tier == 'quick' else 400))]
        plans = [p for p, _ in take]
        out = []
        for hs in (1, 4242):
            d = self.elsewhere(plans, hs)
            for (p, r), x in zip(take, d):
                if x != r['digest']:
                    out.append((dict(p, hashseed=hs, first=r['digest']), Violation('differs-between-interpreters', 'string hash seed {} changes the training {}'.format(hs, p))))
                    return out
        return out

    def post_replay(self, plan):
        p = {k: v for k, v in plan.items() if k not in ('hashseed', 'first')}
        a, b = self.elsewhere([p], 0), self.elsewhere([p], plan['hashseed'])
        if a != b:
            return Violation('differs-between-interpreters', 'string hash seeds 0 and {}: {} vs {}'.format(plan['hashseed'], a, b))
        return None
