"""C16: the plateau scheduler follows its documented rule, also across crashes, restarts and torn checkpoints."""
import copy
import io
import math
import os

import torch
import torch._dynamo          # imported lazily by the optimisers otherwise, in every simulated process

import neuro_shooting.custom_lr_scheduler as cls

from sim.core import World, Violation


class Model(object):
    """Reference: plain transcription of the documented rule, one decision per epoch."""

    def __init__(self, c, lrs):
        self.c, self.lrs = c, list(lrs)
        self.best = None
        self.bad = 0
        self.cool = 0
        self.converged = False

    def copy(self):
        m = Model(self.c, self.lrs)
        m.best, m.bad, m.cool, m.converged = self.best, self.bad, self.cool, self.converged
        return m

    def improves(self, v):
        c = self.c
        best = self.best if self.best is not None else (math.inf if c['mode'] == 'min' else -math.inf)
        if c['tmode'] == 'rel':
            bound = best * (1. - c['threshold']) if c['mode'] == 'min' else best * (1. + c['threshold'])
        else:
            bound = best - c['threshold'] if c['mode'] == 'min' else best + c['threshold']
        return v < bound if c['mode'] == 'min' else v > bound

    def step(self, v):
        """returns 'reduced', 'converged' or None"""
        ev = None
        if self.improves(v):
            self.best, self.bad = v, 0
        else:
            self.bad += 1
        if self.cool > 0:
            self.cool -= 1
            self.bad = 0
        if self.bad > self.c['patience']:
            ev = 'due'
            for i, old in enumerate(self.lrs):
                new = max(old * self.c['factor'], self.c['min_lr'][i])
                if old - new > self.c['eps']:
                    self.lrs[i] = new
                    self.best = None        # progress is measured anew after a reduction
                    ev = 'reduced'
                else:
                    self.converged = True
            self.cool = self.c['cooldown']
            self.bad = 0
        return ev


class SchedulerWorld(World):
    pid = 'C16'
    quick_runs = 4000
    thorough_runs = 60000
    real = ['custom_lr_scheduler', 'torch optimisers (parameter groups, state dictionaries)', 'file system (scratch directory)']
    stub = ['training loop (seeded sequence of metrics)', 'process kill']
    assumptions = ['metrics are floats or zero-dimensional tensors (new, updated in place, or part of a graph)']
    rule = ('seeded scheduler settings and optimiser (1-3 parameter groups), 10-60 epochs with improving, stagnating, borderline, NaN and '
            'infinite metrics; states are stored at seeded epochs, the process crashes (possibly tearing or losing the last write), a '
            'scheduler with other settings is created, restored and fed with the epochs since the stored one; after every epoch all '
            'learning rates and the convergence flag are compared with the reference; non-trivial: at least one reduction')

    def gen(self, rng, tier):
        groups = rng.choice([1, 1, 2, 3])
        c = {'mode': rng.choice(['min', 'min', 'max']), 'tmode': rng.choice(['rel', 'abs']), 'threshold': rng.choice([0.0, 1e-4, 0.1]),
             'patience': rng.choice([0, 1, 2, 5]), 'factor': rng.choice([0.1, 0.5, 0.9]), 'cooldown': rng.choice([0, 0, 1, 3]),
             'eps': rng.choice([1e-8, 1e-8, 1e-3, 0, 0.05]), 'groups': groups, 'lrs': [rng.choice([1.0, 0.1, 0.05]) for _ in range(groups)],
             'min_kind': rng.choice(['scalar', 'list']), 'opt': rng.choice(['SGD', 'Adam'])}
        lo = rng.choice([0, 0, 1e-3, 0.02])
        c['min_lr'] = [lo] * groups if c['min_kind'] == 'scalar' else [rng.choice([0, 1e-3, 0.02]) for _ in range(groups)]
        ops = []
        v = rng.choice([1.0, 10.0, -1.0])
        how = rng.choice(['new', 'same', 'graph'])        # metrics given as tensors: new ones, one that is updated in place, or part of a graph
        sgn = -1 if c['mode'] == 'min' else 1
        for _ in range(rng.randint(10, 30 if tier == 'quick' else 60)):
            r = rng.random()
            if r < 0.25:
                v = v + sgn * rng.choice([0.001, 0.1, 0.5])
            elif r < 0.35:
                v = v - sgn * rng.random()
            elif r < 0.4:
                ops.append({'op': 'epoch', 'v': rng.choice(['nan', 'inf', '-inf']), 'tensor': None})
                continue
            ops.append({'op': 'epoch', 'v': round(v, 6), 'tensor': rng.choice([None] * 6 + ['new', how, how])})
            if rng.random() < 0.1:
                ops[-1]['epoch'] = rng.choice([0, 1, 7, 1000])
            r = rng.random()
            if r < 0.15:
                ops.append({'op': 'save', 'how': rng.choice(['file', 'file', 'copy', 'deep'])})
            elif r < 0.23:
                ops.append({'op': 'crash', 'write': rng.choice([None, None, 'torn', 'lost']), 'other': rng.random() < 0.5})
            elif r < 0.27:
                ops.append({'op': 'set_lr', 'g': rng.randrange(groups), 'lr': rng.choice([0.5, 0.2, 0.01])})
        return {'cfg': c, 'ops': ops}

    def simplify(self, plan):
        c = plan['cfg']
        for k, v in (('threshold', 0.0), ('cooldown', 0), ('patience', 0)):
            if c[k] != v:
                yield dict(plan, cfg=dict(c, **{k: v}))

    def nontrivial(self, plan, res):
        return res['probes'].get('reduced', 0) > 0

    def build(self, c, other=False):
        ps = [torch.nn.Parameter(torch.zeros(2)) for _ in range(c['groups'])]
        groups = [{'params': [p], 'lr': lr} for p, lr in zip(ps, c['lrs'])]
        opt = getattr(torch.optim, c['opt'])(groups, lr=0.1)
        if other:
            # restored into a scheduler that was created with other settings
            s = cls.CustomReduceLROnPlateau(opt, mode='max' if c['mode'] == 'min' else 'min', patience=7, threshold=0.3,
                                            threshold_mode='abs' if c['tmode'] == 'rel' else 'rel')
        else:
            m = c['min_lr'][0] if c['min_kind'] == 'scalar' else list(c['min_lr'])
            s = cls.CustomReduceLROnPlateau(opt, mode=c['mode'], factor=c['factor'], patience=c['patience'], threshold=c['threshold'],
                                            threshold_mode=c['tmode'], cooldown=c['cooldown'], min_lr=m, eps=c['eps'])
        return opt, s

    def run(self, plan, tr, scratch):
        c = plan['cfg']
        opt, sch = self.build(c)
        ref = Model(c, c['lrs'])
        ops = plan['ops']
        saved = []          # (position, model) of the readable stored states; newest last
        files = 0
        i = 0
        used = set()
        metric = torch.zeros(())
        budget = 4000
        while i < len(ops) and budget:
            budget -= 1
            o = ops[i]
            tr.op(o['op'])
            if o['op'] == 'epoch':
                v = float(o['v'])
                kw = {} if o.get('epoch') is None else {'epoch': o['epoch']}
                if o['tensor'] == 'same':
                    metric.fill_(v)
                    sch.step(metric, **kw)
                elif o['tensor'] == 'graph':
                    sch.step(torch.tensor(v, requires_grad=True) * 1.0, **kw)
                else:
                    sch.step(torch.tensor(v) if o['tensor'] else v, **kw)
                ev = ref.step(v)
                tr.sim_steps += 1
                tr.sim_time += 1
                if ev:
                    tr.probe(ev)
                self.compare(opt, sch, ref, c, i, tr)
            elif o['op'] == 'set_lr':
                opt.param_groups[o['g']]['lr'] = o['lr']
                ref.lrs[o['g']] = o['lr']
            elif o['op'] == 'save':
                state = {'opt': opt.state_dict(), 'sch': sch.state_dict()}
                if o['how'] == 'file':
                    files += 1
                    path = os.path.join(scratch, 'ck{}'.format(files))
                    torch.save(state, path)
                    saved.append((i + 1, ref.copy(), ('file', path)))
                elif o['how'] == 'deep':
                    saved.append((i + 1, ref.copy(), ('deep', copy.deepcopy(state))))
                else:
                    buf = io.BytesIO()
                    torch.save(state, buf)
                    saved.append((i + 1, ref.copy(), ('mem', buf.getvalue())))
                tr.log('save', i)
            elif o['op'] == 'crash' and i not in used:
                used.add(i)
                tr.fault('crash')
                if o['write'] is not None:
                    tr.fault('checkpoint-write-' + o['write'])
                    if o['write'] == 'torn':
                        buf = io.BytesIO()
                        torch.save({'opt': opt.state_dict(), 'sch': sch.state_dict()}, buf)
                        with open(os.path.join(scratch, 'torn'), 'wb') as f:
                            f.write(buf.getvalue()[:-30])
                        try:
                            torch.load(os.path.join(scratch, 'torn'), weights_only=False)
                            raise Violation('torn-checkpoint-accepted', '')
                        except Violation:
                            raise
                        except Exception:
                            tr.probe('torn-checkpoint-rejected')
                if saved:
                    pos, model, (kind, where) = saved[-1]
                    st = copy.deepcopy(where) if kind == 'deep' else torch.load(where if kind == 'file' else io.BytesIO(where), weights_only=False)
                    opt, sch = self.build(c, other=o['other'])
                    opt.load_state_dict(st['opt'])
                    sch.load_state_dict(st['sch'])
                    ref = model.copy()
                    i = pos
                    tr.probe('restored')
                    self.compare(opt, sch, ref, c, i, tr)
                else:
                    opt, sch = self.build(c)
                    ref = Model(c, c['lrs'])
                    i = 0
                    tr.probe('restarted')
                continue
            i += 1

    def compare(self, opt, sch, ref, c, i, tr):
        tr.checks += 1
        lrs = [float(g['lr']) for g in opt.param_groups]
        tr.log('epoch', i, lrs, sch.has_convergence_been_reached())
        tr.state(c['mode'], c['tmode'], c['patience'], c['cooldown'], ref.bad, ref.cool, ref.converged)
        for a, b in zip(lrs, ref.lrs):
            if abs(a - b) > 1e-12 * max(1.0, abs(b)):
                raise Violation('learning-rate-differs', 'after operation {}: learning rates {} instead of {} (settings {})'.format(i, lrs, ref.lrs, c))
        if bool(sch.has_convergence_been_reached()) != ref.converged:
            raise Violation('convergence-differs', 'after operation {}: {} instead of {} (settings {})'.format(
                i, sch.has_convergence_been_reached(), ref.converged, c))
