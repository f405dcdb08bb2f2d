"""C14: hooks observe the integration without influencing it, and what they recorded stays as it was recorded."""
import copy
from collections import defaultdict

import numpy as np
import torch

import neuro_shooting.shooting_hooks as sh
import neuro_shooting.validation_measures as vm

from sim import nsmodel as nm
from sim.core import Violation, tensor_sig
from sim.worlds.block import BlockWorld, BlockSim, abort_op, gen_misc, grads_of, loss_of, compare_grads


class Probe(object):
    """Observing hook: remembers what it was given (copies and live references)."""

    def __init__(self, log, ident, draw=False, leave=None):
        self.log, self.ident, self.draw = log, ident, draw
        self.leave, self.handle = leave, None       # removes itself in the call with this number

    def __call__(self, module, t, st, co, da, dst, dco, dda, pars, data):
        if self.draw:
            torch.randn(3)
            np.random.rand()
        if self.leave is not None:
            self.leave -= 1
            if self.leave == 0:
                self.handle.remove()
        self.log.append({'id': self.ident, 't': float(t), 'data': data, 'module': module,
                         'theta': {'{}.{}'.format(l, k): v.detach().clone() for l in pars for k, v in pars[l].get_parameter_dict().items()},
                         'y': [[v.detach().clone() for b in d for _, v in sorted(d[b].items())] for d in (st, co, da)],
                         'dot': [[v.detach().clone() for b in d for _, v in sorted(d[b].items())] for d in (dst, dco, dda)]})


class HooksWorld(BlockWorld):
    pid = 'C14'
    quick_runs = 420
    thorough_runs = 12000
    real = BlockWorld.real + ['hook interface', 'parameter evolution recorder', 'complexity measures']
    rule = ('hooks (recorders, observers, observers drawing random numbers, observers that remove themselves) are registered and removed at seeded points of a history of '
            'forward and backward passes, parameter updates and passes aborted by a raising hook; results and gradients are compared '
            'with a block without hooks, the sequence of hook calls with the sequence of evaluations of the reference model, and all '
            'earlier recordings with copies taken when they were made; non-trivial: a hook was active in a forward pass')

    def gen(self, rng, tier):
        cfg = nm.transposed(rng, nm.sample_cfg(rng))
        ops = [{'op': 'add', 'kind': rng.choice(['record', 'probe', 'draw'])}]
        for _ in range(rng.randint(3, 7 if tier == 'quick' else 12)):
            r = rng.random()
            if r < 0.2:
                ops.append({'op': 'add', 'kind': rng.choice(['record', 'record', 'probe', 'draw'])})
            elif r < 0.3:
                ops.append({'op': 'del', 'which': rng.randrange(4), 'twice': rng.random() < 0.3})
            elif r < 0.65:
                ops.append({'op': 'fwd', 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3]), 'bwd': rng.random() < 0.4, 'grad': rng.random() < 0.8})
            elif r < 0.73:
                ops.append(abort_op(rng))
            elif r < 0.77:
                ops.append({'op': 'once', 'calls': rng.choice([1, 1, 2, 5, 30])})
            elif r < 0.8:
                ops.append({'op': 'data', 'kind': rng.choice(['new', 'same'])})
            else:
                ops.append(gen_misc(rng, ['time', 'perturb', 'step', 'move', 'analytic', 'reload']))
        ops.append({'op': 'fwd', 'seed': rng.randrange(10 ** 6), 'batch': 2, 'bwd': False, 'grad': True})
        return {'cfg': cfg, 'ops': ops}

    def nontrivial(self, plan, res):
        return res['probes'].get('forward-with-hooks', 0) > 0

    def run(self, plan, tr, scratch):
        try:
            self.history(plan, tr)
        except torch.linalg.LinAlgError:
            tr.probe('no-singular-values')      # the solution diverged: the recorder has no norms to record

    def history(self, plan, tr):
        s = BlockSim(plan, tr, count=False)
        c = s.c
        m = s.block.shooting_integrand
        active = []         # (ident, kind, handle)
        log = []
        data = None
        stores = []         # all data objects that were ever set, with copies of their contents
        n = 0
        for o in plan['ops']:
            k = o['op']
            tr.op(k)
            if k == 'add':
                kind = o['kind']
                if kind == 'record' and c['model'] in nm.CONV:
                    kind = 'probe'          # the recorder only supports vector-valued evolutions (documented)
                if kind == 'record':
                    if data is None:
                        data = defaultdict(list)
                        m.set_custom_hook_data(data)
                        stores.append(data)
                    h = m.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
                else:
                    h = m.register_lagrangian_gradient_hook(Probe(log, n, kind == 'draw'))
                active.append((n, kind, h))
                n += 1
            elif k == 'once':
                hook = Probe(log, n, leave=o['calls'])
                hook.handle = m.register_lagrangian_gradient_hook(hook)
                active.append((n, hook, hook.handle))
                n += 1
            elif k == 'del':
                if active:
                    _, _, h = active.pop(o['which'] % len(active))
                    h.remove()
                    if o['twice']:
                        h.remove()
            elif k == 'data':
                if o['kind'] == 'new' and data is not None:
                    data = defaultdict(list)
                    m.set_custom_hook_data(data)
                    stores.append(data)
            elif k == 'fwd':
                self.fwd(s, o, active, log, data, tr)
            elif k == 'abort':
                x = nm.data_of(c, o['seed'], o['batch'])
                if o['phase'] == 'forward':
                    s.aborted(lambda: s.block(x=x), o['at'], o['exc'])
                else:
                    out = s.block(x=x)
                    s.aborted(lambda: out[0].pow(2).sum().backward(), o['at'], o['exc'])
                    s.block.zero_grad()
            else:
                s.misc(o)
            active = [a for a in active if not isinstance(a[1], Probe) or a[1].leave > 0]      # left in an aborted or backward pass
            snaps = s.__dict__.setdefault('snaps', {})
            for i, st in enumerate(stores):
                old = snaps.get(i, {})
                for key in old:
                    tr.checks += 1
                    if len(st[key]) < len(old[key]) or any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(old[key], st[key])):
                        raise Violation('recording-changes', '{}: what was recorded earlier changed during {}'.format(key, o))
                snaps[i] = {key: copy.deepcopy(st[key]) for key in st}
        for st in stores:
            self.lengths(st, tr)

    def lengths(self, st, tr):
        if len(st) and len(set(len(v) for v in st.values())) != 1:
            raise Violation('recording-incomplete', str({k: len(v) for k, v in st.items()}))
        tr.log('recorded', len(st.get('t', [])))

    def fwd(self, s, o, active, log, data, tr):
        c = s.c
        x = nm.data_of(c, o['seed'], o['batch'])
        vals = nm.values(s.block)
        del log[:]
        before = {i: kind.leave for i, kind, _ in active if isinstance(kind, Probe)}
        start = len(data['t']) if data is not None and 't' in data else 0
        with torch.set_grad_enabled(o['grad']):
            out = s.block(x=x)
        calls = list(log)
        new = {}
        if data is not None:
            new = {k: list(v[start:]) for k, v in data.items()}
        if active:
            tr.probe('forward-with-hooks')
        tr.log('fwd', tensor_sig(out[0]), len(calls), len(new.get('t', [])))
        tr.state(c['model'], c['mode'], c['integrator']['strategy'], tuple(k if isinstance(k, str) else 'once' for _, k, _ in active))
        calls = self.leaving(active, before, calls, tr)
        # 1. no influence on the results
        twin = s.twin(vals)
        with torch.set_grad_enabled(o['grad']):
            o2 = twin(x=x)
        s.compare_outputs(out, o2, 'no-hooks', rtol=1e-12, atol=1e-13)
        if o['bwd'] and o['grad'] and out[0].requires_grad:
            g = grads_of(s.block, loss_of(out, 3))
            g2 = grads_of(twin, loss_of(o2, 3))
            compare_grads(g, g2, 'no-hooks', 1e-10, 1e-12, 'cfg {}'.format(c))
            s.block.zero_grad()
        # 2. the sequence of evaluations
        evals = None
        if s.exact_reference() and c['integrator']['name'] != 'dopri5':
            evals = []
            P = s.ref_params(vals)
            s.ref.run(P, nm.initial_data(c, P, x), s.times(), integrator=s.ref_cfg_integrator(), record=evals)
            if any(nm.blown(e['y'][a].values()) or nm.blown(e['dot'][a].values()) for e in evals for a in e['dot']):
                evals = None
        probes = [(i, kind) for i, kind, _ in active if isinstance(kind, str) and kind != 'record']
        per = {i: [e for e in calls if e['id'] == i] for i, _ in probes}
        if set(e['id'] for e in calls) - set(per):
            raise Violation('removed-hook-called', 'hooks {} were called, registered are {}'.format(sorted(set(e['id'] for e in calls)), sorted(per)))
        order = [e['id'] for e in calls]
        want = [i for i, _ in probes]
        if want and order != want * (len(order) // len(want)):
            raise Violation('hook-order', 'calls {} for hooks {}'.format(order[:12], want))
        nrec = sum(1 for _, kind, _ in active if isinstance(kind, str) and kind == 'record')
        lens = [len(v) for v in per.values()] + ([len(new.get('t', [])) // nrec] if nrec else [])
        if nrec and len(new.get('t', [])) % nrec:
            raise Violation('hook-calls', 'recorders were called {} times in total'.format(len(new['t'])))
        if nrec == 0 and new.get('t'):
            raise Violation('removed-hook-called', 'a removed recorder recorded')
        if lens and len(set(lens)) != 1:
            raise Violation('hook-calls', 'hooks of the same integration were called {} times'.format(lens))
        if lens and lens[0] == 0:
            raise Violation('hook-calls', 'registered hooks were not called')
        tr.sim_steps += lens[0] if lens else 0
        tr.checks += 1
        for i in per:
            for e in per[i]:
                if e['data'] is not data or e['module'] is not s.block.shooting_integrand:
                    raise Violation('hook-data', 'the hook did not get the custom data that was set')
        if evals is None:
            return
        tr.probe('calls-compared-with-reference')
        if lens and lens[0] != len(evals):
            raise Violation('hook-calls', '{} calls for {} evaluations (cfg {})'.format(lens[0], len(evals), c))
        pf = c['mode'].startswith('pf')
        for i in per:
            for e, r in zip(per[i], evals):
                self.same_eval(e, r, pf, c)
        for j in range(nrec):
            for n, r in enumerate(evals):
                self.same_record({k: v[n * nrec + j] for k, v in new.items()}, r, pf, c)
        if nrec == 1 and data is not None:
            self.complexity(data, new, start, tr)

    def leaving(self, active, before, calls, tr):
        """Hooks that remove themselves are called up to the call in which they do this; the other calls are returned."""
        for i, kind, _ in [a for a in active if isinstance(a[1], Probe)]:
            others = [e['id'] for e in calls if e['id'] != i and e['id'] not in before]
            evals = others.count(others[0]) if others else None
            got = sum(1 for e in calls if e['id'] == i)
            if got > before[i] or (evals is not None and got != min(evals, before[i])) or (evals is None and got == 0):
                raise Violation('hook-calls', 'a hook that removes itself in call {} was called {} times in {} evaluations'.format(before[i], got, evals))
            tr.checks += 1
            if kind.leave <= 0:
                tr.probe('hook-removed-itself')
                active[:] = [a for a in active if a[0] != i]
        return [e for e in calls if e['id'] not in before]

    def expect(self, a, b, what, c):
        a, b = torch.as_tensor(np.asarray(a)), torch.as_tensor(np.asarray(b))
        if a.numel() == b.numel() and 'bias' in what:
            a = a.reshape(b.shape)          # the analytic equations give biases a leading dimension of one
        if a.shape != b.shape:
            raise Violation('recording-differs', '{}: shape {} instead of {}'.format(what, tuple(a.shape), tuple(b.shape)))
        ok, why = nm.close(a, b, 1e-8, 1e-10 if what != 't' else 1e-6)     # times are single precision by default
        if not ok:
            raise Violation('recording-differs', '{}: {} (cfg {})'.format(what, why, c))

    def same_eval(self, e, r, pf, c):
        self.expect(e['t'], r['t'], 't', c)
        if set(e['theta']) != set(r['theta']):
            raise Violation('recording-differs', 'parameters {} instead of {}'.format(sorted(e['theta']), sorted(r['theta'])))
        for k in r['theta']:
            self.expect(e['theta'][k], r['theta'][k], 'parameter ' + k, c)
        for j, a in enumerate('qpd'):
            if pf and a != 'd':
                continue
            for what in ('y', 'dot'):
                ref = [v for _, v in sorted(r[what][a].items())]
                if len(ref) != len(e[what][j]):
                    raise Violation('recording-differs', '{} entries for {}'.format(len(e[what][j]), a))
                for u, v in zip(e[what][j], ref):
                    self.expect(u, v, '{} {}'.format(what, a), c)

    def same_record(self, e, r, pf, c):
        self.expect(e['t'], r['t'], 't', c)
        fro = nuc = spe = en = 0.0
        for k, v in r['theta'].items():
            if k not in e:
                raise Violation('recording-incomplete', k)
            self.expect(e[k], v, k, c)
            en += 0.5 * float((v ** 2).sum())
            if not k.endswith('bias'):
                S = torch.linalg.svdvals(v)
                fro, nuc, spe = fro + float((S ** 2).sum()), nuc + float(S.sum() ** 2), spe + float(S[0] ** 2)
                self.norm(e['sqr_frobenius_norm_' + k], float((S ** 2).sum()), k)
                self.norm(e['sqr_nuclear_norm_' + k], float(S.sum() ** 2), k)
                self.norm(e['sqr_spectral_norm_' + k], float(S[0] ** 2), k)
        self.norm(e['energy'], en, 'energy')
        self.norm(e['sum_sqr_frobenius_norm'], fro, 'frobenius')
        self.norm(e['sum_sqr_nuclear_norm'], nuc, 'nuclear')
        self.norm(e['sum_sqr_spectral_norm'], spe, 'spectral')
        for a, nme in (('q', 'state'), ('p', 'costate'), ('d', 'data')):
            if pf and a != 'd':
                continue
            for k, v in r['y'][a].items():
                kk = 'p_' + k if a == 'p' else k
                self.expect(e['block.{}.{}'.format(nme, kk)], v, kk, c)
                self.expect(e['block.dot_{}.dot_{}'.format(nme, kk)], r['dot'][a][k], 'dot ' + kk, c)

    def norm(self, a, b, what):
        a = float(a)
        if not abs(a - b) <= 1e-7 * max(1.0, abs(b)):
            raise Violation('recorded-norm-differs', '{}: {} instead of {}'.format(what, a, b))

    def complexity(self, data, new, start, tr):
        """Measures over a recording of several passes are the sums of those of the passes."""
        keys = ('t', 'sum_sqr_frobenius_norm', 'sum_sqr_nuclear_norm', 'sum_sqr_spectral_norm')
        if start == 0 or len(new['t']) < 2 or not data['t'][start] <= data['t'][start - 1]:
            return
        with np.errstate(all='ignore'):
            whole = vm.compute_complexity_measures({k: data[k][:start + len(new['t'])] for k in keys})
            a = vm.compute_complexity_measures({k: data[k][:start] for k in keys})
            b = vm.compute_complexity_measures({k: new[k] for k in keys})
        for k in whole:
            if all(np.isfinite(v[k]) for v in (whole, a, b)) and abs(whole[k] - a[k] - b[k]) > 1e-8 * max(1.0, abs(whole[k])):
                raise Violation('complexity-differs', '{}: {} instead of {}+{}'.format(k, whole[k], a[k], b[k]))
        tr.probe('complexity-of-several-passes')
