"""
Worlds that drive one shooting block through seeded histories of operations and faults
(C08 interleaved backward passes, C09 history independence, C10 aborted passes, C13 norm penalty, C19 batch composition).
"""
import io
from collections import defaultdict

import torch

from sim import nsmodel as nm
from sim.core import World, Violation, SimCrash, tensor_sig
from sim.lines import LineFault, caused_by

import neuro_shooting.shooting_hooks as sh

EXC = {'RuntimeError': RuntimeError, 'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'OSError': OSError,
       'SimCrash': SimCrash}

TVECS = [[0.0, 1.0], [0.0, 0.5, 1.0], [0.0, 0.25, 0.5, 2.0], [0.5, 1.0], [0.25, 0.5, 0.75], [1.0, 0.5, 0.0], [0.0, 0.5],
         [0.0, 0.5, 1.0, 1.5], [1.0, 0.0]]


def gen_time_op(rng):
    if rng.random() < 0.5:
        return {'op': 'time', 'T': rng.choice([0.5, 1.0, 1.0, 1.5, 2.0])}
    return {'op': 'tvec', 't': rng.choice(TVECS)}


def with_echo(rng, ops, p=0.2, kinds=('time', 'tvec', 'analytic', 'perturb', 'forward', 'batch', 'abort', 'fwd_x')):
    """Histories that return to what they did before: inserts copies of earlier operations, and there-and-back setting changes."""
    out = []
    for o in ops:
        out.append(o)
        if rng.random() < p:
            old = [e for e in out if e['op'] in kinds]
            if old:
                out.append(dict(rng.choice(old)))
    f = [n for n, o in enumerate(out) if o['op'] in ('forward', 'batch')]
    if rng.random() < 1.5 * p and f and any(k in ('time', 'tvec') for k in kinds):
        n = rng.choice(f)
        a, b = gen_time_op(rng), gen_time_op(rng)
        use = dict(out[n])
        out[n:n] = [a] + ([use] if rng.random() < 0.7 else []) + [b] + ([use] if rng.random() < 0.4 else []) + [dict(a)]
    return out


class FaultHook(object):
    """Raises at the k-th evaluation of the right hand side (installed through the public hook interface)."""

    def __init__(self, tr, at, exc):
        self.tr, self.left, self.exc, self.fired = tr, at, exc, False

    def __call__(self, *a):
        if self.left == 0 and not self.fired:
            self.fired = True
            raise EXC[self.exc]('injected')
        self.left -= 1


def run_with_fault(tr, integrands, fn, at, exc):
    """Run fn with a fault at the at-th evaluation of any of the integrands (or before line -at, if negative); did it fire?"""
    if at < 0:
        e0 = EXC[exc]('injected')
        lf = LineFault(-at, e0)
        try:
            with lf:
                fn()
        except BaseException as e:
            if not lf.fired or not caused_by(e, e0):
                raise
            tr.fault('abort-at-line-' + exc)
            return True
        return False
    fh = FaultHook(tr, at, exc)
    hs = [i.register_lagrangian_gradient_hook(fh) for i in integrands]
    try:
        fn()
    except EXC[exc] as e:
        if not fh.fired or 'injected' not in str(e):
            raise
        tr.fault('abort-' + exc)
    finally:
        for h in hs:
            h.remove()
    return fh.fired


class Counter(object):
    def __init__(self, tr):
        self.tr = tr

    def __call__(self, module, t, *a):
        self.tr.sim_steps += 1
        self.tr.log('rhs', '{:.6f}'.format(float(t)))


class BlockSim(object):

    def __init__(self, plan, tr, count=True, zero_states=False):
        self.plan, self.tr = plan, tr
        self.c = plan['cfg']
        self.zero_states = zero_states
        self.block = nm.make_block(self.c, zero_states=zero_states)
        self.analytic = self.c['analytic']
        self.T = self.c['T'] if self.c.get('explicit_T') else 1.0
        self.T_build = self.T
        self.tvec = None
        self.ref = nm.Ref(self.c, T_build=self.T_build)
        self.hooks = []
        self.rec = defaultdict(list)
        if count:
            self.block.shooting_integrand.register_lagrangian_gradient_hook(Counter(tr))

    # --- times -------------------------------------------------------------------------------------------------------
    def times(self):
        if self.tvec is not None:
            return torch.tensor(self.tvec)
        return torch.tensor([0.0, self.T]).float()

    def apply_times(self, block):
        if self.tvec is not None:
            block.set_integration_time_vector(torch.tensor(self.tvec), suppress_warning=True)
        else:
            block.set_integration_time(self.T)

    # --- oracle ------------------------------------------------------------------------------------------------------
    def twin(self, vals=None):
        """A freshly constructed block with the same parameter values and settings, but without any history."""
        # without particles: same seed, as the adaptive error norm includes the unused, randomly initialised particles
        b = nm.make_block(self.c, seed=self.c['seed'] + (0 if self.c['mode'].startswith('pf') else 7919), zero_states=self.zero_states)
        nm.set_values(b, vals if vals is not None else nm.values(self.block))
        if self.analytic != self.c['analytic']:
            b.shooting_integrand.use_analytic_solution = self.analytic
        if self.tvec is not None or self.T != self.T_build:
            self.apply_times(b)
        return b

    def ref_cfg_integrator(self):
        return nm.direct_integrator(self.c['integrator'])

    def ref_params(self, params):
        p = dict(params)
        if self.zero_states and not self.c['mode'].startswith('pf'):
            for k in nm.state_names(self.c):
                p[k] = torch.zeros_like(p['p_' + k])
        return p

    def reference(self, params, x):
        params = self.ref_params(params)
        data = nm.initial_data(self.c, params, x)
        return self.ref.run(params, data, self.times(), integrator=self.ref_cfg_integrator())

    def exact_reference(self):
        """Does the plain reference integration take exactly the steps that the block takes?"""
        return self.c['integrator']['strategy'] in ('direct', 'adjoint')

    def compare_outputs(self, out, other, what, rtol=1e-9, atol=1e-11):
        res, st, co, da = out
        res2, st2, co2, da2 = other
        self.tr.checks += 1
        pairs = [('result', res, res2)]
        pairs += [('data.' + k, da[b][k], da2[b][k]) for b in da2 for k in da2[b]]
        if not self.c['mode'].startswith('pf'):
            pairs += [('state.' + k, st[b][k], st2[b][k]) for b in st2 for k in st2[b]]
            pairs += [('costate.' + k, co[b][k], co2[b][k]) for b in co2 for k in co2[b]]
        if what == 'reference' and nm.blown([b for _, _, b in pairs]):
            self.tr.probe('reference-blown-up')
            return
        for n, a, b in pairs:
            ok, why = nm.close(a, b, rtol, atol)
            if not ok:
                raise Violation('forward-differs-' + what, '{}: {} (time {}, cfg {})'.format(n, why, self.tvec or self.T, self.c))

    def check_forward(self, x, out, vals):
        twin = self.twin(vals)
        with torch.no_grad():
            o2 = twin(x=x)
        self.compare_outputs(out, o2, 'fresh-twin', rtol=1e-10)
        if self.exact_reference():
            r = self.reference(vals, x)
            last = (lambda v: v) if self.tvec is not None else (lambda v: v[-1])
            name = 'block'
            o3 = (last(r['d']['q1']),
                  {name: {k: last(v) for k, v in r['q'].items()}},
                  {name: {'p_' + k: last(v) for k, v in r['p'].items()}},
                  {name: {k: last(v) for k, v in r['d'].items()}})
            # costate keys of the block carry the prefix p_
            loose = 1e-9
            if self.c['integrator']['name'] == 'dopri5':
                loose = 1e-3 if self.c['mode'] != 'pf_td' else 1e-2
            self.compare_outputs(self.rename(out), self.rename(o3), 'reference', rtol=loose, atol=1e-10)
            self.tr.probe('reference-compared')

    @staticmethod
    def rename(out):
        """Structure independent of the key names used for costates and data: sorted order."""
        res, st, co, da = out

        def norm(d):
            return {'b': {str(i): d[b][k] for b in d for i, k in enumerate(sorted(d[b]))}}
        return res, norm(st), norm(co), norm(da)

    # --- operations --------------------------------------------------------------------------------------------------
    def forward(self, seed, batch, grad=True):
        x = nm.data_of(self.c, seed, batch)
        vals = nm.values(self.block)
        if grad:
            out = self.block(x=x)
        else:
            with torch.no_grad():
                out = self.block(x=x)
        t = self.times()
        self.tr.sim_time += float((t[1:] - t[:-1]).abs().sum())
        self.tr.log('forward', batch, tensor_sig(out[0]))
        self.tr.state(self.c['model'], self.c['mode'], self.c['integrator']['strategy'], self.analytic, batch, str(self.tvec or self.T), len(self.hooks))
        return x, vals, out

    def aborted(self, fn, at, exc):
        return run_with_fault(self.tr, [self.block.shooting_integrand], fn, at, exc)

    def record(self, *a):
        try:
            return sh.parameter_evolution_hook(*a)
        except torch.linalg.LinAlgError:
            self.tr.probe('no-singular-values')      # the parameters are not finite any more

    def misc(self, o):
        """Operations without an oracle of their own that must not influence later passes."""
        k = o['op']
        b = self.block
        if k == 'time':
            self.T, self.tvec = o['T'], None
            self.apply_times(b)
        elif k == 'tvec':
            self.tvec = o['t']
            self.apply_times(b)
        elif k == 'perturb':
            nm.perturb(b, o['seed'])
        elif k == 'hook_add':
            if o['kind'] == 'record':
                b.shooting_integrand.set_custom_hook_data(self.rec)
                h = self.record if self.c['model'] not in nm.CONV else (lambda *a: None)
            elif o['kind'] == 'rng':
                h = lambda *a: torch.randn(3)
            else:
                h = lambda *a: None
            self.hooks.append(b.shooting_integrand.register_lagrangian_gradient_hook(h))
        elif k == 'hook_del':
            if self.hooks:
                self.hooks.pop(o['which'] % len(self.hooks)).remove()
        elif k == 'rng':
            torch.randn(o['n'])
        elif k == 'move':
            if o['how'] == 'to':
                b.to('cpu')
            elif o['how'] == 'dtype':
                b.to(torch.get_default_dtype())
            else:
                b.double() if torch.get_default_dtype() == torch.float64 else b.float()
        elif k == 'train':
            b.train(o['on'])
        elif k == 'analytic':
            if self.c['model'] in nm.ANALYTIC and self.c['mode'] != 'rnn':
                b.shooting_integrand.use_analytic_solution = o['on']
                self.analytic = o['on']
        elif k == 'reload':
            buf = io.BytesIO()
            torch.save(b.state_dict(), buf)
            nm.perturb(b, o['seed'], scale=1.0)
            buf.seek(0)
            b.load_state_dict(torch.load(buf))
        elif k == 'step':
            x, vals, out = self.forward(o['seed'], o['batch'])
            loss = out[0].pow(2).mean()
            opt = torch.optim.SGD(b.parameters(), lr=0.05)
            opt.zero_grad()
            loss.backward()
            for p in b.parameters():
                if p.grad is not None:
                    p.grad.nan_to_num_(0.0, 1.0, -1.0).clamp_(-1, 1)
            opt.step()
        elif k == 'zero_grad':
            b.zero_grad()
        else:
            return False
        self.tr.log(k)
        return True


def gen_misc(rng, kinds):
    k = rng.choice(kinds)
    if k == 'time':
        return gen_time_op(rng)
    if k == 'perturb':
        return {'op': 'perturb', 'seed': rng.randrange(10 ** 6)}
    if k == 'hook_add':
        return {'op': 'hook_add', 'kind': rng.choice(['record', 'rng', 'null'])}
    if k == 'hook_del':
        return {'op': 'hook_del', 'which': rng.randrange(3)}
    if k == 'rng':
        return {'op': 'rng', 'n': rng.choice([1, 7])}
    if k == 'move':
        return {'op': 'move', 'how': rng.choice(['to', 'dtype', 'apply'])}
    if k == 'train':
        return {'op': 'train', 'on': rng.random() < 0.5}
    if k == 'analytic':
        return {'op': 'analytic', 'on': rng.random() < 0.5}
    if k == 'reload':
        return {'op': 'reload', 'seed': rng.randrange(10 ** 6)}
    if k == 'step':
        return {'op': 'step', 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3, 5])}
    raise KeyError(k)


MISC = ['time', 'time', 'perturb', 'hook_add', 'hook_del', 'rng', 'move', 'train', 'analytic', 'reload', 'step']


def fwd(rng):
    return {'op': 'forward', 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 1, 2, 3, 5]), 'grad': rng.random() < 0.7}


def abort_op(rng):
    return {'op': 'abort', 'phase': rng.choice(['forward', 'forward', 'backward']), 'seed': rng.randrange(10 ** 6),
            'batch': rng.choice([1, 2, 4]), 'at': rng.choice([0, 0, 1, 2, 3, 5, 9, -rng.randint(1, 60), -rng.randint(1, 600), -rng.randint(1, 6000)]),
            'exc': rng.choice(['RuntimeError', 'MemoryError', 'KeyboardInterrupt', 'OSError', 'SimCrash']),
            'delay': rng.random() < 0.3}


def simplify_cfg(plan):
    """Simpler configurations, for minimisation."""
    c = plan['cfg']
    for k, v in (('nl', 'tanh'), ('weight', None), ('infl', 1), ('D', 1), ('N', 1), ('init', None), ('analytic', False)):
        if c.get(k) != v and not (k in ('N', 'D') and 'more' in plan):
            d = dict(c)
            d[k] = v
            yield dict(plan, cfg=d)
    i = c['integrator']
    if i['strategy'] != 'direct':
        d = dict(c)
        d['integrator'] = nm.direct_integrator(i)
        yield dict(plan, cfg=d)
    for n in range(len(plan.get('more', ())) - 1):
        yield dict(plan, more=plan['more'][:-1])
    for n, o in enumerate(plan['ops']):
        if o.get('batch', 1) > 1:
            ops = list(plan['ops'])
            ops[n] = dict(o, batch=1)
            yield dict(plan, ops=ops)
        if o.get('at', 0) < 0:
            ops = list(plan['ops'])
            ops[n] = dict(o, at=2)
            yield dict(plan, ops=ops)
        if o.get('at', 0) > 0:
            ops = list(plan['ops'])
            ops[n] = dict(o, at=o['at'] // 2)
            yield dict(plan, ops=ops)


REAL = ['shooting blocks', 'shooting integrands and models', 'generic integrator', 'parameter initialisation', 'torch autograd',
        'torchdiffeq solvers', 'torch checkpointing']


class BlockWorld(World):
    real = REAL
    stub = ['training data (seeded tensors)']
    assumptions = ['CPU, double precision; single thread per run', 'torch and torchdiffeq are trusted']

    def simplify(self, plan):
        return simplify_cfg(plan)

    def nontrivial(self, plan, res):
        return res['sim_steps'] > 0 and len(plan['ops']) >= 2


# ======================================================================================================================

class HistoryWorld(BlockWorld):
    pid = 'C09'
    quick_runs = 420
    thorough_runs = 12000
    rule = ('one seeded configuration (model, dimensions, parameterisation mode, integrator, checkpointing strategy) and one '
            'seeded history of 3-9 operations (passes, setting changes, aborted passes, corrupted input, repetitions of earlier operations); after every forward pass all outputs are compared with a fresh twin block and '
            'with the reference model; non-trivial: at least two operations and one right hand side evaluation; distinct: '
            'different event-log digests')

    def gen(self, rng, tier):
        cfg = nm.transposed(rng, nm.sample_cfg(rng))
        ops = []
        for _ in range(rng.randint(3, 6 if tier == 'quick' else 9)):
            r = rng.random()
            if r < 0.42:
                ops.append(fwd(rng))
            elif r < 0.5:
                ops.append(abort_op(rng))
            elif r < 0.56:
                ops.append({'op': 'garbage', 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 4]),
                            'value': rng.choice(['nan', 'inf', '1e30'])})
            else:
                ops.append(gen_misc(rng, MISC))
        ops.append(fwd(rng))
        return {'cfg': cfg, 'ops': with_echo(rng, ops, 0.25)}

    def fixed_plans(self, tier):
        return [{'scenario': 'optimal-transport', 'weight': w, 'cfg': {}, 'ops': []} for w in (0.5, 0.25)]

    def optimal_transport(self, plan, tr):
        """The only model whose parameters are found by an iteration; it has no reference solution, but must be a function."""
        torch.manual_seed(plan['weight'] == 0.5)
        m = nm.sm.AutoShootingOptimalTransportSimple(in_features=2, nonlinearity='tanh', nr_of_particles=4, particle_dimension=1,
                                                     particle_size=2, parameter_weight=plan['weight'])
        b = nm.sb.ShootingBlockBase(name='block', shooting_integrand=m, integrator_name='rk4', integrator_options={'step_size': 0.25})
        x = torch.randn(3, 1, 2)
        with torch.no_grad():
            first, second = b(x=x)[0], b(x=x)[0]
        tr.checks += 1
        tr.log('optimal-transport', tensor_sig(first))
        ok, why = nm.close(first, second, 1e-10, 1e-12)
        if not ok:
            raise Violation('pass-not-repeatable', 'the same pass of an unchanged block gives another result: ' + why, scenario=plan['scenario'])

    def run(self, plan, tr, scratch):
        if plan.get('scenario') == 'optimal-transport':
            return self.optimal_transport(plan, tr)
        s = BlockSim(plan, tr)
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'forward':
                x, vals, out = s.forward(o['seed'], o['batch'], o['grad'])
                s.check_forward(x, out, vals)
                after = nm.values(s.block)
                for k in vals:
                    if not nm.same_bits(vals[k], after[k]):
                        raise Violation('forward-changes-parameters', k)
            elif o['op'] == 'abort':
                x = nm.data_of(s.c, o['seed'], o['batch'])
                if o['phase'] == 'forward':
                    s.aborted(lambda: s.block(x=x), o['at'], o['exc'])
                else:
                    out = s.block(x=x)
                    s.aborted(lambda: out[0].pow(2).sum().backward(), o['at'], o['exc'])
                    s.block.zero_grad()
            elif o['op'] == 'garbage':
                x = nm.data_of(s.c, o['seed'], o['batch'])
                x[0] = float(o['value'])
                try:
                    s.block(x=x)
                except AssertionError:
                    if s.c['integrator']['name'] != 'dopri5':
                        raise
                tr.fault('corrupted-sample-' + o['value'])
            else:
                s.misc(o)


class AbortWorld(BlockWorld):
    pid = 'C10'
    quick_runs = 360
    thorough_runs = 10000
    rule = ('history of forward passes, setting changes and aborts; an abort is an exception (RuntimeError, MemoryError, '
            'KeyboardInterrupt, OSError, simulated kill) raised at a seeded right hand side evaluation of a forward or backward '
            'pass, or an input of wrong size; every later pass is compared with a fresh twin and the reference model, its '
            'gradient with the gradient of the twin; non-trivial: at least one abort fired')

    def gen(self, rng, tier):
        cfg = nm.transposed(rng, nm.sample_cfg(rng))
        ops = []
        if rng.random() < 0.4:
            ops.append(abort_op(rng))     # abort of the very first pass
        for _ in range(rng.randint(2, 4 if tier == 'quick' else 7)):
            r = rng.random()
            if r < 0.4:
                ops.append(abort_op(rng))
                if rng.random() < 0.5:
                    ops.append(gen_misc(rng, ['perturb', 'perturb', 'time', 'reload']))
            elif r < 0.5:
                ops.append({'op': 'bad_input', 'seed': rng.randrange(10 ** 6), 'batch': 2})
            elif r < 0.75:
                ops.append(dict(fwd(rng), check_grad=rng.random() < 0.5, grad=True))
            else:
                ops.append(gen_misc(rng, ['time', 'perturb', 'hook_add', 'move', 'step', 'analytic']))
        ops.append(dict(fwd(rng), check_grad=rng.random() < 0.6, grad=True))
        return {'cfg': cfg, 'ops': with_echo(rng, ops)}

    def nontrivial(self, plan, res):
        return sum(res['faults'].values()) > 0

    def run(self, plan, tr, scratch):
        s = BlockSim(plan, tr)
        names = sorted(nm.named(s.block))
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'forward':
                x, vals, out = s.forward(o['seed'], o['batch'], True)
                s.check_forward(x, out, vals)
                if o.get('check_grad'):
                    check_grad_against_twin(s, x, vals, out, tr)
            elif o['op'] == 'abort':
                before = nm.values(s.block)
                x = nm.data_of(s.c, o['seed'], o['batch'])
                if o['phase'] == 'forward':
                    fired = s.aborted(lambda: s.block(x=x), o['at'], o['exc'])
                    if not fired:
                        tr.probe('abort-point-not-reached')
                else:
                    out = s.block(x=x)
                    fired = s.aborted(lambda: out[0].pow(2).sum().backward(), o['at'], o['exc'])
                    if fired:
                        tr.probe('abort-in-backward')
                    s.block.zero_grad()
                after = nm.values(s.block)
                if sorted(after) != names:
                    raise Violation('abort-changes-registry', '{} -> {}'.format(names, sorted(after)))
                for k in before:
                    if not nm.same_bits(before[k], after[k]):
                        raise Violation('abort-changes-parameters', k)
            elif o['op'] == 'bad_input':
                c = s.c
                g = torch.Generator().manual_seed(o['seed'])
                shape = (2, c['D'] + 1, c.get('P', 1)) if c.get('tr') else (2, c.get('P', 1), c['D'] + 1) if c['model'] not in nm.CONV else (2, c['D'] + 1, c['S'], c['S'])
                try:
                    s.block(x=torch.randn(shape, generator=g))
                except (RuntimeError, ValueError):
                    tr.fault('bad-input')
            else:
                s.misc(o)


def loss_of(out, seed):
    res = out[0]
    g = torch.Generator().manual_seed(seed)
    w = torch.randn(res.shape, generator=g)
    return (w * res).sum() + 0.3 * res.pow(2).mean()


def grads_of(block, loss):
    for p in block.parameters():
        p.grad = None
    loss.backward()
    return {k: (None if p.grad is None else p.grad.clone()) for k, p in block.named_parameters()}


def compare_grads(g1, g2, what, rtol, atol, info=''):
    for k in g2:
        a, b = g1.get(k), g2[k]
        if b is None and a is None:
            continue
        if a is None:
            a = torch.zeros_like(b)
        if b is None:
            b = torch.zeros_like(a)
        ok, why = nm.close(a, b, rtol, atol)
        if not ok:
            raise Violation('gradient-differs-' + what, '{}: {} {}'.format(k, why, info))


def check_grad_against_twin(s, x, vals, out, tr, lseed=11):
    g = grads_of(s.block, loss_of(out, lseed))
    tr.checks += 1
    twin = s.twin(vals)
    g2 = grads_of(twin, loss_of(twin(x=x), lseed))
    compare_grads(g, g2, 'fresh-twin', 1e-9, 1e-11, 'cfg {}'.format(s.c))
    s.block.zero_grad()
    for k in sorted(g):
        tr.log('grad', k, tensor_sig(g[k]))


class InterleavedBackwardWorld(BlockWorld):
    pid = 'C08'
    quick_runs = 300
    thorough_runs = 9000
    rule = ('forward passes with different batches, time settings and inputs requiring gradients are kept pending while other '
            'forward passes, backward passes, setting changes and aborts run; pending backward passes are executed in a seeded '
            'order (possibly twice with a retained graph) and every parameter and input gradient is compared with that of a '
            'fresh twin that executed only this forward/backward pair (single blocks, and chains of blocks with data of different dimensions), and with differentiation through the reference model for '
            'plain integration; non-trivial: a backward pass ran after another forward pass')

    def gen_chained(self, rng, tier):
        from sim.worlds.multi import gen_chain, chain_abort
        plan = gen_chain(rng, tier)
        ops, pending, nf = [], [], 0
        for _ in range(rng.randint(3, 5 if tier == 'quick' else 9)):
            r = rng.random()
            if r < 0.5 or nf == 0:
                ops.append({'op': 'fwd', 'id': nf, 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3]), 'lead': rng.choice([None, None, 2])})
                pending.append(nf)
                nf += 1
            elif r < 0.75 and pending:
                ops.append({'op': 'bwd', 'id': pending.pop(rng.randrange(len(pending))), 'lseed': rng.randrange(1000)})
            else:
                ops.append(chain_abort(rng))
        rng.shuffle(pending)
        ops += [{'op': 'bwd', 'id': i, 'lseed': rng.randrange(1000)} for i in pending]
        return dict(plan, ops=ops)

    def chained(self, plan, tr):
        from sim.worlds.multi import ChainSim, chain_data
        s = ChainSim(plan, tr)
        pend, last = {}, None
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'fwd':
                x = chain_data(s.c, o['seed'], o['batch'], o['lead']).requires_grad_(True)
                out = s.forward(x)
                pend[o['id']] = (x, out)
                last = o['id']
                tr.log('fwd', tensor_sig(out[-1][0]))
            elif o['op'] == 'bwd' and o['id'] in pend:
                x, out = pend.pop(o['id'])
                if last != o['id']:
                    tr.probe('backward-after-other-forward')
                for _, p in s.params():
                    p.grad = None
                loss_of(out[-1], o['lseed']).backward()
                g = {k: (None if p.grad is None else p.grad.clone()) for k, p in s.params()}
                g['x'] = x.grad
                tr.log('bwd', *[tensor_sig(g[k]) for k in sorted(g) if g[k] is not None])
                tr.checks += 1
                info = '(data {}, cfg {}, chain {})'.format(tuple(x.shape), s.c, plan['more'])
                vals = s.values()
                x2 = x.detach().clone().requires_grad_(True)
                twin = s.twin(vals, x2)
                loss_of(twin.forward(x2)[-1], o['lseed']).backward()
                g2 = dict({k: p.grad for k, p in twin.params()}, x=x2.grad)
                compare_grads(g, g2, 'fresh-twin', 1e-9, 1e-11, info)
                if s.c['integrator']['strategy'] == 'direct':
                    P = [nm.leaf_copy(v) for v in vals]
                    x3 = x.detach().clone().requires_grad_(True)
                    loss_of((s.reference(P, x3)[-1]['d']['q1'][-1],), o['lseed']).backward()
                    g3 = dict({'b{}.{}'.format(i, k): v.grad for i, q in enumerate(P) for k, v in q.items()}, x=x3.grad)
                    compare_grads(g, g3, 'reference', 1e-8, 1e-9, info)
                    tr.probe('gradient-of-chain-vs-reference')
                tr.state('chain', s.c['model'], s.c['integrator']['strategy'], len(plan['more']), x.dim())
            elif o['op'] == 'abort':
                s.aborted(lambda: s.forward(chain_data(s.c, o['seed'], o['batch'])), o['at'], o['exc'])

    def gen(self, rng, tier):
        if rng.random() < 0.2:
            return self.gen_chained(rng, tier)
        cfg = nm.transposed(rng, nm.sample_cfg(rng, T=(0.5, 1.0)))
        ops = []
        nf = 0
        pending = []
        for _ in range(rng.randint(4, 7 if tier == 'quick' else 11)):
            r = rng.random()
            if r < 0.45 or nf == 0:
                ops.append({'op': 'fwd', 'id': nf, 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3, 5])})
                pending.append(nf)
                nf += 1
            elif r < 0.75 and pending:
                i = rng.choice(pending)
                keep = rng.random() < 0.25 and cfg['integrator']['strategy'] == 'direct'
                if not keep:
                    pending.remove(i)
                ops.append({'op': 'bwd', 'id': i, 'retain': keep, 'lseed': rng.randrange(1000)})
            elif r < 0.85:
                ops.append(gen_time_op(rng))
            elif r < 0.92:
                ops.append(abort_op(rng))
            else:
                ops.append(gen_misc(rng, ['rng', 'hook_add', 'train', 'move']))
        rng.shuffle(pending)
        for i in pending:
            ops.append({'op': 'bwd', 'id': i, 'retain': False, 'lseed': rng.randrange(1000)})
        return {'cfg': cfg, 'ops': ops}

    def nontrivial(self, plan, res):
        return res['probes'].get('backward-after-other-forward', 0) > 0

    FIXED = {
        'rnn+checkpoint': {'mode': 'rnn', 'integrator': {'name': 'rk4', 'step': 0.25, 'strategy': 'checkpoint', 'nr': 1}},
        'rnn+adjoint': {'mode': 'rnn', 'integrator': {'name': 'rk4', 'step': 0.25, 'strategy': 'adjoint'}},
        'pf+adjoint': {'mode': 'pf_rnn', 'integrator': {'name': 'rk4', 'step': 0.25, 'strategy': 'adjoint'}},
    }

    def fixed_plans(self, tier):
        out = []
        for n in sorted(self.FIXED):
            cfg = {'model': 'updown', 'nl': 'tanh', 'D': 2, 'N': 3, 'infl': 2, 'weight': None, 'seed': 3, 'mag': 0.5, 'analytic': False,
                   'init': None, 'T': 1.0, 'explicit_T': False}
            cfg.update(self.FIXED[n])
            out.append({'cfg': cfg, 'scenario': n, 'vs_direct': True,
                        'ops': [{'op': 'fwd', 'id': 0, 'seed': 5, 'batch': 2}, {'op': 'bwd', 'id': 0, 'retain': False, 'lseed': 1}]})
        return out

    def run(self, plan, tr, scratch):
        if 'more' in plan:
            return self.chained(plan, tr)
        s = BlockSim(plan, tr)
        pend = {}
        last_fwd = None
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'fwd':
                x = nm.data_of(s.c, o['seed'], o['batch']).requires_grad_(True)
                vals = nm.values(s.block)
                out = s.block(x=x)
                tr.log('fwd', o['id'], tensor_sig(out[0]))
                pend[o['id']] = (x, vals, out, s.T, s.tvec, s.analytic)
                last_fwd = o['id']
                tr.state(s.c['model'], s.c['mode'], s.c['integrator']['strategy'], len(pend), o['batch'], str(s.tvec or s.T))
            elif o['op'] == 'bwd':
                if o['id'] not in pend:
                    continue
                x, vals, out, T, tvec, an = pend[o['id']]
                if last_fwd != o['id']:
                    tr.probe('backward-after-other-forward')
                loss = loss_of(out, o['lseed'])
                for p in s.block.parameters():
                    p.grad = None
                x.grad = None
                scen = plan.get('scenario')
                try:
                    loss.backward(retain_graph=o['retain'])
                except RuntimeError as e:
                    if scen is None:
                        raise
                    raise Violation('backward-fails', '{}: {}'.format(scen, e), scenario=scen)
                g = {k: (None if p.grad is None else p.grad.clone()) for k, p in s.block.named_parameters()}
                gx = x.grad.clone()
                tr.log('bwd', o['id'], tensor_sig(gx), *[tensor_sig(g[k]) for k in sorted(g)])
                tr.checks += 1
                cur = (s.T, s.tvec, s.analytic)
                s.T, s.tvec, s.analytic = T, tvec, an
                try:
                    self.oracle(s, plan, x, vals, g, gx, o, scen, tr)
                finally:
                    s.T, s.tvec, s.analytic = cur
                if not o['retain']:
                    del pend[o['id']]
            elif o['op'] == 'abort':
                x = nm.data_of(s.c, o['seed'], o['batch'])
                s.aborted(lambda: s.block(x=x), o['at'], o['exc'])
            else:
                s.misc(o)

    def oracle(self, s, plan, x, vals, g, gx, o, scen, tr):
        x2 = x.detach().clone().requires_grad_(True)
        info = '(batch {}, time {}, cfg {})'.format(x.shape[0], s.tvec or s.T, s.c)
        if not plan.get('vs_direct'):
            twin = s.twin(vals)
            g2 = grads_of(twin, loss_of(twin(x=x2), o['lseed']))
            compare_grads(g, g2, 'fresh-twin', 1e-9, 1e-11, info)
            compare_grads({'x': gx}, {'x': x2.grad}, 'fresh-twin', 1e-9, 1e-11, info)
        if s.c['integrator']['strategy'] == 'direct' or plan.get('vs_direct'):
            P = nm.leaf_copy(vals)
            x3 = x.detach().clone().requires_grad_(True)
            r = s.reference(P, x3)
            res = r['d']['q1'] if s.tvec is not None else r['d']['q1'][-1]
            loss_of((res,), o['lseed']).backward()
            tol = 1e-8 if s.c['integrator']['name'] != 'dopri5' else (1e-3 if s.c['mode'] != 'pf_td' else 2e-2)
            if plan.get('vs_direct'):
                tol = 0.05
            atol = 1e-9
            if s.c['integrator']['name'] == 'dopri5':       # the error is controlled for the whole vector, not for its parts
                atol += 1e-4 * max([float(v.grad.abs().max()) for v in list(P.values()) + [x3] if v.grad is not None and v.grad.numel()])
            try:
                compare_grads(g, {k: v.grad for k, v in P.items()}, 'reference', tol, atol, info)
                compare_grads({'x': gx}, {'x': x3.grad}, 'reference', tol, atol, info)
            except Violation as v:
                if scen is not None:
                    raise Violation(v.kind, v.msg, scenario=scen)
                raise
            tr.probe('gradient-vs-reference')


class PenaltyWorld(BlockWorld):
    pid = 'C13'
    quick_runs = 700
    thorough_runs = 10000
    rule = ('histories of forward passes (different batches, time ranges that start at zero or not, no-gradient passes), '
            'parameter updates, backward passes and aborts; after every forward pass the reported norm penalty (and its '
            'gradient) is compared with 1/2 sum w theta^2 of the reference model for this pass; a pass that did not start at '
            'time zero may report nothing but not the penalty of an earlier pass')

    def gen(self, rng, tier):
        cfg = nm.weighted(rng, nm.sample_cfg(rng, models=nm.VECTOR + ['universal', 'universal', 'conv', 'convupdown']))
        ops = []
        for _ in range(rng.randint(2, 5 if tier == 'quick' else 9)):
            r = rng.random()
            if r < 0.45:
                ops.append(dict(fwd(rng), pgrad=rng.random() < 0.5, bwd=rng.random() < 0.3))
            elif r < 0.6:
                ops.append(abort_op(rng))
            else:
                ops.append(gen_misc(rng, ['time', 'time', 'perturb', 'step', 'reload', 'analytic', 'hook_add', 'move', 'train', 'train']))
        ops.append(dict(fwd(rng), pgrad=rng.random() < 0.5, bwd=False))
        if rng.random() < 0.3:          # a pass that reports a penalty, then one that does not start at zero
            if rng.random() < 0.6:
                ops.append(gen_misc(rng, ['train', 'train', 'analytic', 'hook_add', 'move']))
            t = rng.choice([[0.25, 1.0], [0.5, 0.75, 1.0], [1.0, 0.5]])
            ops += [{'op': 'tvec', 't': t}, dict(fwd(rng), pgrad=False, bwd=False)]
        return {'cfg': cfg, 'ops': with_echo(rng, ops)}

    def run(self, plan, tr, scratch):
        s = BlockSim(plan, tr)
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'forward':
                x, vals, out = s.forward(o['seed'], o['batch'], o['grad'])
                self.check(s, x, vals, out, o, tr)
            elif o['op'] == 'abort':
                x = nm.data_of(s.c, o['seed'], o['batch'])
                if o['phase'] == 'forward':
                    s.aborted(lambda: s.block(x=x), o['at'], o['exc'])
                else:
                    out = s.block(x=x)
                    s.aborted(lambda: out[0].pow(2).sum().backward(), o['at'], o['exc'])
                    s.block.zero_grad()
            else:
                s.misc(o)

    def check(self, s, x, vals, out, o, tr):
        c = s.c
        starts = float(s.times()[0])
        pen = s.block.get_norm_penalty()
        tr.checks += 1
        touches_zero = 0.0 in [float(v) for v in s.times()]
        if starts != 0.0:
            tr.probe('pass-not-starting-at-zero')
            if touches_zero:
                return      # a pass that runs backward to zero: not specified
            if pen is not None:
                raise Violation('stale-penalty', 'a pass over {} reports penalty {}'.format(s.tvec, pen))
            return
        if pen is None:
            raise Violation('penalty-missing', 'time {} cfg {}'.format(s.tvec or s.T, c))
        P = nm.leaf_copy(vals)
        pp = s.ref_params(P)
        if c['mode'].startswith('pf'):
            n = c['steps'] if c['mode'] == 'pf_td' else 1
            want = sum(nm.penalty(c, nm.pf_theta(c, pp, k)) for k in range(n)) / n
        else:
            q = {k: pp[k] for k in nm.state_names(c)}
            p = {k: pp['p_' + k] for k in nm.state_names(c)}
            want = nm.penalty(c, nm.theta_star(c, q, p))
        if pen.numel() != 1:
            raise Violation('penalty-not-scalar', str(tuple(pen.shape)))
        ok, why = nm.close(pen.detach().reshape(()), want.detach().reshape(()), 1e-9, 1e-12)
        if not ok:
            raise Violation('penalty-differs', '{} (got {}, expected {}, time {}, cfg {})'.format(why, pen, want, s.tvec or s.T, c))
        tr.log('penalty', tensor_sig(pen))
        if o.get('pgrad') and o['grad']:
            g = {}
            names = sorted(nm.named(s.block))
            ps = [nm.named(s.block)[k] for k in names]
            gs = torch.autograd.grad(pen.sum(), ps, allow_unused=True, retain_graph=True)
            g = dict(zip(names, gs))
            gw = torch.autograd.grad(want, [P[k] for k in names], allow_unused=True)
            compare_grads(g, dict(zip(names, gw)), 'penalty-reference', 1e-8, 1e-11, 'cfg {}'.format(c))
            tr.probe('penalty-gradient')
        if o.get('bwd') and o['grad']:
            (out[0].pow(2).sum() + s.block.get_norm_penalty().sum()).backward()
            s.block.zero_grad()
            tr.probe('backward-with-penalty')


class BatchWorld(BlockWorld):
    pid = 'C19'
    quick_runs = 500
    thorough_runs = 9000
    rule = ('a pool of samples is processed in a seeded sequence of batches of different composition, order and size, interleaved '
            'with setting changes and aborts, some with corrupted (non-finite, huge) samples; the result of a sample (and the particle trajectories) must not depend on the batch '
            'it was processed in; non-trivial: at least one sample was seen in two different batches')

    def gen(self, rng, tier):
        cfg = nm.transposed(rng, nm.sample_cfg(rng))
        pool = rng.randint(3, 6)
        ops = []
        for _ in range(rng.randint(3, 6 if tier == 'quick' else 10)):
            r = rng.random()
            if r < 0.75:
                k = rng.randint(1, pool)
                o = {'op': 'batch', 'idx': [rng.randrange(pool) for _ in range(k)], 'grad': rng.random() < 0.5}
                if rng.random() < 0.25:     # corrupted samples in the batch: [position, value]
                    o['bad'] = [[rng.randrange(k), rng.choice(['nan', 'inf', '1e30'])] for _ in range(rng.choice([1, 1, 2]))]
                ops.append(o)
            elif r < 0.85:
                ops.append(abort_op(rng))
            else:
                ops.append(gen_misc(rng, ['hook_add', 'train', 'rng', 'move', 'time']))
        ops.append({'op': 'batch', 'idx': list(range(pool)), 'grad': False})
        return {'cfg': cfg, 'ops': with_echo(rng, ops), 'pool': pool, 'pool_seed': rng.randrange(10 ** 6)}

    def nontrivial(self, plan, res):
        return res['probes'].get('sample-seen-again', 0) > 0

    def run(self, plan, tr, scratch):
        s = BlockSim(plan, tr)
        xs = nm.data_of(s.c, plan['pool_seed'], plan['pool'])
        seen = {}
        adaptive = s.c['integrator']['name'] == 'dopri5'
        rtol = 1e-4 if adaptive else 1e-10
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'batch':
                x = xs[o['idx']].clone()
                bad = set()
                for pos, v in o.get('bad', []):
                    if pos < len(o['idx']):
                        x[pos] = float(v)
                        bad.add(pos)
                        tr.fault('corrupted-sample-' + v)
                try:
                    with torch.set_grad_enabled(o['grad']):
                        res, st, co, da = s.block(x=x)
                except AssertionError:
                    if not (bad and adaptive):
                        raise
                    tr.fault('adaptive-solver-gave-up')      # step size underflow because of the corrupted sample
                    continue
                if bad and adaptive:
                    continue            # the step sizes are common to all samples
                key = str(s.tvec or s.T)
                tdim = 1 if s.tvec is not None else 0
                if res.shape[tdim] != len(o['idx']):
                    raise Violation('batch-size', '{} samples in, {} results out'.format(len(o['idx']), res.shape[tdim]))
                tr.log('batch', o['idx'], tensor_sig(res))
                tr.state(s.c['model'], s.c['mode'], str(o['idx']), key)
                for pos, i in enumerate(o['idx']):
                    if pos in bad:
                        continue
                    r = {'res': res.select(tdim, pos).detach().clone()}
                    for b in da:
                        for k in da[b]:
                            r['data.' + k] = da[b][k].select(tdim, pos).detach().clone()
                    self.same(seen, ('s', i, key), r, rtol, tr, o, s)
                if not s.c['mode'].startswith('pf'):
                    r = {}
                    for nme, d in (('state', st), ('costate', co)):
                        for b in d:
                            for k in d[b]:
                                r[nme + '.' + k] = d[b][k].detach().clone()
                    self.same(seen, ('p', key), r, rtol, tr, o, s)
            elif o['op'] == 'abort':
                s.aborted(lambda: s.block(x=nm.data_of(s.c, o['seed'], o['batch'])), o['at'], o['exc'])
            else:
                s.misc(o)

    def same(self, seen, key, r, rtol, tr, o, s):
        if key not in seen:
            seen[key] = (r, o['idx'])
            return
        old, idx = seen[key]
        tr.checks += 1
        if key[0] == 's' and idx != o['idx']:
            tr.probe('sample-seen-again')
        for k in old:
            ok, why = nm.close(r[k], old[k], rtol, rtol * 0.1 + 1e-11)
            if not ok:
                raise Violation('depends-on-batch', '{} {}: {} (batches {} and {}, cfg {})'.format(key, k, why, idx, o['idx'], s.c))
