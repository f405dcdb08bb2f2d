"""C12: what is registered for optimisation (and what is frozen) is stable over the life of a model."""
import io

import torch
import torch.nn as nn

import neuro_shooting.res_net as res_net
import neuro_shooting.utils as utils

from sim import nsmodel as nm
from sim.core import Violation, tensor_sig
from sim.worlds.block import BlockWorld, Counter, gen_time_op, run_with_fault


class Chain(nn.Module):
    """Two blocks: the second one receives the particles of the first one (enlarged if necessary) and has its own."""

    def __init__(self, plan, seed):
        super(Chain, self).__init__()
        c = plan['cfg']
        c2 = dict(c, N=plan['N2'], S=plan['S2'])
        self.b0 = nm.make_block(c, name='b0', in_features=1, particle_dimension=1, seed=seed)
        self.b1 = nm.make_block(c2, name='b1', in_features=2, particle_dimension=1, seed=seed + 5)

    def forward(self, x):
        r = self.b0(x=x)
        return self.b1(pass_through_state_dict_of_dicts=r[1], pass_through_costate_dict_of_dicts=r[2], data_dict_of_dicts=r[3])[0]


class ParameterRegistryWorld(BlockWorld):
    pid = 'C12'
    quick_runs = 300
    thorough_runs = 10000
    real = BlockWorld.real + ['residual network of shooting blocks', 'striding block', 'parameter freezing and counting utilities']
    rule = ('a single block, a chain with enlarged particles or a small residual network runs through a seeded history of parameter '
            'queries, forward passes, aborted forward passes (also the very first ones), freezing, unfreezing, training steps, '
            'storing and restoring; after every operation names, identities, frozen flags and values are compared with a model of '
            'the registry; non-trivial: at least one completed forward pass and two other operations')

    def gen(self, rng, tier):
        kind = rng.choice(['single', 'single', 'single', 'chain', 'chain', 'resnet'])
        if kind == 'single':
            cfg = nm.sample_cfg(rng)
        else:
            cfg = nm.sample_cfg(rng, models=['conv', 'conv', 'convupdown'], modes=('particle',), T=(1.0,), integrators=('fixed',),
                                strategies=('direct', 'direct', 'checkpoint'))
            cfg.update(D=1, explicit_T=False, mag=0.15, T=1.0)
            cfg['integrator']['step'] = 0.5
        plan = {'kind': kind, 'cfg': cfg, 'zero': kind != 'resnet' and rng.random() < 0.2}
        if kind == 'chain':
            plan.update(N2=cfg['N'] + rng.choice([0, 1, 2]), S2=cfg['S'] + rng.choice([0, 1, 2]))
        if kind == 'resnet':
            plan.update(blocks=[rng.choice([1, 2]), rng.choice([1, 2])], psizes=rng.choice([[[4, 4], [3, 3]], [[4, 4], [2, 2]], [[3, 3], [3, 3]]]))
        ops = []
        n = rng.randint(4, 8 if tier == 'quick' else 14)
        for i in range(n):
            k = rng.choice(['query', 'fwd', 'fwd', 'fwd', 'abort', 'freeze', 'freeze', 'unfreeze', 'train', 'train', 'train', 'store', 'count', 'move', 'time'])
            o = {'op': k, 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3])}
            if k == 'abort':
                o.update(at=rng.choice([0, 1, 3, 8, 15, -rng.randint(1, 300), -rng.randint(1, 5000)]), exc=rng.choice(['RuntimeError', 'MemoryError', 'KeyboardInterrupt', 'SimCrash']),
                         phase=rng.choice(['forward', 'forward', 'backward']))
            if k in ('freeze', 'unfreeze'):
                o['frac'] = rng.choice([0.3, 0.6, 1.0])
            if k == 'train':
                o.update(opt=rng.choice(['SGD', 'Adam']), old=rng.random() < 0.5)
            if k == 'time':
                o = gen_time_op(rng)
            if k == 'move':
                o['how'] = rng.choice(['cpu', 'train', 'eval'])
            ops.append(o)
        ops.append({'op': 'train', 'seed': 3, 'batch': 2, 'opt': 'SGD', 'old': True})
        return {**plan, 'ops': ops}

    def simplify(self, plan):
        return [] if plan['kind'] != 'single' else super(ParameterRegistryWorld, self).simplify(plan)

    def nontrivial(self, plan, res):
        return res['probes'].get('forward-completed', 0) > 0 and len(plan['ops']) > 2

    # ------------------------------------------------------------------------------------------------------------------
    def build(self, plan, seed=None):
        c = plan['cfg']
        seed = c['seed'] if seed is None else seed
        if plan['kind'] == 'single':
            return nm.make_block(c, seed=seed, zero_states=plan['zero'])
        if plan['kind'] == 'chain':
            if not plan['zero']:
                return Chain(plan, seed)
            orig = nm.make_block
            m = Chain.__new__(Chain)
            nn.Module.__init__(m)
            c2 = dict(c, N=plan['N2'], S=plan['S2'])
            m.b0 = orig(c, name='b0', in_features=1, particle_dimension=1, seed=seed, zero_states=True)
            m.b1 = orig(c2, name='b1', in_features=2, particle_dimension=1, seed=seed + 5, zero_states=True)
            return m
        torch.manual_seed(seed)
        return res_net.BasicResNet(nr_of_image_channels=1, layer_channels=[2, 3], nr_of_blocks_per_layer=plan['blocks'], nr_of_particles=2,
                                   particle_sizes=plan['psizes'], nr_of_classes=2, nonlinearity='tanh',
                                   integrator=nm.make_integrator(nm.direct_integrator(c['integrator'])))

    def integrands(self, plan, m):
        if plan['kind'] == 'single':
            return [m.shooting_integrand]
        if plan['kind'] == 'chain':
            return [m.b0.shooting_integrand, m.b1.shooting_integrand]
        return [b.shooting_integrand for l in m.shooting_layers for b in l]

    def guarded(self, plan, m):
        """Modules whose parameters may not be queried before the first forward pass."""
        if plan['kind'] == 'chain':
            return [m.b0, m.b1]
        if plan['kind'] == 'resnet':
            return [m] + [b for l in m.shooting_layers for b in l]
        return [m]

    def data(self, plan, o):
        c = plan['cfg']
        if plan['kind'] != 'resnet':
            return nm.data_of(c, o['seed'], o['batch'])
        g = torch.Generator().manual_seed(o['seed'])
        return torch.randn((o['batch'] + 1, 1, 6, 6), generator=g)

    def call(self, plan, m, x):
        out = m(x=x)
        return out[0] if plan['kind'] == 'single' else out

    def expected(self, plan, complete):
        """Names that have to be registered (None: not modelled)."""
        c = plan['cfg']

        def own(c, prefix=''):
            s = set(prefix + 'p_' + k for k in nm.state_names(c))
            if not plan['zero']:
                s |= set(prefix + k for k in nm.state_names(c))
            return s
        if plan['kind'] == 'single':
            s = set()
            if c['mode'].startswith('pf'):
                for i in range(c['steps'] if c['mode'] == 'pf_td' else 1):
                    s |= set('pf_timestep{}_{}'.format(i, k.replace('.', '_')) for k in nm.zero_theta(c))
            else:
                s |= own(c)
            if c.get('init') == 'direct':
                s.add('data_q20')
            elif c.get('init') == 'linear':
                s |= {'simple_init__weight', 'simple_init__bias'}
            elif c.get('init') == 'mini_nn':
                s |= {'init_l1__weight', 'init_l1__bias', 'init_l2__weight', 'init_l2__bias'}
            return s
        if plan['kind'] == 'chain':
            s = own(c, 'b0.') | own(c, 'b1.')
            if complete and (plan['N2'] != c['N'] or plan['S2'] != c['S']):
                for k in nm.state_names(c):
                    s.add('b1.pt_enlarge_p_' + k)
                    if not plan['zero']:
                        s.add('b1.pt_enlarge_' + k)
            return s
        return None

    # ------------------------------------------------------------------------------------------------------------------
    def run(self, plan, tr, scratch):
        m = self.build(plan)
        self.integrands(plan, m)[0].register_lagrangian_gradient_hook(Counter(tr))
        complete = False
        touched = False     # a forward pass was started
        frozen = set()
        reg = None          # name -> Parameter once the first forward pass has completed
        vals = {}
        opt = None
        tvec = None
        unsure = False      # was the end of the first pass already noted when it was interrupted?
        for o in plan['ops']:
            k = o['op']
            tr.op(k)
            trained = False
            if k == 'query' and not complete and not unsure:
                self.not_yet(plan, m, tr, top_only=touched)
            elif k == 'fwd':
                out = self.call(plan, m, self.data(plan, o))
                complete = True
                tr.probe('forward-completed')
                tr.log('fwd', tensor_sig(out))
            elif k == 'abort':
                touched = True
                if o['phase'] == 'backward' and complete:
                    out = self.call(plan, m, self.data(plan, o))
                    fn = lambda: out.pow(2).sum().backward()
                    if not out.requires_grad:
                        continue
                else:
                    fn = lambda: self.call(plan, m, self.data(plan, o))
                if not run_with_fault(tr, self.integrands(plan, m), fn, o['at'], o['exc']):
                    complete = True
                elif not complete:
                    tr.probe('first-forward-aborted')
                    if o['at'] < 0:         # an interrupt at a line may come after the end of the pass was noted
                        unsure = True
                    elif not unsure:
                        self.not_yet(plan, m, tr, top_only=True)
                for p in m.named_parameters():
                    p[1].grad = None
            elif k in ('freeze', 'unfreeze'):
                names = sorted(n for n, _ in m.named_parameters() if complete or 'pt_enlarge' not in n)
                g = torch.Generator().manual_seed(o['seed'])
                pick = [n for n in names if torch.rand(1, generator=g).item() < o['frac']]
                (utils.freeze_parameters if k == 'freeze' else utils.unfreeze_parameters)(m, pick)
                frozen = frozen | set(pick) if k == 'freeze' else frozen - set(pick)
                tr.log(k, pick)
            elif k == 'count':
                n = utils.compute_number_of_parameters(m)
                ps = dict(m.named_parameters())
                want = {'fixed': sum(p.numel() for q, p in ps.items() if q in frozen), 'overall': sum(p.numel() for p in ps.values())}
                want['optimized'] = want['overall'] - want['fixed']
                if {a: int(b) for a, b in n.items()} != want:
                    raise Violation('parameter-count', '{} instead of {}'.format(n, want))
            elif k == 'move':
                m.to('cpu') if o['how'] == 'cpu' else m.train(o['how'] == 'train')
            elif k in ('time', 'tvec'):
                if plan['kind'] == 'single':
                    m.set_integration_time(o['T']) if k == 'time' else m.set_integration_time_vector(torch.tensor(o['t']), suppress_warning=True)
                    tvec = o
            elif k == 'store':
                if complete:
                    self.store(plan, m, frozen, tvec, o, tr)
            elif k == 'train':
                if not complete:
                    self.call(plan, m, self.data(plan, o))
                    complete = True
                    tr.probe('forward-completed')
                    self.registry(plan, m, reg, complete, frozen, tr)
                    if reg is None:
                        reg = dict(m.named_parameters())
                        vals = {n: p.detach().clone() for n, p in reg.items()}
                if opt is None or not o['old']:
                    opt = getattr(torch.optim, o['opt'])(m.parameters(), lr=0.05)
                elif opt is not None:
                    tr.probe('optimiser-created-earlier')
                self.train(plan, m, opt, frozen, o, tvec, tr)
                trained = True
            self.registry(plan, m, reg, complete, frozen, tr)
            now = {n: p.detach().clone() for n, p in m.named_parameters()}
            for n in vals:
                if n in now and (not trained or n in frozen) and not nm.same_bits(vals[n], now[n]):
                    if reg is None and 'pt_enlarge' in n:
                        continue        # an aborted first pass: its enlargement is replaced
                    raise Violation('frozen-parameter-changes' if trained else 'parameter-changes', '{} after {}'.format(n, o))
            if complete and reg is None:
                reg = dict(m.named_parameters())
            vals = now
            tr.state(plan['kind'], plan['cfg']['model'], complete, len(frozen), k)

    def not_yet(self, plan, m, tr, top_only=False):
        # after an aborted pass: inner blocks may have completed their part of it
        bs = self.guarded(plan, m)
        if top_only:
            bs = bs[-1:] if plan['kind'] == 'chain' else bs[:1]
        for b in bs:
            tr.checks += 1
            try:
                list(b.parameters())
            except ValueError:
                tr.probe('query-before-forward-rejected')
                continue
            raise Violation('parameters-before-forward', 'parameters() before the first forward pass does not raise')

    def registry(self, plan, m, reg, complete, frozen, tr):
        ps = dict(m.named_parameters())
        tr.checks += 1
        if complete:
            ids = [id(p) for p in m.parameters()]
            if len(set(ids)) != len(ids) or set(ids) != set(id(p) for p in ps.values()):
                raise Violation('registry-inconsistent', 'parameters() and named_parameters() differ')
        want = self.expected(plan, complete)
        if want is not None:
            have = set(ps)
            if not complete:
                have = set(n for n in have if 'pt_enlarge' not in n)
            if have != want:
                raise Violation('registered-names', 'missing {}, unexpected {} (cfg {})'.format(sorted(want - have), sorted(have - want), plan['cfg']))
        if reg is not None:
            if sorted(reg) != sorted(ps):
                raise Violation('registry-changes', '{} -> {}'.format(sorted(reg), sorted(ps)))
            for n in reg:
                if reg[n] is not ps[n]:
                    raise Violation('parameter-replaced', '{}: an optimiser holding the old object would not train it'.format(n))
        for n, p in ps.items():
            if complete or 'pt_enlarge' not in n:
                if p.requires_grad == (n in frozen):
                    raise Violation('frozen-flag', '{}: frozen={}, requires_grad={}'.format(n, n in frozen, p.requires_grad))
            if not p.is_leaf:
                raise Violation('not-a-leaf', n)

    def loss(self, plan, m, x):
        return self.call(plan, m, x).pow(2).mean()

    def copy_of(self, plan, m, x, tvec):
        """A new model with the same values; nothing frozen."""
        f = self.build(plan, seed=plan['cfg']['seed'] + (0 if plan['cfg']['mode'].startswith('pf') else 977))
        if tvec is not None:
            f.set_integration_time(tvec['T']) if tvec['op'] == 'time' else f.set_integration_time_vector(torch.tensor(tvec['t']), suppress_warning=True)
        f.train(m.training)
        with torch.no_grad():
            self.call(plan, f, x)
        return f

    def train(self, plan, m, opt, frozen, o, tvec, tr):
        x = self.data(plan, o)
        f = self.copy_of(plan, m, x, tvec)
        f.load_state_dict(m.state_dict())
        gl = self.loss(plan, f, x)
        gl.backward()
        g = {n: p.grad for n, p in f.named_parameters()}
        for p in m.parameters():
            p.grad = None
        l = self.loss(plan, m, x)
        if set(n for n, _ in m.named_parameters()) == frozen:
            tr.probe('everything-frozen')
            return
        if not torch.isfinite(l) or not l.requires_grad:
            return
        l.backward()
        tr.log('loss', tensor_sig(l.detach()))
        if nm.blown([l]):
            for p in m.parameters():
                p.grad = None
            return
        adaptive = plan['kind'] == 'single' and plan['cfg']['integrator']['name'] == 'dopri5'
        for n, p in m.named_parameters():
            tr.checks += 1
            if n in frozen:
                if p.grad is not None and p.grad.abs().max() > 0:
                    raise Violation('frozen-parameter-has-gradient', n)
                continue
            a = p.grad if p.grad is not None else torch.zeros_like(p)
            b = g[n] if g[n] is not None else torch.zeros_like(p)
            ok, why = nm.close(a, b, 1e-3 if adaptive else 1e-8, 1e-4 if adaptive else 1e-10)
            if not ok:
                raise Violation('gradient-depends-on-history', '{}: {} (frozen {}, cfg {})'.format(n, why, sorted(frozen), plan['cfg']))
            if p.grad is not None:
                p.grad.nan_to_num_(0.0, 1.0, -1.0).clamp_(-1, 1)
        before = {n: p.detach().clone() for n, p in m.named_parameters()}
        opt.step()
        for n, p in m.named_parameters():
            if n not in frozen and p.grad is not None and p.grad.abs().max() > 1e-6 and nm.same_bits(before[n], p.detach()):
                raise Violation('parameter-not-trained', '{} has a gradient but is not updated by an optimiser over parameters()'.format(n))
            p.grad = None
        tr.probe('trained')

    def store(self, plan, m, frozen, tvec, o, tr):
        x = self.data(plan, o)
        buf = io.BytesIO()
        torch.save(m.state_dict(), buf)
        buf.seek(0)
        f = self.copy_of(plan, m, x, tvec)
        st = torch.load(buf)
        missing = f.load_state_dict(st)
        if missing.missing_keys or missing.unexpected_keys:
            raise Violation('state-dict-keys', str(missing))
        m_training = m.training
        m.eval()
        f.eval()
        with torch.no_grad():
            a, b = self.call(plan, m, x), self.call(plan, f, x)
        m.train(m_training)
        if not nm.same_bits(a, b):
            ok, why = nm.close(a, b, 1e-12, 1e-13)
            if not ok:
                raise Violation('restored-model-differs', '{} cfg {}'.format(why, plan['cfg']))
        tr.probe('restored')
        tr.log('store', tensor_sig(a))
