"""C26: the residual network is the composition of its layers, whatever it was used for before."""
import io

import torch
import torch.nn.functional as F
from sortedcontainers import SortedDict

import neuro_shooting.res_net as res_net
import neuro_shooting.shooting_models as sm
import neuro_shooting.striding_block as striding_block

from sim import nsmodel as nm
from sim.core import Violation, tensor_sig
from sim.worlds.block import BlockWorld, Counter, abort_op, compare_grads, run_with_fault
from sim.worlds.multi import enlarge


def stride(v, s):
    """Every s-th row and column; the first ones are dropped if the size is no multiple of s."""
    a, b = v.shape[2] % s, v.shape[3] % s
    return v[:, :, a::s, b::s]


def build(plan, seed=None):
    c = plan['cfg']
    torch.manual_seed(c['seed'] if seed is None else seed)
    kw = {}
    if c['model'] == 'convupdown':
        kw['inflation_factor'] = c['infl']
    if c['weight'] is not None:
        kw['parameter_weight'] = c['weight']
    return res_net.BasicResNet(nr_of_image_channels=plan['image'], layer_channels=list(plan['channels']), nr_of_blocks_per_layer=list(plan['blocks']),
                               downsampling_stride=plan['stride'], nonlinearity=c['nl'], particle_sizes=[list(s) for s in plan['sizes']],
                               nr_of_particles=c['N'], nr_of_classes=3, integrator=nm.make_integrator(c['integrator']),
                               shooting_model=getattr(sm, nm.MODELS[c['model']][0]), shooting_model_kwargs=kw)


def block_names(plan):
    return [['shooting_layer_{}_{}'.format(i, j) for j in range(n)] for i, n in enumerate(plan['blocks'])]


def reference(plan, P, buf, x, train):
    """Output of the network with parameters P (and buffers buf); differentiable."""
    c = plan['cfg']
    names = nm.state_names(c)
    integ = nm.direct_integrator(c['integrator'])
    h = F.conv2d(x, P['initial_conv.weight'], P['initial_conv.bias'], padding=1)
    if train:
        mean, var = h.mean(dim=(0, 2, 3)), h.var(dim=(0, 2, 3), unbiased=False)
    else:
        mean, var = buf['batch_norm.running_mean'], buf['batch_norm.running_var']
    v = lambda z: z.view(1, -1, 1, 1)
    h = (h - v(mean)) / torch.sqrt(v(var) + 1e-5) * v(P['batch_norm.weight']) + v(P['batch_norm.bias'])
    h = nm.NL[c['nl']](h)
    q = p = d = None
    for i, layer in enumerate(block_names(plan)):
        for j, b in enumerate(layer):
            own = {k[len(b) + 1:]: t for k, t in P.items() if k.startswith(b + '.')}
            if q is None:
                q, p, d = {k: own[k] for k in names}, {k: own['p_' + k] for k in names}, nm.initial_data(c, own, h)
            elif j == 0:
                for k in names:
                    pk = 'p_' + k
                    q[k] = torch.cat([enlarge(q[k], own[k], own.get('pt_enlarge_' + k), 1), own[k]], dim=1)
                    p[k] = torch.cat([enlarge(p[k], own[pk], own.get('pt_enlarge_' + pk), 1), own[pk]], dim=1)
                    d[k] = torch.cat([d[k], torch.zeros((d[k].shape[0], own[k].shape[1]) + tuple(d[k].shape[2:]))], dim=1)
            r = nm.Ref(c).run({}, d, torch.tensor([0.0, 1.0]), q0=q, p0=p, integrator=integ)
            q, p, d = [{k: r[a][k][-1] for k in names} for a in ('q', 'p', 'd')]
            out = d['q1']
        if i + 1 < len(plan['blocks']):
            q, p, d = [{k: stride(t, plan['stride']) for k, t in e.items()} for e in (q, p, d)]
    out = out.amax(dim=(2, 3))
    return out @ P['last_linear.weight'].t() + P['last_linear.bias'], mean, var, h.numel() // h.shape[1]


class ResNetWorld(BlockWorld):
    pid = 'C26'
    quick_runs = 300
    thorough_runs = 8000
    real = BlockWorld.real + ['residual network', 'striding block']
    rule = ('a seeded residual network (layers, channels, blocks per layer, strides, particle sizes, models, integrators) and a history '
            'of training and evaluation passes, steps, deferred backward passes, aborts at evaluations and lines (also of the first pass), '
            'changes of the mode and restores into a new network; every output, the gradients of plain integration and the '
            'normalisation statistics are compared with an independent composition of the layers; non-trivial: at least two operations')

    def gen(self, rng, tier):
        cfg = nm.sample_cfg(rng, models=['conv', 'conv', 'convupdown', 'convbatch'], modes=('particle',), integrators=('fixed',), T=(1.0,))
        cfg.update(mag=0.05, D=1, explicit_T=False, infl=rng.choice([1, 2]), init=None, analytic=False, N=rng.choice([1, 2, 3]))
        if cfg['integrator']['step'] < 0.25:
            cfg['integrator']['step'] = 0.25
        cfg.pop('S', None)
        n = rng.choice([1, 2, 2, 3])
        channels = [rng.choice([1, 2])]
        for _ in range(n - 1):
            channels.append(channels[-1] + rng.choice([1, 2]))
        st = rng.choice([1, 2, 2, 2, 3])
        least = 2 if cfg['model'] == 'convbatch' else 1     # normalisation needs more than one value, everything else at least one

        def side():
            sizes = [rng.choice([s for s in (3, 4, 5, 6) if n == 1 or s >= least * st])]
            for i in range(n - 1):
                sizes.append(max(least * (st if i + 2 < n else 1), sizes[-1] // st + rng.choice([0, 0, 1, 2])))
            return sizes, max(rng.choice([6, 7, 8, 9]), least * st ** (n - 1))
        hs, H = side()
        ws, W = (hs, H) if rng.random() < 0.5 else side()
        plan = {'cfg': cfg, 'image': rng.choice([1, 1, 3]), 'channels': channels, 'blocks': [rng.choice([1, 1, 1, 2, 2, 3]) for _ in channels], 'stride': st,
                'sizes': [list(z) for z in zip(hs, ws)], 'S': [H, W]}
        ops = []
        if rng.random() < 0.3:
            ops.append(abort_op(rng))
        pend, nf = [], 0
        for _ in range(rng.randint(2, 4 if tier == 'quick' else 8)):
            r = rng.random()
            if r < 0.4:
                ops.append(self.fwd(rng, nf))
                pend.append(nf)
                nf += 1
            elif r < 0.55 and pend:
                ops.append({'op': 'bwd', 'id': pend.pop(rng.randrange(len(pend))), 'lseed': rng.randrange(1000)})
            elif r < 0.7:
                ops.append(abort_op(rng))
            elif r < 0.8:
                ops.append({'op': 'mode', 'train': rng.random() < 0.5})
            elif r < 0.9:
                ops.append({'op': 'step', 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([2, 3])})
            elif r < 0.95:
                ops.append({'op': 'restore', 'seed': rng.randrange(10 ** 6)})
            else:
                nd = rng.choice([1, 2, 2, 3])
                dims = sorted(rng.sample(range(2, 2 + nd), rng.randint(1, nd)))
                ops.append({'op': 'stride', 'seed': rng.randrange(10 ** 6), 'shape': [rng.randint(1, 7) for _ in range(nd)], 'dims': dims,
                            'stride': rng.choice([1, 2, 3]) if rng.random() < 0.3 else [rng.randint(1, 4) for _ in dims],
                            'lead': rng.choice([0, 0, 1]), 'form': rng.choice(['list', 'tuple'])})
        ops.append(self.fwd(rng, nf))
        ops.append({'op': 'bwd', 'id': nf, 'lseed': rng.randrange(1000)})
        plan['ops'] = ops
        return plan

    @staticmethod
    def fwd(rng, i):
        return {'op': 'fwd', 'id': i, 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3, 4])}

    def simplify(self, plan):
        for n in range(len(plan['blocks'])):
            if plan['blocks'][n] > 1:
                yield dict(plan, blocks=plan['blocks'][:n] + [1] + plan['blocks'][n + 1:])
        if len(plan['blocks']) > 1:
            m = len(plan['blocks']) - 1
            yield dict(plan, blocks=plan['blocks'][:m], channels=plan['channels'][:m], sizes=plan['sizes'][:m])
        for p in super(ResNetWorld, self).simplify(plan):
            yield p

    @staticmethod
    def integrands(m):
        return [b.shooting_integrand for l in m.shooting_layers for b in l]

    def data(self, plan, o):
        g = torch.Generator().manual_seed(o['seed'])
        return 0.7 * torch.randn((o['batch'], plan['image'], plan['S'][0], plan['S'][1]), generator=g, dtype=torch.float64).to(torch.get_default_dtype())

    @staticmethod
    def exact(plan):
        i = plan['cfg']['integrator']
        h = {'checkpoint': 1.0 / (i.get('nr', 0) + 1), 'interval': i.get('every', 1.0)}.get(i['strategy'], 1.0)
        return h >= i['step']

    def run(self, plan, tr, scratch):
        m = build(plan)
        for i in self.integrands(m):
            i.register_lagrangian_gradient_hook(Counter(tr))
        pend, last = {}, None
        first = True
        for o in plan['ops']:
            k = o['op']
            tr.op(k)
            if k == 'fwd':
                x = self.data(plan, o).requires_grad_(True)
                P, buf, out = self.forward(plan, m, x, tr)
                pend[o['id']] = (x, P, buf, m.training, out, m)
                last = o['id']
                first = False
            elif k == 'bwd' and o['id'] in pend:
                x, P, buf, train, out, owner = pend.pop(o['id'])
                if any(not nm.same_bits(v, P[n]) for n, v in owner.named_parameters()):
                    continue        # the parameters were updated in between: no backward pass any more
                if last != o['id']:
                    tr.probe('backward-after-other-forward')
                self.backward(plan, owner, x, P, buf, train, out, o, tr)
            elif k == 'abort':
                x = self.data(plan, dict(o, batch=o['batch'] + 1))
                if o['phase'] == 'backward' and not first:
                    out = m(x)
                    run_with_fault(tr, self.integrands(m), lambda: out.pow(2).sum().backward(), o['at'], o['exc'])
                elif not run_with_fault(tr, self.integrands(m), lambda: m(x), o['at'], o['exc']):
                    first = False
                m.zero_grad() if not first else None
            elif k == 'stride':
                self.stride(o, tr)
            elif k == 'mode':
                m.train(o['train'])
            elif k == 'step' and not first:
                opt = torch.optim.SGD(m.parameters(), lr=0.02)
                opt.zero_grad()
                m(self.data(plan, o)).pow(2).mean().backward()
                for p in m.parameters():
                    if p.grad is not None:
                        p.grad.nan_to_num_(0.0, 1.0, -1.0).clamp_(-1, 1)
                opt.step()
                opt.zero_grad()
            elif k == 'restore' and not first:
                f = io.BytesIO()
                torch.save(m.state_dict(), f)
                f.seek(0)
                n = build(plan, seed=o['seed'])
                with torch.no_grad():
                    n(self.data(plan, {'seed': o['seed'], 'batch': 2}))
                n.load_state_dict(torch.load(f))
                n.train(m.training)
                m = n
                for i in self.integrands(m):
                    i.register_lagrangian_gradient_hook(Counter(tr))
                tr.fault('crash')
            tr.state(plan['cfg']['model'], tuple(plan['blocks']), plan['stride'], plan['cfg']['integrator']['strategy'], k, m.training, len(pend))

    def stride(self, o, tr):
        """A striding block on its own: states of any dimension, data with a leading time dimension."""
        f = {'list': list, 'tuple': tuple}[o['form']]
        st = o['stride'] if isinstance(o['stride'], int) else f(o['stride'])
        b = striding_block.ShootingStridingBlock(stride=st, stride_dims=f(o['dims']))
        g = torch.Generator().manual_seed(o['seed'])
        lead = (2,) * o['lead'] if len(o['shape']) < 3 or max(o['dims']) < 4 else ()

        def dicts(pre, lead=()):
            return SortedDict({n: SortedDict({pre + k: torch.randn(lead + (2, 2) + tuple(o['shape']), generator=g) for k in ('q1', 'q2')}) for n in ('a', 'b')})
        ins = [dicts(''), dicts('p_'), dicts('', lead)]
        before = [{n: {k: v.clone() for k, v in d.items()} for n, d in e.items()} for e in ins]
        outs = b(state_dict_of_dicts=ins[0], costate_dict_of_dicts=ins[1], data_dict_of_dicts=ins[2])
        for e, was, out, off in zip(ins, before, outs, (0, 0, len(lead))):
            for n in was:
                for k in was[n]:
                    want = was[n][k]
                    for i, d in enumerate(o['dims']):
                        s, L = st if isinstance(st, int) else st[i], want.shape[d + off]
                        want = want.index_select(d + off, torch.tensor(list(range(L % s, L, s)), dtype=torch.long))
                    if not nm.same_bits(out[n][k], want) or not nm.same_bits(e[n][k], was[n][k]):
                        raise Violation('striding', '{} of {}: result of shape {} instead of {} ({})'.format(k, n, tuple(out[n][k].shape), tuple(want.shape), o))
        tr.checks += 1
        tr.log('stride', *[tensor_sig(outs[2][n][k]) for n in ('a', 'b') for k in ('q1', 'q2')])

    def forward(self, plan, m, x, tr):
        buf = {n: b.detach().clone() for n, b in m.named_buffers()}
        out = m(x)
        tr.sim_time += sum(plan['blocks'])
        tr.log('fwd', tensor_sig(out))
        tr.checks += 1
        P = {n: p.detach().clone() for n, p in m.named_parameters()}
        want, mean, var, cnt = reference(plan, P, buf, x.detach(), m.training)
        if nm.blown([want]):
            tr.probe('reference-blown-up')
            return P, buf, out
        if self.exact(plan):
            ok, why = nm.close(out.detach(), want.detach(), 1e-8, 1e-10)
            if not ok:
                raise Violation('network-differs-composition', '{} ({} mode, plan {})'.format(why, 'training' if m.training else 'evaluation', {k: v for k, v in plan.items() if k != 'ops'}))
            tr.probe('compared')
        now = dict(m.named_buffers())
        for n, new in (('running_mean', mean), ('running_var', var * cnt / max(cnt - 1, 1))):
            exp = buf['batch_norm.' + n]
            if m.training:
                exp = 0.9 * exp + 0.1 * new.detach()
            ok, why = nm.close(now['batch_norm.' + n], exp, 1e-9, 1e-11)
            if not ok:
                raise Violation('statistics', '{}: {} ({} mode)'.format(n, why, 'training' if m.training else 'evaluation'))
        return P, buf, out

    def backward(self, plan, m, x, P, buf, train, out, o, tr):
        g = torch.Generator().manual_seed(o['lseed'])
        w = torch.randn(out.shape, generator=g)
        for p in m.parameters():
            p.grad = None
        x.grad = None
        ((w * out).sum() + out.pow(2).mean()).backward()
        got = {n: (None if p.grad is None else p.grad.clone()) for n, p in m.named_parameters()}
        got['x'] = x.grad.clone()
        tr.log('bwd', *[tensor_sig(got[n]) for n in sorted(got) if got[n] is not None])
        if plan['cfg']['integrator']['strategy'] == 'adjoint' or not self.exact(plan):
            return
        L = nm.leaf_copy(P)
        x2 = x.detach().clone().requires_grad_(True)
        r = reference(plan, L, buf, x2, train)[0]
        if nm.blown([r]):
            return
        ((w * r).sum() + r.pow(2).mean()).backward()
        tr.checks += 1
        compare_grads(got, dict({n: v.grad for n, v in L.items()}, x=x2.grad), 'composition', 1e-7, 1e-9,
                      str({k: v for k, v in plan.items() if k != 'ops'}))
        tr.probe('gradients-compared')
