"""Chains of blocks in which later blocks add particles of their own to those passed on by earlier ones."""
import torch

from sim import nsmodel as nm
from sim.core import Violation
from sim.worlds.block import Counter, run_with_fault


def cat_dim(c):
    """Dimension along which the states of different blocks are put side by side."""
    return 1 if c['model'] in nm.CONV else 2


def gen_chain(rng, tier, modes=('particle',), strategies=('direct', 'checkpoint', 'interval', 'adjoint')):
    """Configuration of a chain: the first block and a list of later ones."""
    models = nm.VECTOR + ['updown', 'universal', 'conv', 'conv', 'convupdown', rng.choice(['symm', 'convbatch'])]
    cfg = nm.sample_cfg(rng, models=models, modes=modes, T=(0.5, 1.0), integrators=('fixed',), strategies=strategies,
                        analytic=False)      # the analytic equations refuse more than one block
    cfg.update(explicit_T=True, mag=0.15 if cfg['model'] in nm.CONV else min(cfg['mag'], 0.3))
    if cfg['model'] in nm.CONV:
        cfg['D'] = 1
    n, s = cfg['N'], cfg.get('S', 0)
    more = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        kind = rng.choice(['own', 'own', 'own', 'through'])
        if kind == 'own':
            if cfg['model'] in nm.CONV:      # states are only enlarged for convolutional models
                n += rng.choice([0, 0, 1, 2])
                s += rng.choice([0, 0, 0, 1, 3])
        more.append({'kind': kind, 'N': n, 'S': s, 'T': rng.choice([0.5, 1.0])})
    return {'cfg': cfg, 'more': more}


def chain_data(c, seed, batch, lead=None):
    """Data, possibly with an additional leading dimension (for example several sequences)."""
    if lead is None or c['model'] in nm.CONV:
        return nm.data_of(c, seed, batch)
    return torch.stack([nm.data_of(c, seed + i, batch) for i in range(lead)])


class ChainSim(object):

    def __init__(self, plan, tr, count=True, seed_shift=0):
        self.plan, self.tr = plan, tr
        c = self.c = plan['cfg']
        self.cfgs = [c]
        kw = dict(particle_dimension=1, in_features=1) if c['model'] in nm.CONV else {}
        self.blocks = [nm.make_block(c, name='b0', seed=c['seed'] + seed_shift, **kw)]
        self.parts = 1
        for i, m in enumerate(plan['more']):
            ci = dict(c, N=m['N'], T=m['T'], init=None)
            if c['model'] in nm.CONV:
                ci['S'] = m['S']
            if m['kind'] == 'own':
                self.parts += 1
            kw = dict(in_features=self.parts * c['D'])
            if c['model'] in nm.CONV:
                kw['particle_dimension'] = 1
            self.blocks.append(nm.make_block(ci, name='b{}'.format(i + 1), pass_through=m['kind'] == 'through',
                                             seed=c['seed'] + 5 + i + seed_shift, **kw))
            self.cfgs.append(ci)
        if count:
            for b in self.blocks:
                b.shooting_integrand.register_lagrangian_gradient_hook(Counter(tr))

    def forward(self, x):
        out = self.blocks[0](x=x)
        outs = [out]
        for b in self.blocks[1:]:
            out = b(pass_through_state_dict_of_dicts=out[1], pass_through_costate_dict_of_dicts=out[2], data_dict_of_dicts=out[3])
            outs.append(out)
        self.tr.sim_time += sum(float(c['T']) for c in self.cfgs)
        return outs

    def values(self):
        return [nm.values(b) for b in self.blocks]

    def twin(self, vals, x):
        """Fresh chain with the given parameters; a first pass (which creates the parameters for enlarged states) is part of its history."""
        t = ChainSim(self.plan, self.tr, count=False, seed_shift=7919)
        with torch.no_grad():
            t.forward(x.detach())
        for b, v in zip(t.blocks, vals):
            nm.set_values(b, v)
        return t

    def params(self):
        return [(('b{}.'.format(i)) + k, p) for i, b in enumerate(self.blocks) for k, p in b.named_parameters()]

    def perturb(self, seed):
        for i, b in enumerate(self.blocks):
            nm.perturb(b, seed + i)

    def exact_reference(self):
        return self.c['integrator']['strategy'] in ('direct', 'adjoint')

    def reference(self, P, x):
        """Differentiable reference of the whole chain. P: list of dictionaries of parameter values."""
        c = self.c
        names = nm.state_names(c)
        integ = nm.direct_integrator(c['integrator'])
        cd = cat_dim(c)
        lead = x.dim() - (4 if c['model'] in nm.CONV else 3)
        r = nm.Ref(c).run(P[0], nm.initial_data(c, P[0], x), torch.tensor([0.0, c['T']]), integrator=integ)
        outs = [r]
        for ci, m, Pi in zip(self.cfgs[1:], self.plan['more'], P[1:]):
            q = {k: r['q'][k][-1] for k in names}
            p = {k: r['p'][k][-1] for k in names}
            d = {k: r['d'][k][-1] for k in names}
            if m['kind'] == 'own':
                for k in names:
                    q[k] = torch.cat([enlarge(q[k], Pi[k], Pi.get('pt_enlarge_' + k), cd), Pi[k]], dim=cd)
                    pk = 'p_' + k
                    p[k] = torch.cat([enlarge(p[k], Pi[pk], Pi.get('pt_enlarge_' + pk), cd), Pi[pk]], dim=cd)
                    s = list(d[k].shape)
                    s[cd + lead] = Pi[k].shape[cd]
                    d[k] = torch.cat([d[k], torch.zeros(s)], dim=cd + lead)
            r = nm.Ref(ci).run({}, d, torch.tensor([0.0, ci['T']]), q0=q, p0=p, integrator=integ)
            outs.append(r)
        return outs

    def compare(self, outs, refs, tol=1e-9):
        names = nm.state_names(self.c)
        for i, (o, r) in enumerate(zip(outs, refs)):
            pairs = [('result', o[0], r['d']['q1'][-1])]
            for what, dd, key, pre in (('state', o[1], 'q', ''), ('costate', o[2], 'p', 'p_'), ('data', o[3], 'd', '')):
                got = [v for b in dd for _, v in sorted(dd[b].items())]
                pairs += [('{}.{}'.format(what, k), g, r[key][k][-1]) for k, g in zip(names, got)]
            if nm.blown([b for _, _, b in pairs]):
                return self.tr.probe('reference-blown-up')
            for n, a, b in pairs:
                ok, why = nm.close(a.detach(), b.detach(), tol, tol * 0.1 + 1e-11)
                if not ok:
                    raise Violation('chain-differs-reference', 'block {} {}: {} cfg {} {}'.format(i, n, why, self.c, self.plan['more']))
        self.tr.probe('chain-compared')

    def aborted(self, fn, at, exc):
        return run_with_fault(self.tr, [b.shooting_integrand for b in self.blocks], fn, at, exc)


def enlarge(v, like, pars, cd):
    """Grow v symmetrically (excess at the end) to the size of `like` (except along cd) with the given parameters."""
    size = list(like.shape)
    size[cd] = v.shape[cd]
    i = 0
    for d in range(v.dim()):
        diff = size[d] - v.shape[d]
        if diff > 0:
            beg, end = diff // 2, diff - diff // 2
            fs, es = list(v.shape), list(v.shape)
            fs[d], es[d] = beg, end
            fm = em = 1
            for a, b in zip(fs, es):
                fm, em = fm * a, em * b
            f = pars[i:i + fm].view(fs)
            e = pars[i + fm:i + fm + em].view(es)
            i += fm + em
            v = torch.cat((f, v, e), dim=d)
    return v


def chain_abort(rng):
    return {'op': 'abort', 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2]),
            'at': rng.choice([0, 1, 4, 9, 17, 30, -rng.randint(1, 600), -rng.randint(1, 6000), -rng.randint(1, 20000)]),
            'exc': rng.choice(['RuntimeError', 'MemoryError', 'KeyboardInterrupt', 'SimCrash'])}
