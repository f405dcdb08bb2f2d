"""
Construction of shooting blocks from JSON configurations, and the reference model: a small, independent implementation of the
shooting equations.

With U(theta,q,p) = sum_states sum_components mean_particles( p * f(q,theta) )   (f linear in theta)
  theta*(q,p) = (1/w) dU/dtheta,   dq/dt = f(q,theta),   dp/dt = - N dU/dq |theta fixed,   d(data)/dt = f(data,theta)
  norm penalty = 1/2 sum w theta^2 at the start of the integration.
"""
import torch
import torch.nn.functional as F
from torchdiffeq import odeint
try:
    import torch._dynamo        # imported lazily by torch at the first checkpoint / optimiser step; once, before forking
except Exception:
    pass

import neuro_shooting.shooting_models as sm
import neuro_shooting.shooting_blocks as sb
import neuro_shooting.generic_integrator as gi
import neuro_shooting.parameter_initialization as pi

NL = {'tanh': torch.tanh, 'relu': torch.relu, 'sigmoid': torch.sigmoid, 'identity': lambda x: x,
      'softmax': lambda x: x * torch.sigmoid(x)}

MODELS = {
    'simple': ('AutoShootingIntegrandModelSimple', False),
    'debug': ('DEBUGAutoShootingIntegrandModelSimple', False),
    'second': ('AutoShootingIntegrandModelSecondOrder', False),
    'updown': ('AutoShootingIntegrandModelUpDown', True),
    'universal': ('AutoShootingIntegrandModelUpDownUniversal', True),
    'general': ('AutoShootingIntegrandModelGeneralUpDown', True),
    'dampq2': ('AutoShootingIntegrandModelUpdownDampenedQ2', True),
    'periodic': ('AutoShootingIntegrandModelUpdownPeriodic', True),
    'conv': ('AutoShootingIntegrandModelSimpleConv2D', False),
    'convbatch': ('AutoShootingIntegrandModelConv2DBatch', False),
    'convupdown': ('AutoShootingIntegrandModelUpDownConv2D', True),
    'damped': ('AutoShootingIntegrandModelDampenedUpDown', True),
    'symm': ('AutoShootingIntegrandModelUpdownSymmetrized', True),       # its third state only fits without inflation
}
VECTOR = ['simple', 'debug', 'second', 'updown', 'universal', 'general', 'dampq2', 'periodic']
CONV = ['conv', 'convbatch', 'convupdown']
ANALYTIC = ['simple', 'debug', 'updown', 'universal', 'general', 'dampq2', 'periodic', 'symm']
LEARNED_INIT = ['updown', 'universal', 'general', 'periodic']


# ----------------------------------------------------------------------------------------------------------------------
# configurations

def sample_cfg(rng, models=None, modes=('particle', 'particle', 'particle', 'rnn', 'pf_rnn', 'pf_td'),
               integrators=('fixed',) * 7 + ('dopri5',), strategies=('direct', 'checkpoint', 'interval', 'adjoint'),
               analytic=True, learned_init=True, T=(0.5, 1.0, 1.0, 2.0)):
    model = rng.choice(models or (VECTOR + ['updown', 'universal', 'conv', 'convupdown', rng.choice(['symm', 'convbatch', 'damped']), rng.choice(['symm', 'damped'])]))
    c = {'model': model, 'nl': rng.choice(['tanh', 'tanh', 'relu', 'sigmoid', 'identity', 'softmax']),
         'D': rng.choice([1, 2, 2, 3]), 'N': rng.choice([1, 2, 3, 4]), 'infl': rng.choice([1, 2, 3]),
         'weight': rng.choice([None, None, 0.5, 3.0]), 'seed': rng.randrange(10 ** 6), 'mag': rng.choice([0.2, 0.4, 0.6])}
    if model in CONV:
        c['D'] = rng.choice([1, 2])
        c['S'] = rng.choice([3, 4])
        c['nl'] = rng.choice(['tanh', 'sigmoid', 'softmax'])
        c['mag'] = rng.choice([0.1, 0.2, 0.3])
    if model == 'symm':
        c['infl'] = 1
    c['mode'] = rng.choice(list(modes))
    if c['mode'] == 'pf_td':
        c['steps'] = rng.choice([2, 4, 5, 8])
    c['analytic'] = bool(analytic and model in ANALYTIC and c['mode'] != 'rnn' and rng.random() < 0.3)
    c['init'] = None
    if learned_init and model in LEARNED_INIT and rng.random() < 0.3:
        c['init'] = rng.choice(['direct', 'linear', 'mini_nn'])
    if learned_init and model == 'convupdown' and models is None and rng.random() < 0.4:
        c['init'] = rng.choice(['linear', 'mini_nn'])
    c['T'] = rng.choice(list(T))
    c['explicit_T'] = rng.random() < 0.5 or c['T'] != 1.0
    if model == 'convbatch':         # batch normalisation of few, almost constant values is stiff
        integrators = ('fixed',)
    c['integrator'] = sample_integrator(rng, integrators, strategies)
    if c['integrator']['name'] == 'dopri5':      # adaptive steps: keep the right hand side smooth and the solution tame
        c['nl'] = rng.choice(['tanh', 'sigmoid'])
        c['mag'] = min(c['mag'], 0.25)
        if c['mode'] == 'pf_td':
            c['mode'] = 'pf_rnn'
        if c['T'] > 1.0:
            c['T'] = 1.0
    if model == 'universal' and rng.random() < 0.5:
        c['opt_weight'] = rng.choice([1.0, 5.0])
    st = c['integrator']['strategy']
    # gradients of these combinations are known findings, covered by fixed scenarios of C08
    c['P'] = rng.choice([1, 1, 1, 2, 3]) if model not in CONV else 1         # particles may be several vectors
    if (c['mode'] == 'rnn' and st != 'direct') or (c['mode'].startswith('pf') and st == 'adjoint'):
        if 'direct' in strategies and rng.random() < 0.6:
            c['integrator'] = direct_integrator(c['integrator'])
        else:
            c['mode'] = 'particle'
            c.pop('steps', None)
    return c


def transposed(rng, c, prob=0.1):
    """With some probability a configuration whose states are stored transposed (features before vectors)."""
    if rng.random() < prob and c['model'] in VECTOR:
        c.update(tr=True, infl=1, init=None)
    return c


def weighted(rng, c, prob=0.2):
    """With some probability a configuration whose layers have weights of their own (set with add_weight)."""
    if rng.random() < prob:
        names = ['{}.{}'.format(l, n) for l, (o, i, b) in layers(c).items() for n in (('weight', 'bias') if b else ('weight',))]
        c['hw'] = {k: rng.choice([0.5, 2.0, 4.0]) for k in names if rng.random() < 0.6}
        c['hw_tensor'] = rng.random() < 0.3
    return c


class OwnWeights(object):
    """Stands for the creation of the parameters in a user's model that weights its parameters individually."""

    def __init__(self, create, c):
        self.create, self.c = create, c

    def __call__(self):
        p = self.create()
        for k, w in self.c['hw'].items():
            o, n = k.split('.')
            p[o].add_weight(n, torch.tensor(w) if self.c.get('hw_tensor') else w)
        return p


def sample_integrator(rng, integrators=('fixed', 'fixed', 'fixed', 'dopri5'), strategies=('direct', 'checkpoint', 'interval', 'adjoint')):
    kind = rng.choice(list(integrators))
    i = {'name': rng.choice(['rk4', 'rk4', 'midpoint', 'euler']) if kind == 'fixed' else 'dopri5',
         'strategy': rng.choice(list(strategies))}
    if kind == 'fixed':
        i['step'] = rng.choice([0.125, 0.25, 0.25, 0.5])
        i['via_options'] = rng.random() < 0.5
    else:
        i['rtol'], i['atol'] = 1e-6, 1e-8
    if i['strategy'] == 'checkpoint':
        i['nr'] = rng.choice([1, 3]) if kind == 'fixed' else rng.choice([1, 2, 3, 4])
    elif i['strategy'] == 'interval':
        i['every'] = rng.choice([0.25, 0.5]) if kind == 'fixed' else rng.choice([0.25, 0.3, 0.4, 0.5])
    return i


def make_integrator(i, options=None):
    kw = {}
    if i['name'] == 'dopri5':
        kw.update(rtol=i['rtol'], atol=i['atol'])
    elif i.get('via_options'):
        options = dict(options or {}, step_size=i['step'])
    else:
        kw['step_size'] = i['step']
    if i['strategy'] == 'adjoint':
        kw['use_adjoint_integration'] = True
    elif i['strategy'] == 'checkpoint':
        kw['nr_of_checkpoints'] = i['nr']
    elif i['strategy'] == 'interval':
        kw['checkpointing_time_interval'] = i['every']
    if i['name'] in ('rk4', 'dopri5'):          # otherwise the default, which is the same library
        kw['integrator_library'] = 'odeint'
    return gi.GenericIntegrator(integrator_name=i['name'], integrator_options=options, **kw)


def direct_integrator(i):
    j = {k: v for k, v in i.items() if k not in ('nr', 'every')}
    j['strategy'] = 'direct'
    return j


def make_model(c, pass_through=False, state_initializer=None, costate_initializer=None, in_features=None, particle_dimension=None):
    cls = getattr(sm, MODELS[c['model']][0])
    kw = dict(in_features=in_features or c['D'], nonlinearity=c['nl'], nr_of_particles=c['N'], parameter_weight=c['weight'])
    if c['model'] in CONV:
        kw.update(particle_dimension=particle_dimension or c['D'], particle_size=[c['S'], c['S']])
        init = pi.ConvolutionEvolutionParameterInitializer
    else:
        kw.update(particle_dimension=c.get('P', 1), particle_size=c['D'])
        if c.get('tr'):
            kw.update(particle_dimension=c['D'], particle_size=c.get('P', 1), transpose_state_when_forward=True)
        init = pi.VectorEvolutionParameterInitializer
    if MODELS[c['model']][1]:
        kw['inflation_factor'] = c['infl']
    if c.get('init'):
        kw.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=c['init'])
    if c['analytic']:
        kw['use_analytic_solution'] = True
    if c['mode'] == 'rnn':
        kw['use_rnn_mode'] = True
    if 'opt_weight' in c:
        kw['optional_weight'] = c['opt_weight']
    if pass_through:
        kw['is_pass_through'] = True
    kw['state_initializer'] = state_initializer or init(only_random_initialization=True, random_initialization_magnitude=c['mag'])
    kw['costate_initializer'] = costate_initializer or init(only_random_initialization=True, random_initialization_magnitude=c['mag'])
    m = cls(**kw)
    if c.get('hw'):
        m.create_default_parameter_objects = OwnWeights(m.create_default_parameter_objects, c)
    return m


def make_block(c, name='block', pass_through=False, integrator=None, seed=None, zero_states=False, **mk):
    torch.manual_seed(c['seed'] if seed is None else seed)
    model = make_model(c, pass_through=pass_through, **mk)
    kw = {}
    if c['mode'] == 'pf_rnn':
        kw['use_particle_free_rnn_mode'] = True
    elif c['mode'] == 'pf_td':
        kw.update(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=c['steps'])
    if c.get('explicit_T'):
        kw['max_integration_time'] = c['T']
    if zero_states:
        kw['keep_initial_state_parameters_at_zero'] = True
    return sb.ShootingBlockBase(name=name, shooting_integrand=model, integrator=integrator or make_integrator(c['integrator']), **kw)


def data_of(c, seed, batch):
    g = torch.Generator().manual_seed(seed)
    if c['model'] in CONV:
        shape = (batch, c['D'], c['S'], c['S'])
    else:
        shape = (batch, c['D'], c.get('P', 1)) if c.get('tr') else (batch, c.get('P', 1), c['D'])
    return 0.7 * torch.randn(shape, generator=g, dtype=torch.float64).to(torch.get_default_dtype())


def named(block):
    return dict(block.named_parameters())


def values(block):
    return {k: v.detach().clone() for k, v in block.named_parameters()}


def set_values(block, vals):
    with torch.no_grad():
        for k, p in block.named_parameters():
            p.copy_(vals[k])


def perturb(block, seed, scale=0.05):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for k, p in sorted(block.named_parameters()):
            p.add_(scale * torch.randn(p.shape, generator=g, dtype=torch.float64).to(p.dtype))


# ----------------------------------------------------------------------------------------------------------------------
# reference model

def layers(c, in_features=None):
    D = in_features or c['D']
    B = D * c['infl'] if MODELS[c['model']][1] else D
    m = c['model']
    if m == 'simple':
        return {'l1': (D, D, True)}
    if m == 'debug':
        return {'l1': (D, D, True), 'l2': (D, D, True)}
    if m in ('second',):
        return {'l1': (D, D, True), 'l2': (D, D, True)}
    if m in ('updown', 'dampq2', 'damped'):
        return {'l1': (D, B, True), 'l2': (B, D, True)}
    if m == 'universal':
        return {'l1': (D, B, True), 'l2': (B, D, True), 'l3': (B, B, False)}
    if m == 'periodic':
        return {'l1': (D, B, True), 'l2': (B, D, True), 'l3': (D, D, False)}
    if m == 'general':
        return {'l11': (D, B, True), 'l12': (D, D, False), 'l13': (D, D, False), 'l14': (D, B, False),
                'l21': (B, D, True), 'l22': (B, B, False), 'l23': (B, B, False), 'l24': (B, D, False)}
    if m in ('conv', 'convbatch'):
        return {'conv1': (D, D, True), 'conv2': (D, D, True)}
    if m == 'symm':
        return {'l1': (D, B, True), 'l2': (B, D, True), 'l3': (B, D, True)}
    if m == 'convupdown':
        return {'conv1': (D, B, True), 'conv2': (B, D, True)}
    raise KeyError(m)


def state_names(c):
    return {'simple': ['q1'], 'damped': ['c1', 'c2', 'q1', 'q2'], 'symm': ['q1', 'q2', 'q3']}.get(c['model'], ['q1', 'q2'])


def theta_weights(c):
    w = {}
    for l, (o, i, b) in layers(c).items():
        base = 1.0 if c['weight'] is None else c['weight']
        w[l + '.weight'] = base
        if b:
            w[l + '.bias'] = base
    if c['model'] == 'universal':
        w['l3.weight'] = c.get('opt_weight', 10)
    w.update(c.get('hw', {}))
    return w


def zero_theta(c, in_features=None):
    th = {}
    for l, (o, i, b) in layers(c, in_features).items():
        th[l + '.weight'] = torch.zeros((o, i, 3, 3) if l.startswith('conv') else (o, i))
        if b:
            th[l + '.bias'] = torch.zeros(o)
    return th


def f_rhs(c, q, th):
    """Right hand side of the state equation; q: dict name -> tensor, th: dict 'layer.par' -> tensor."""
    nl = NL[c['nl']]
    m = c['model']

    def L(l, x):
        if l.startswith('conv'):
            return F.conv2d(x, th[l + '.weight'], th[l + '.bias'], padding=1)
        y = x @ th[l + '.weight'].t()
        return y + th[l + '.bias'] if l + '.bias' in th else y

    if m == 'simple':
        return {'q1': L('l1', nl(q['q1']))}
    if m == 'debug':
        return {'q1': L('l1', nl(q['q1'])), 'q2': L('l2', nl(q['q2']))}
    if m in ('second', 'updown'):
        return {'q1': L('l1', nl(q['q2'])), 'q2': L('l2', q['q1'])}
    if m == 'dampq2':
        return {'q1': L('l1', nl(q['q2'])), 'q2': L('l2', q['q1']) + 0.5 * q['q2']}
    if m == 'damped':
        return {'c1': torch.zeros_like(q['c1']), 'c2': torch.zeros_like(q['c2']),
                'q1': L('l1', nl(q['q2'])) - nl(q['c1']) * q['q1'], 'q2': L('l2', nl(q['q1'])) - nl(q['c2']) * q['q2']}
    if m == 'universal':
        return {'q1': L('l1', nl(q['q2'])), 'q2': L('l2', q['q1']) + L('l3', nl(q['q2']))}
    if m == 'periodic':
        return {'q1': L('l1', nl(q['q2'])) + L('l3', q['q1']), 'q2': L('l2', q['q1'])}
    if m == 'general':
        return {'q1': L('l11', nl(q['q2'])) + L('l12', q['q1']) + L('l13', nl(q['q1'])) + L('l14', q['q2']),
                'q2': L('l21', q['q1']) + L('l22', q['q2']) + L('l23', nl(q['q2'])) + L('l24', nl(q['q1']))}
    if m == 'symm':
        return {'q1': L('l1', nl(q['q2'])), 'q2': L('l2', nl(q['q3'])), 'q3': L('l3', q['q1'])}
    if m in ('conv', 'convupdown'):
        return {'q1': L('conv1', nl(q['q2'])), 'q2': L('conv2', q['q1'])}
    if m == 'convbatch':
        x = q['q1']
        mu = x.mean(dim=(2, 3), keepdim=True)
        va = ((x - mu) ** 2).mean(dim=(2, 3), keepdim=True)
        return {'q1': L('conv1', nl(q['q2'])), 'q2': L('conv2', (x - mu) / torch.sqrt(va + 1e-5))}
    raise KeyError(m)


def potential(c, q, p, th):
    f = f_rhs(c, q, th)
    return sum((p[k] * f[k]).mean(dim=0).sum() for k in f)


def theta_star(c, q, p):
    th0 = {k: v.requires_grad_(True) for k, v in zero_theta(c, in_features=_features(c, q)).items()}
    U = potential(c, q, p, th0)
    g = torch.autograd.grad(U, list(th0.values()), create_graph=True)
    w = theta_weights(c)
    return {k: gk / w[k] for k, gk in zip(th0, g)}


def _features(c, q):
    return q['q1'].shape[1] if c['model'] in CONV else q['q1'].shape[2]


def penalty(c, th):
    w = theta_weights(c)
    return 0.5 * sum(w[k] * (th[k] ** 2).sum() for k in th)


def pf_theta(c, params, i):
    return {k: params['pf_timestep{}_{}'.format(i, k.replace('.', '_'))] for k in zero_theta(c)}


def pf_index(c, t, T):
    """Index of the parameter set valid at time t: the last grid time that is not later than t."""
    n = c['steps'] if c['mode'] == 'pf_td' else 1
    i = 0
    for k in range(n):
        if t >= T * k / n:
            i = k
    return i


def costate_rhs(c, q, p, th):
    """dp/dt at fixed theta (by the envelope theorem also the derivative of the reduced Lagrangian)."""
    q = {k: v.view_as(v) for k, v in q.items()}      # new nodes of the graph: theta, which was computed from q, stays fixed
    U = potential(c, q, p, th)
    ks = list(q)
    g = torch.autograd.grad(U, [q[k] for k in ks], create_graph=True, allow_unused=True)
    n = q[ks[0]].shape[0]
    return {k: (-n * gk if gk is not None else torch.zeros_like(q[k])) for k, gk in zip(ks, g)}


def initial_data(c, params, x):
    d = {'q1': x}
    if 'q2' not in state_names(c):
        return d
    if c['model'] == 'symm':
        return {'q1': x, 'q2': x, 'q3': x}
    if c['model'] == 'damped':
        d['c1'] = d['c2'] = torch.zeros((x.shape[0],) + (1,) * (x.dim() - 1))
    if c.get('tr'):
        return {'q1': x, 'q2': torch.zeros_like(x)}
    if not c.get('init'):
        if c['model'] in CONV:
            ch = x.shape[1] * (c['infl'] if MODELS[c['model']][1] else 1)
            d['q2'] = torch.zeros((x.shape[0], ch) + tuple(x.shape[2:]))
        else:
            b = c['D'] * (c['infl'] if MODELS[c['model']][1] else 1)
            d['q2'] = torch.zeros(tuple(x.shape[:-1]) + (b,))
    elif c['model'] in CONV:
        h = x
        for l in ['simple_init'] if c['init'] == 'linear' else ['init_l1', 'init_l2']:
            h = F.conv2d(NL[c['nl']](h) if l == 'init_l2' else h, params[l + '__weight'], params[l + '__bias'])
        d['q2'] = h
    elif c['init'] == 'direct':
        v = params['data_q20']
        d['q2'] = v.expand(tuple(x.shape[:-2]) + tuple(v.shape))
    elif c['init'] == 'linear':
        d['q2'] = x @ params['simple_init__weight'].t() + params['simple_init__bias']
    else:
        h = NL[c['nl']](x @ params['init_l1__weight'].t() + params['init_l1__bias'])
        d['q2'] = h @ params['init_l2__weight'].t() + params['init_l2__bias']
    return d


class Ref(object):
    """Reference forward pass. params: dict name -> tensor (may require gradients)."""

    def __init__(self, c, T_build=None):
        self.c = c
        self.T_build = T_build if T_build is not None else (c['T'] if c.get('explicit_T') else 1.0)

    def theta_at(self, params, t, q, p, th_first):
        c = self.c
        if c['mode'].startswith('pf'):
            return pf_theta(c, params, pf_index(c, float(t), self.T_build))
        if c['mode'] == 'rnn':
            return th_first
        return theta_star(c, q, p)

    def run(self, params, data, t, q0=None, p0=None, integrator=None, record=None):
        """
        :param data: dict of initial data states
        :return: dict with trajectories 'q','p','d' (dict name -> [time,...]) , 'penalty'
        """
        c = self.c
        names = state_names(c)
        pf = c['mode'].startswith('pf')
        with torch.enable_grad():
            if not pf:
                q0 = q0 or {k: params[k] for k in names}
                p0 = p0 or {k: params['p_' + k] for k in names}
            if c.get('tr'):         # the equations hold for the transposed states
                q0, p0, data = [e and {k: v.transpose(-1, -2) for k, v in e.items()} for e in (q0, p0, data)]
            parts = []
            if not pf:
                parts += [('q', k, q0[k]) for k in names] + [('p', k, p0[k]) for k in names]
            parts += [('d', k, data[k]) for k in names]
            shapes = [(a, k, v.shape, v.numel()) for a, k, v in parts]
            y0 = torch.cat([v.reshape(-1) for _, _, v in parts])

            def split(y):
                o = {'q': {}, 'p': {}, 'd': {}}
                i = 0
                for a, k, s, n in shapes:
                    o[a][k] = y[..., i:i + n].reshape(tuple(y.shape[:-1]) + tuple(s))
                    i += n
                return o

            th_first = None
            if not pf:
                if not y0.requires_grad:
                    y0 = y0.detach().requires_grad_(True)
                s0 = split(y0)
                th_first = theta_star(c, s0['q'], s0['p'])

            def rhs(tt, y):
                with torch.enable_grad():
                    if not y.requires_grad:
                        y = y.detach().requires_grad_(True)
                    s = split(y)
                    th = self.theta_at(params, tt, s['q'], s['p'], th_first)
                    out = {'d': f_rhs(c, s['d'], th)}
                    if not pf:
                        out['q'] = f_rhs(c, s['q'], th)
                        out['p'] = costate_rhs(c, s['q'], s['p'], th)
                    if record is not None:
                        record.append({'t': float(tt), 'theta': {k: v.detach().clone() for k, v in th.items()},
                                       'y': {a: {k: v.detach().clone() for k, v in s[a].items()} for a in s},
                                       'dot': {a: {k: v.detach().clone() for k, v in out[a].items()} for a in out}})
                    return torch.cat([out[a][k].reshape(-1) for a, k, _, _ in shapes])

            i = integrator or c['integrator']
            if i['name'] == 'dopri5':
                sol = odeint(rhs, y0, t, rtol=i['rtol'], atol=i['atol'], method='dopri5')
            else:
                sol = odeint(rhs, y0, t, method=i['name'], options={'step_size': i['step']})
            out = split(sol)
            if c.get('tr'):
                out = {a: {k: v.transpose(-1, -2) for k, v in e.items()} for a, e in out.items()}
            if pf:
                n = c['steps'] if c['mode'] == 'pf_td' else 1
                out['penalty'] = sum(penalty(c, pf_theta(c, params, k)) for k in range(n)) / n
            else:
                out['penalty'] = penalty(c, th_first)
            out['theta0'] = th_first
            return out


def leaf_copy(params):
    return {k: v.detach().clone().requires_grad_(True) for k, v in params.items()}


def same_bits(a, b):
    return a.shape == b.shape and torch.equal(torch.nan_to_num(a, nan=123.0), torch.nan_to_num(b, nan=123.0))


BLOWUP = 1e4      # beyond this the trajectory is about to blow up: rounding differences are amplified without bound


def blown(tensors):
    return any(t.numel() and not (t.detach().abs().max() < BLOWUP) for t in tensors)


def close(a, b, rtol, atol):
    if a.shape != b.shape:
        return False, 'shape {} vs {}'.format(tuple(a.shape), tuple(b.shape))
    if not torch.isfinite(b).all() or (b.numel() and b.abs().max() > BLOWUP):
        return True, 'reference not finite or blown up'
    d = (a - b).abs()
    if not torch.isfinite(d).all():
        return False, 'non-finite result'
    lim = atol + rtol * b.abs().max() if b.numel() else torch.tensor(0.0)
    if b.numel() and d.max() > lim:
        return False, 'max difference {:.3e} (allowed {:.3e})'.format(d.max().item(), float(lim))
    return True, ''
