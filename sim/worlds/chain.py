"""C11: an integration that is split over blocks, interrupted, stored and resumed gives the result of the uninterrupted one."""
import io
import os

import torch
from sortedcontainers import SortedDict

from sim import nsmodel as nm
from sim.core import Violation, tensor_sig
from sim.worlds.block import BlockWorld, Counter, compare_grads, loss_of, run_with_fault
from sim.worlds.multi import ChainSim, chain_abort, chain_data, enlarge, gen_chain


def clone_dd(dd, grad=True):
    return SortedDict({b: SortedDict({k: (v if grad else v.detach().clone()) for k, v in d.items()}) for b, d in dd.items()})


def at_time(dd, i):
    return SortedDict({b: SortedDict({k: v[i] for k, v in d.items()}) for b, d in dd.items()})


def sig_dd(dd):
    return ' '.join('{}.{}'.format(k, tensor_sig(v)) for b in dd for k, v in sorted(dd[b].items()))


class Storage(object):
    """Durable storage of the simulated process: files in the scratch directory; writes can be torn or lost by a crash."""

    def __init__(self, scratch, tr):
        self.dir, self.tr, self.n = scratch, tr, 0

    def save(self, obj, fault):
        buf = io.BytesIO()
        torch.save(obj, buf)
        raw = buf.getvalue()
        self.n += 1
        path = os.path.join(self.dir, 'ckpt{:03d}'.format(self.n))
        if fault == 'lost':
            self.tr.fault('checkpoint-write-lost')
            return
        if fault == 'torn':
            self.tr.fault('checkpoint-write-torn')
            raw = raw[:len(raw) // 2]
        with open(path, 'wb') as f:
            f.write(raw)

    def latest(self):
        for i in range(self.n, 0, -1):
            path = os.path.join(self.dir, 'ckpt{:03d}'.format(i))
            try:
                return torch.load(path, weights_only=False)
            except Exception:
                self.tr.probe('unreadable-checkpoint-skipped')
        return None


class ResumeWorld(BlockWorld):
    pid = 'C11'
    quick_runs = 420
    thorough_runs = 12000
    assumptions = BlockWorld.assumptions + ['splits lie on the step grid of the fixed-step solvers']
    rule = ('a time interval is split at seeded points; every part is integrated by a (new or reused) block that receives states, '
            'costates and data of the previous one, also from an output at several times; parts are aborted at seeded evaluations and '
            'repeated; the process crashes and resumes from the last readable stored dictionaries (torn and lost writes); final '
            'states, costates, data and - without a crash - gradients are compared with the uninterrupted integration and the '
            'reference model; or two or three blocks with particles of their own are chained (concatenated channels or features, enlarged states, data with an additional dimension), passes are aborted at evaluations or lines; '
            'non-trivial: at least two parts')

    def gen_chain(self, rng, tier):
        plan = gen_chain(rng, tier)
        ops = [chain_abort(rng)] if rng.random() < 0.3 else []
        for _ in range(rng.randint(2, 4 if tier == 'quick' else 8)):
            r = rng.random()
            if r < 0.5:
                ops.append({'op': 'pass', 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3]), 'lead': rng.choice([None, None, 2])})
            elif r < 0.8:
                ops.append(chain_abort(rng))
            else:
                ops.append({'op': 'perturb', 'seed': rng.randrange(10 ** 6)})
        ops.append({'op': 'pass', 'seed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3]), 'lead': None})
        return dict(plan, kind='chain', ops=ops)

    def chain(self, plan, tr, scratch):
        s = ChainSim(plan, tr)
        names = None
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'perturb':
                s.perturb(o['seed'])
            elif o['op'] == 'abort':
                s.aborted(lambda: s.forward(chain_data(s.c, o['seed'], o['batch'])), o['at'], o['exc'])
            else:
                x = chain_data(s.c, o['seed'], o['batch'], o['lead'])
                out = s.forward(x)
                tr.log('pass', tensor_sig(out[-1][0]))
                tr.checks += 1
                n = [k for k, _ in s.params()]
                if names is not None and names != n:
                    raise Violation('parameters-change-between-passes', '{} -> {}'.format(names, n))
                names = n
                vals = s.values()
                if s.exact_reference():
                    s.compare(out, s.reference(vals, x))
                t = s.twin(vals, x)
                for a, b in zip(out, t.forward(x)):
                    self.compare('fresh-chain', a, b, 1e-10, s.c)
                tr.state('chain', s.c['model'], s.c['integrator']['strategy'], len(plan['more']), x.dim())

    def gen(self, rng, tier):
        r = rng.random()
        if r < 0.2:
            return self.gen_chain(rng, tier)
        if r < 0.4:
            return self.gen_conv(rng, tier)
        cfg = nm.sample_cfg(rng, modes=('particle',), T=(1.0, 1.5, 2.0))
        cfg['explicit_T'] = True
        i = cfg['integrator']
        h = 0.5
        cfg['T'] = rng.choice([1.0, 1.5, 2.0, 3.0]) if i['name'] != 'dopri5' else 1.0
        if cfg['T'] > 1.5:
            cfg['mag'] = min(cfg['mag'], 0.2 if cfg['model'] not in nm.CONV else 0.1)
        if i['strategy'] in ('checkpoint', 'interval') and i['name'] != 'dopri5':
            cfg['integrator'] = dict(i, strategy='interval', every=0.25, step=min(i.get('step', 0.25), 0.25))
            cfg['integrator'].pop('nr', None)
        cells = int(round(cfg['T'] / h))
        ops = []
        done = 0
        while done < cells:
            k = rng.randint(1, max(1, min(2, cells - done - (1 if done == 0 and cells > 1 else 0))))
            o = {'op': 'part', 'len': k * h, 'new': rng.random() < 0.3, 'tvec': rng.random() < 0.3, 'more': rng.random() < 0.5}
            if rng.random() < 0.3:
                o['abort'] = [rng.choice([0, 1, 3, 7, -rng.randint(1, 300), -rng.randint(1, 5000)]), rng.choice(['RuntimeError', 'MemoryError', 'KeyboardInterrupt', 'SimCrash'])]
            ops.append(o)
            done += k
            if rng.random() < 0.35:
                ops.append({'op': 'save', 'fault': None})
            if rng.random() < 0.2:
                ops.append({'op': 'crash', 'during_save': rng.choice([None, 'torn', 'lost'])})
        return {'kind': 'split', 'cfg': cfg, 'ops': ops, 'batch': rng.choice([1, 2, 3]), 'seed_x': rng.randrange(10 ** 6)}

    def gen_conv(self, rng, tier):
        cfg = nm.sample_cfg(rng, models=['conv', 'conv', 'convupdown', 'convbatch'], modes=('particle',), T=(0.5, 1.0), integrators=('fixed',))
        cfg.update(D=1, explicit_T=True, mag=0.15)
        ops = [{'op': 'pass', 'xseed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3])}]
        for _ in range(rng.randint(1, 3 if tier == 'quick' else 6)):
            r = rng.random()
            if r < 0.5:
                ops.append({'op': 'pass', 'xseed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2, 3]), 'tvec': rng.random() < 0.3, 'again': rng.random() < 0.4})
            elif r < 0.8:
                ops.append({'op': 'abort', 'xseed': rng.randrange(10 ** 6), 'batch': rng.choice([1, 2]), 'at': rng.choice([0, 1, 4, 9, 17, 30, -rng.randint(1, 600), -rng.randint(1, 9000)]), 'again': rng.random() < 0.3,
                            'exc': rng.choice(['RuntimeError', 'MemoryError', 'KeyboardInterrupt'])})
            else:
                ops.append({'op': 'perturb', 'seed': rng.randrange(10 ** 6)})
        if rng.random() < 0.3:
            ops.insert(0, {'op': 'abort', 'xseed': rng.randrange(10 ** 6), 'batch': 1, 'at': rng.choice([0, 5, 10, 20, -rng.randint(1, 6000)]), 'exc': 'MemoryError'})
        return {'kind': 'conv', 'cfg': cfg, 'ops': ops, 'N2': cfg['N'] + rng.choice([0, 0, 1, 2]), 'S2': cfg['S'] + rng.choice([0, 0, 0, 1, 3])}

    def nontrivial(self, plan, res):
        return plan['kind'] in ('conv', 'chain') or sum(1 for o in plan['ops'] if o['op'] == 'part') >= 2

    def simplify(self, plan):
        for p in super(ResumeWorld, self).simplify(plan):
            if plan['kind'] == 'conv' and p['cfg'].get('N') != plan['cfg']['N']:
                continue
            yield p

    def run(self, plan, tr, scratch):
        getattr(self, plan['kind'])(plan, tr, scratch)

    # ------------------------------------------------------------------------------------------------------------------
    def split(self, plan, tr, scratch):
        c = plan['cfg']
        x = nm.data_of(c, plan['seed_x'], plan['batch'])
        parts = [o for o in plan['ops'] if o['op'] == 'part']
        if not parts:
            return
        total = sum(o['len'] for o in parts)
        # uninterrupted integration, with the real code and with the reference model
        whole = nm.make_block(c)
        whole.set_integration_time(total)
        xw = x.clone().requires_grad_(True)
        vals = nm.values(whole)
        want = whole(x=xw)
        ref = nm.Ref(c).run(vals, nm.initial_data(c, vals, x), torch.tensor([0.0, total]), integrator=nm.direct_integrator(c['integrator']))
        store = Storage(scratch, tr)
        st = {'pos': 0, 'dicts': None, 'grad': True, 'first': None, 'pt': None, 'xs': None}
        tol = 1e-9 if c['integrator']['name'] != 'dopri5' else 1e-3
        i = 0
        ops = plan['ops']
        steps = 0
        crashed = set()
        while i < len(ops):
            steps += 1
            o = ops[i]
            tr.op(o['op'])
            if o['op'] == 'part':
                self.part(c, o, st, x, vals, tr)
                st['pos'] = i + 1
            elif o['op'] == 'save' and st['dicts'] is not None:
                store.save({'pos': st['pos'], 'dicts': [clone_dd(d, grad=False) for d in st['dicts'][1:]], 'res': st['dicts'][0].detach().clone()}, o['fault'])
            elif o['op'] == 'crash' and i not in crashed:
                crashed.add(i)
                if st['dicts'] is not None and o['during_save'] is not None:
                    store.save({'pos': st['pos'], 'dicts': [clone_dd(d, grad=False) for d in st['dicts'][1:]], 'res': st['dicts'][0].detach().clone()}, o['during_save'])
                tr.fault('crash')
                last = store.latest()
                st = {'pos': 0, 'dicts': None, 'grad': last is None, 'first': None, 'pt': None, 'xs': None}
                if last is not None:
                    st['pos'] = last['pos']
                    st['dicts'] = (last['res'],) + tuple(last['dicts'])
                    tr.probe('resumed-from-storage')
                else:
                    tr.probe('restarted-from-scratch')
                i = st['pos'] - 1
            i += 1
        res = st['dicts']
        tr.log('final', tensor_sig(res[0]), sig_dd(res[1]), sig_dd(res[2]), sig_dd(res[3]))
        tr.checks += 1
        tr.state(c['model'], c['integrator']['name'], c['integrator']['strategy'], len(parts), len(crashed))
        names = nm.state_names(c)
        self.compare('uninterrupted', res, want, tol, c)
        rr = (ref['d']['q1'][-1], {'b': {k: ref['q'][k][-1] for k in names}}, {'b': {k: ref['p'][k][-1] for k in names}},
              {'b': {k: ref['d'][k][-1] for k in names}})
        self.compare('reference', res, rr, tol, c)
        if st['grad'] and st['first'] is not None:
            g1 = self.grads(st['first'], loss_of(res, 5))
            gx1 = st['xs'].grad.clone()
            g2 = self.grads(whole, loss_of(want, 5))
            gtol, gatol = 1e-8, 1e-10
            if c['integrator']['strategy'] == 'adjoint' or c['integrator']['name'] == 'dopri5':
                return      # gradients are only approximate (adjoint equation, differentiated adaptive steps)
            compare_grads(g1, g2, 'uninterrupted', gtol, gatol, 'cfg {}'.format(c))
            compare_grads({'x': gx1}, {'x': xw.grad}, 'uninterrupted', gtol, gatol, 'cfg {}'.format(c))
            tr.probe('gradient-through-parts')

    def grads(self, block, loss):
        for p in block.parameters():
            p.grad = None
        loss.backward()
        return {k: (None if p.grad is None else p.grad.clone()) for k, p in block.named_parameters()}

    def compare(self, what, got, want, tol, c):
        pairs = [('result', got[0], want[0])]
        for nme, a, b in (('state', got[1], want[1]), ('costate', got[2], want[2]), ('data', got[3], want[3])):
            fa = [v for d in a for _, v in sorted(a[d].items())]
            fb = [v for d in b for _, v in sorted(b[d].items())]
            if len(fa) != len(fb):
                raise Violation('structure-differs', '{}: {} entries instead of {}'.format(nme, len(fa), len(fb)))
            pairs += [('{}{}'.format(nme, i), u, v) for i, (u, v) in enumerate(zip(fa, fb))]
        if nm.blown([b for _, _, b in pairs]):
            return
        for n, a, b in pairs:
            ok, why = nm.close(a.detach(), b.detach(), tol, tol * 0.1 + 1e-11)
            if not ok:
                raise Violation('resumed-differs-' + what, '{}: {} cfg {}'.format(n, why, c))

    @staticmethod
    def check_inputs(before, given):
        for d0, d1 in zip(before, given):
            if list(d0) != list(d1) or any(list(d0[b]) != list(d1[b]) for b in d0):
                raise Violation('inputs-changed', 'block changed the keys of the dictionaries it was given: {} -> {}'.format(
                    {b: list(d0[b]) for b in d0}, {b: list(d1[b]) for b in d1}))
            for bn in d0:
                for k in d0[bn]:
                    if not nm.same_bits(d0[bn][k], d1[bn][k].detach()):
                        raise Violation('inputs-changed', 'block changed the values it was given: {}'.format(k))

    def part(self, c, o, st, x, vals, tr):
        first = st['dicts'] is None
        if first:
            b = nm.make_block(c, name='b0')
            with torch.no_grad():
                for k, p in b.named_parameters():
                    p.copy_(vals[k])
            st['first'] = b
            st['xs'] = x.clone().requires_grad_(True)
            call = lambda: b(x=st['xs'])
            before = None
        else:
            sd, cd, dd = st['dicts'][1:]
            name = 'b1' if 'b1' not in sd else 'b2'       # a block may not consume its own output (names have to be unique)
            st['pt'] = st['pt'] or {}
            if name not in st['pt'] or o['new']:
                st['pt'][name] = nm.make_block(c, name=name, pass_through=True, seed=c['seed'] + 17)
            else:
                tr.probe('pass-through-block-reused')
            b = st['pt'][name]
            before = [clone_dd(d, grad=False) for d in (sd, cd, dd)]
            call = lambda: b(pass_through_state_dict_of_dicts=sd, pass_through_costate_dict_of_dicts=cd, data_dict_of_dicts=dd)
        b.shooting_integrand.register_lagrangian_gradient_hook(Counter(tr)) if first else None
        if o['tvec']:
            t = [0.0, 0.25, o['len']] + ([o['len'] + 0.25, o['len'] + 0.5] if o['more'] else [])
            b.set_integration_time_vector(torch.tensor(t), suppress_warning=True)
            pick = 2
        else:
            b.set_integration_time(o['len'])
            pick = None
        tr.sim_time += o['len']
        if o.get('abort'):
            run_with_fault(tr, [b.shooting_integrand], call, o['abort'][0], o['abort'][1])
        out = call()
        if before is not None:
            self.check_inputs(before, st['dicts'][1:])
        if pick is not None:
            out = (out[0][pick],) + tuple(at_time(d, pick) for d in out[1:])
            tr.probe('continued-from-intermediate-time')
        if not st['grad']:
            out = (out[0].detach(),) + tuple(clone_dd(d, grad=False) for d in out[1:])
        st['dicts'] = out
        tr.log('part', o['len'], tensor_sig(out[0]))

    # ------------------------------------------------------------------------------------------------------------------
    def conv(self, plan, tr, scratch):
        c = plan['cfg']
        c2 = dict(c, N=plan['N2'], S=plan['S2'])
        b0 = nm.make_block(c, name='b0', in_features=1, particle_dimension=1)
        b1 = nm.make_block(c2, name='b1', in_features=2, particle_dimension=1, seed=c['seed'] + 5)
        b0.shooting_integrand.register_lagrangian_gradient_hook(Counter(tr))
        T = c['T']
        names = nm.state_names(c)
        registered = None

        kept = {'r0': None, 'before': None}

        def run(x, tvec, again=False):
            if tvec:
                b1.set_integration_time_vector(torch.tensor(tvec), suppress_warning=True)
            else:
                b1.set_integration_time(T)
            if again and kept['r0'] is not None:
                r0 = kept['r0']             # the stored output of an earlier pass of the first block
                tr.probe('stored-dictionaries-used-again')
            else:
                r0 = b0(x=x)
                kept['r0'], kept['before'] = r0, [clone_dd(d, grad=False) for d in r0[1:]]
            return r0, b1(pass_through_state_dict_of_dicts=r0[1], pass_through_costate_dict_of_dicts=r0[2], data_dict_of_dicts=r0[3])

        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'perturb':
                nm.perturb(b0, o['seed'])
                nm.perturb(b1, o['seed'] + 1)
                continue
            x = nm.data_of(c, o['xseed'], o['batch'])
            if o['op'] == 'abort':
                run_with_fault(tr, [b0.shooting_integrand, b1.shooting_integrand], lambda: run(x, None, o.get('again')), o['at'], o['exc'])
                if kept['r0'] is not None:
                    self.check_inputs(kept['before'], kept['r0'][1:])
                continue
            tvec = [0.0, 0.25, T] if o.get('tvec') else None
            r0, out = run(x, tvec, o.get('again'))
            self.check_inputs(kept['before'], kept['r0'][1:])
            pn = sorted(n for n, _ in b1.named_parameters())
            if registered is None:
                registered = pn
            elif registered != pn:
                raise Violation('parameters-change-between-passes', '{} -> {}'.format(registered, pn))
            P = nm.values(b1)
            q0, p0 = {}, {}
            for k in names:
                q0[k] = torch.cat([enlarge(r0[1]['b0'][k].detach(), P[k], P.get('pt_enlarge_' + k), 1), P[k]], dim=1)
                pk = 'p_' + k
                p0[k] = torch.cat([enlarge(r0[2]['b0'][pk].detach(), P[pk], P.get('pt_enlarge_' + pk), 1), P[pk]], dim=1)
            d0 = {}
            for k in names:
                dd = r0[3]['b0'][k].detach()
                extra = P[k].shape[1]
                d0[k] = torch.cat([dd, torch.zeros((dd.shape[0], extra) + tuple(dd.shape[2:]))], dim=1)
            t = torch.tensor(tvec if tvec else [0.0, T])
            ref = nm.Ref(c2).run({}, d0, t, q0=q0, p0=p0, integrator=nm.direct_integrator(c['integrator']))
            last = (lambda v: v) if tvec else (lambda v: v[-1])
            rr = (last(ref['d']['q1']), {'b': {k: last(ref['q'][k]) for k in names}}, {'b': {k: last(ref['p'][k]) for k in names}},
                  {'b': {k: last(ref['d'][k]) for k in names}})
            tr.checks += 1
            tr.log('chain', tensor_sig(out[0]))
            if c['integrator']['strategy'] in ('direct', 'adjoint'):
                self.compare('reference-chain', out, rr, 1e-9, c)
            tr.state('conv', c['model'], plan['N2'], plan['S2'], o['batch'], bool(tvec))
            tr.probe('chained-block-with-own-particles')
            if plan['S2'] != c['S'] or plan['N2'] != c['N']:
                tr.probe('enlarged')
