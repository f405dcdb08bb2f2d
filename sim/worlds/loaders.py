"""C23: the data loaders deliver the samples of their split, whatever happened to earlier and concurrent passes."""
import random

import numpy as np
import torch
import torch.utils.data
import torchvision.datasets as tvd
import torchvision.transforms          # noqa: imported by the code under test, once for all simulated processes
from PIL import Image

from sim.core import World, Violation

KINDS = {'MNIST': ('L', 28, 10), 'CIFAR10': ('RGB', 32, 10), 'CIFAR100': ('RGB', 32, 100)}
NAMES = ('train', 'test', 'eval')          # in the order in which the loaders are returned
CURRENT = []                               # the store of the running simulation


def stand_in(name):
    mode, edge, nclass = KINDS[name]

    class SimDataset(torch.utils.data.Dataset):
        classes = [str(c) for c in range(nclass)]

        def __init__(self, root, train=True, transform=None, target_transform=None, download=False):
            store = self.store = CURRENT[-1]
            store.tr.sim_steps += 1
            if store.fail_open is not None:
                store.fail_open -= 1
                if store.fail_open < 0:
                    store.fail_open = None
                    store.tr.fault('download-fails')
                    raise OSError('injected: download failed')
            if download:
                store.present.add((name, str(root)))
            if (name, str(root)) not in store.present:
                raise RuntimeError('Dataset not found. You can use download=True to download it')
            self.root, self.train, self.transform, self.target_transform = root, train, transform, target_transform
            self.targets = [store.label(name, train, i) for i in range(len(self))]

        def __len__(self):
            return self.store.size(self.train)

        def __getitem__(self, i):
            store = self.store
            i = int(i)
            if not 0 <= i < len(self):
                raise IndexError(i)
            store.tr.sim_steps += 1
            if store.fail_read is not None:
                store.fail_read[0] -= 1
                if store.fail_read[0] < 0:
                    kind = store.fail_read[1]
                    store.fail_read = None
                    store.tr.fault('read-' + kind)
                    raise KeyboardInterrupt('injected') if kind == 'interrupt' else OSError('injected: read error')
            v = store.value(self.train, i)
            img = Image.new(mode, (edge, edge), v if mode == 'L' else (v, v, v))
            if self.transform is not None:
                img = self.transform(img)
            y = self.targets[i]
            if self.target_transform is not None:
                y = self.target_transform(y)
            return img, y
    SimDataset.__name__ = SimDataset.__qualname__ = name
    return SimDataset


# in place before the code under test is imported, however it refers to the data sets
for _name in KINDS:
    _class = stand_in(_name)
    for _module in (tvd, tvd.mnist, tvd.cifar):
        if hasattr(_module, _name):
            setattr(_module, _name, _class)

import neuro_shooting.data_loaders as dl      # noqa: E402
import neuro_shooting.utils as nsu            # noqa: E402


class Store(object):
    """What the downloaded data sets contain, and which read or download fails."""

    def __init__(self, plan, tr):
        self.plan, self.tr = plan, tr
        self.present = set()
        self.fail_read = None
        self.fail_open = None
        self.epoch = 0                     # how often a random seed was set

    def size(self, train):
        return self.plan['ntrain'] if train else self.plan['ntest']

    @staticmethod
    def value(train, i):
        return 1 + i if train else 131 + i

    def label(self, name, train, i):
        return (7 * i + (3 if train else 5)) % KINDS[name][2]


class Pass(object):
    def __init__(self, it, loaders, kind, epoch):
        self.it, self.loaders, self.kind, self.epoch = it, loaders, kind, epoch
        self.seen = []
        self.changed = 0
        self.batches = 0


class LoaderWorld(World):
    pid = 'C23'
    quick_runs = 1500
    thorough_runs = 20000
    real = ['data_loaders', 'torch data loader (single process)', 'torchvision transforms', 'utils.setup_random_seed']
    stub = ['torchvision data sets (in memory, with a missing copy, failing downloads and failing reads)']
    assumptions = ['no worker processes', 'incomplete last batches are dropped (all loaders)']
    rule = ('loaders of the three data sets with seeded sizes, batch sizes and augmentation are created (downloads may fail and are '
            'repeated), passes over training, test and evaluation data are started, interleaved, abandoned, hit by read errors and '
            'interrupts, and restarted; other users draw random numbers in between; every batch is compared with the contents of the '
            'split; whole passes are repeated with the same seed; non-trivial: at least two passes')

    def gen(self, rng, tier):
        p = {'ntrain': rng.choice([1, 3, 5, 12, 20, 37, 64, 100]), 'ntest': rng.choice([1, 3, 6, 20, 50, 90]), 'dtype': 'float32'}
        ops = [self.gen_load(rng, p)]
        for _ in range(rng.randint(4, 14 if tier == 'quick' else 40)):
            r = rng.random()
            if r < 0.1:
                ops.append(self.gen_load(rng, p))
            elif r < 0.35:
                ops.append({'op': 'start', 'which': rng.randrange(4), 'kind': rng.choice(NAMES), 'seed': rng.choice([None, None, 0, 7, 1234])})
            elif r < 0.65:
                ops.append({'op': 'next', 'which': rng.randrange(4), 'n': rng.choice([1, 1, 2, 3, 100])})
            elif r < 0.75:
                ops.append({'op': 'noise', 'n': rng.randint(1, 5)})
            elif r < 0.85:
                ops.append({'op': 'fault', 'after': rng.choice([0, 1, 5, rng.randrange(40)]), 'kind': rng.choice(['error', 'interrupt'])})
                ops.append({'op': 'next', 'which': rng.randrange(4), 'n': 100})
            else:
                ops.append({'op': 'repeat', 'which': rng.randrange(4), 'seed': rng.choice([0, 1, 42, 123456])})
        return dict(p, ops=ops)

    @staticmethod
    def gen_load(rng, p):
        sizes = [1, 2, 5, 8, 16, 30, 200]
        return {'op': 'load', 'dataset': rng.choice(sorted(KINDS)), 'aug': rng.random() < 0.4, 'bs': rng.choice(sizes + [max(p['ntrain'], 1)]),
                'tbs': rng.choice(sizes + [max(p['ntest'], 1), max(p['ntrain'], 1)]), 'fail': rng.choice([None] * 6 + [0, 1, 2])}

    def simplify(self, plan):
        for k, v in (('ntrain', 12), ('ntest', 6)):
            if plan[k] > v:
                yield dict(plan, **{k: v})

    def nontrivial(self, plan, res):
        return res['ops'].get('start', 0) + res['ops'].get('repeat', 0) >= 2

    # ------------------------------------------------------------------------------------------------------------------
    def load(self, o, store, tr):
        store.fail_open = o.get('fail')
        for attempt in range(2):
            try:
                got = dl.get_data_loaders(o['dataset'], data_aug=o['aug'], batch_size=o['bs'], test_batch_size=o['tbs'])
                break
            except OSError:
                if attempt or not tr.faults.get('download-fails'):
                    raise
                tr.probe('loaded-again-after-failed-download')
        store.fail_open = None
        if got[3] != KINDS[o['dataset']][2]:
            raise Violation('number-of-classes', '{}: {}'.format(o['dataset'], got[3]))
        return dict(zip(NAMES, got[:3]), cfg=o, last=None)

    def begin(self, loaders, kind, store):
        return Pass(iter(loaders[kind]), loaders, kind, store.epoch)

    def step(self, p, store, tr):
        """One batch; returns False at the end of the pass."""
        o = p.loaders['cfg']
        train = p.kind != 'test'
        bs = o['bs'] if p.kind == 'train' else o['tbs']
        n = store.size(train)
        try:
            x, y = next(p.it)
        except StopIteration:
            tr.checks += 1
            if p.batches != n // bs:
                raise Violation('pass-incomplete', '{} batches of {} in a pass over {} {} samples'.format(p.batches, bs, n, p.kind))
            if p.kind == 'train' and len(p.seen) >= 12:
                if p.seen == sorted(p.seen):
                    raise Violation('not-shuffled', 'the training samples come in their original order')
                # (no seed was set since either of the two passes was started)
                if p.epoch == store.epoch and p.loaders['last'] == (p.epoch, p.seen):
                    raise Violation('not-shuffled', 'two passes have the same order')
                p.loaders['last'] = (p.epoch, p.seen)
                if o['aug'] and not p.changed:
                    raise Violation('not-augmented', 'no training sample of a whole pass was changed by the augmentation')
            tr.probe('pass-completed-' + p.kind)
            return False
        p.batches += 1
        tr.checks += 1
        mode, edge, _ = KINDS[o['dataset']]
        aug = o['aug'] and p.kind == 'train'
        size = 28 if aug else edge
        if tuple(x.shape) != (bs, 1 if mode == 'L' else 3, size, size) or tuple(y.shape) != (bs,):
            raise Violation('batch-shape', '{} {} for batch size {} of {} {}'.format(tuple(x.shape), tuple(y.shape), bs, o['dataset'], p.kind))
        vals = (x * 255).round().to(torch.int64)
        centre = vals[:, 0, size // 2, size // 2].tolist()
        base = store.value(train, 0)
        for j, c in enumerate(centre):
            i = c - base
            if not 0 <= i < n:
                raise Violation('foreign-sample', 'sample {} of a {} pass is not part of its split'.format(c, p.kind))
            if i in p.seen:
                raise Violation('sample-repeated', 'sample {} twice in one {} pass'.format(i, p.kind))
            if p.kind != 'train' and i != len(p.seen):
                raise Violation('order-changed', '{} pass: sample {} at position {}'.format(p.kind, i, len(p.seen)))
            p.seen.append(i)
            if int(y[j]) != store.label(o['dataset'], train, i):
                raise Violation('wrong-label', 'sample {} has label {} instead of {}'.format(i, int(y[j]), store.label(o['dataset'], train, i)))
            same = bool((vals[j] == c).all())
            if not aug and not same:
                raise Violation('image-changed', 'sample {} of a {} pass'.format(i, p.kind))
            if not bool(((vals[j] == c) | (vals[j] == 0)).all()):
                raise Violation('image-changed', 'sample {} has foreign values'.format(i))
            p.changed += not same
        tr.log('batch', p.kind, centre)
        return True

    def run(self, plan, tr, scratch):
        store = Store(plan, tr)
        CURRENT[:] = [store]
        self.history(plan, tr, store)

    def history(self, plan, tr, store):
        sets, passes, orders = [], [], {}
        for o in plan['ops']:
            tr.op(o['op'])
            if o['op'] == 'load':
                sets = (sets + [self.load(o, store, tr)])[-3:]
            elif not sets:
                continue
            elif o['op'] == 'start':
                if o['seed'] is not None:
                    nsu.setup_random_seed(o['seed'])
                    store.epoch += 1
                passes = (passes + [self.begin(sets[o['which'] % len(sets)], o['kind'], store)])[-4:]
            elif o['op'] == 'next' and passes:
                i = o['which'] % len(passes)
                for _ in range(o['n']):
                    try:
                        if not self.step(passes[i], store, tr):
                            passes.pop(i)
                            break
                    except (OSError, KeyboardInterrupt) as e:
                        if 'injected' not in str(e):
                            raise
                        passes.pop(i)            # the pass is lost; later ones must be complete
                        break
            elif o['op'] == 'noise':
                for _ in range(o['n']):
                    torch.rand(3), np.random.rand(2), random.random()
            elif o['op'] == 'fault':
                store.fail_read = [o['after'], o['kind']]
            elif o['op'] == 'repeat':
                store.fail_read = None
                c = sets[o['which'] % len(sets)]['cfg']
                got = []
                for k in range(2):
                    torch.rand(1 + 3 * k), np.random.rand(2), random.random()
                    nsu.setup_random_seed(o['seed'])
                    store.epoch += 1
                    l = self.load(dict(c, fail=None), store, tr)
                    p = self.begin(l, 'train', store)
                    imgs = []
                    inner = p.it
                    p.it = self.tap(inner, imgs)
                    while self.step(p, store, tr):
                        pass
                    got.append((p.seen, imgs))
                if got[0][0] != got[1][0] or len(got[0][1]) != len(got[1][1]) or not all(torch.equal(a, b) for a, b in zip(got[0][1], got[1][1])):
                    raise Violation('not-repeatable', 'two passes with the same seed differ')
                key = (c['dataset'], c['aug'], c['bs'])
                for other, seen in orders.setdefault(key, {}).items():
                    if (other == o['seed']) != (seen == got[0][0]) and len(seen) >= 12:
                        raise Violation('order-and-seed', 'seeds {} and {}: {} order'.format(other, o['seed'], 'same' if seen == got[0][0] else 'different'))
                orders[key][o['seed']] = got[0][0]
                tr.probe('pass-repeated')
            tr.state(len(sets), len(passes), [(p.kind, min(p.batches, 3)) for p in passes], store.fail_read is not None)

    @staticmethod
    def tap(it, out):
        for x, y in it:
            out.append(x)
            yield x, y
