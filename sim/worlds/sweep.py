"""
Parameter sweeps (C01-C04).

The sweeper runs its real code on a scratch directory. Its file system calls and the start of a child process are seams: yield
points for concurrently running sweepers and places where a crash or an I/O error can be injected. The child (an experiment
script) is a stub: the command composed by the sweeper is executed by the real shell, with an interpreter stand-in which records
how it was called, prints a seeded output and exits as planned; the simulator then applies the effect of the experiment (the
result file appears, or not).
"""
import builtins
import errno
import io
import itertools
import json
import os
import runpy
import subprocess
import sys
import types

import neuro_shooting.experiment_utils as eu
import neuro_shooting.command_line_execution_tools as ce

from sim.core import World, Violation, SimCrash, rng_of
from sim.sched import Sched

REAL_POPEN = subprocess.Popen

STUB = r'''#!/bin/bash
# stand-in for a python interpreter: record the call, print what the simulator asked for, and end as the simulator decided
d="@CTL@"
{ printf '%s\0' "interpreter=$0"; printf '%s\0' "cuda=${CUDA_VISIBLE_DEVICES-unset}"; printf '%s\0' "cwd=$PWD"; printf '%s\0' "mark=${NS_SIM_MARK-unset}|$HOME|$PATH"; for a in "$@"; do printf 'arg=%s\0' "$a"; done; } > "$d/call.$$.tmp"
mv "$d/call.$$.tmp" "$d/call.rec"
. "$d/behave.sh"
'''


class Seams(object):
    """Replaces the file system and process functions for paths inside the scratch directory."""

    FUNCS = ['mkdir', 'stat', 'lstat', 'scandir', 'listdir', 'rmdir', 'unlink', 'remove', 'rename', 'replace']

    def __init__(self, root, on_fs, on_child):
        self.root, self.on_fs, self.on_child = root, on_fs, on_child
        self.saved = {}

    def _inside(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return not os.path.isabs(p) or p.startswith(self.root)

    def __enter__(self):
        for f in self.FUNCS:
            self.saved[f] = getattr(os, f)
            setattr(os, f, self._wrap(f, self.saved[f]))
        self.saved_open = builtins.open
        real_open = builtins.open

        def sim_open(file, *a, **k):
            if not isinstance(file, int) and self._inside(file):
                self.on_fs('open', file)
            return real_open(file, *a, **k)
        builtins.open = sim_open
        self.saved_system = os.system
        os.system = lambda cmd: self.on_child(cmd, True, {})
        seams = self

        class FakePopen(object):
            def __init__(self, args, *a, **k):
                self.args = args
                self.returncode = seams.on_child(args, bool(k.get('shell')), k)
                if os.WIFSIGNALED(self.returncode):
                    self.returncode = -os.WTERMSIG(self.returncode)
                else:
                    self.returncode = os.WEXITSTATUS(self.returncode)
                self.pid = 1
                self.stdout = self.stderr = self.stdin = None

            def wait(self, timeout=None):
                return self.returncode

            def poll(self):
                return self.returncode

            def communicate(self, input=None, timeout=None):
                return (b'', b'')

            def kill(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        subprocess.Popen = FakePopen
        return self

    def _wrap(self, name, fn):
        def w(*a, **k):
            if a and self._inside(a[0]):
                self.on_fs(name, a[0])
            return fn(*a, **k)
        return w

    def __exit__(self, *a):
        for f, fn in self.saved.items():
            setattr(os, f, fn)
        builtins.open = self.saved_open
        os.system = self.saved_system
        subprocess.Popen = REAL_POPEN
        return False


def within(path, ancestor):
    return path is not None and (path == ancestor or path.startswith(ancestor.rstrip('/') + '/'))


class SweepSim(object):

    def __init__(self, plan, tr, scratch):
        self.plan, self.tr = plan, tr
        self.root = os.path.realpath(scratch)
        self.ctl = os.path.join(self.root, 'ctl')
        self.work = os.path.join(self.root, 'work')
        os.mkdir(self.ctl)
        os.mkdir(self.work)
        os.chdir(self.work)
        self.pythons = []
        for n in plan.get('pythons', ['bin/python']):
            p = os.path.join(self.root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            self._stub(p)
            self.pythons.append(p)
        decoy = os.path.join(self.root, 'path')
        os.mkdir(decoy)
        for n in ('python', 'python3'):
            self._stub(os.path.join(decoy, n))
        os.environ['PATH'] = decoy + ':' + os.environ.get('PATH', '/usr/bin:/bin')
        os.environ['NS_SIM_MARK'] = 'm{}'.format(plan.get('oseed', 0))
        self.mark = '{}|{}|{}'.format(os.environ['NS_SIM_MARK'], os.environ.get('HOME', ''), os.environ['PATH'])
        os.environ.pop('CUDA_VISIBLE_DEVICES', None)
        if plan.get('outer_cuda') is not None:
            os.environ['CUDA_VISIBLE_DEVICES'] = plan['outer_cuda']
        self._code = {}            # thread -> is the code under test running (not the simulator)?
        self.calls = []            # history of child processes
        self.sched = None
        self.crash_at = {}         # sweeper -> (seam counter, kind)
        self.seam_count = {}
        self.child_no = 0
        self.active = 'main'
        self.dead = set()
        self.io_fault_path = None
        self.io_faults = set()
        self.tick = 0
        self.outcome_rng = rng_of('outcome', plan.get('oseed', 0))

    def _stub(self, p):
        with open(p, 'w') as f:
            f.write(STUB.replace('@CTL@', self.ctl))
        os.chmod(p, 0o755)

    # ------------------------------------------------------------------------------------------------------------------
    def who(self):
        if self.sched is not None and self.sched.me() is not None:
            return self.sched.me()
        return self.active

    def _fault_point(self, what, path=''):
        w = self.who()
        n = self.seam_count.get(w, 0)
        self.seam_count[w] = n + 1
        self.tr.sim_steps += 1
        self.tr.log('seam', w, n, what, os.path.relpath(str(path), self.root) if path else '')
        if self.sched is not None:
            self.sched.yield_point(what)
        f = self.crash_at.get(w)
        if f is not None and n == f[0]:
            del self.crash_at[w]
            self.dead.add(w)
            self.tr.fault('crash-' + f[1] if f[1] != 'crash' else 'crash-at-' + what)
            if f[1] == 'crash':
                raise SimCrash('crash')
            if f[1] == 'interrupt':
                raise KeyboardInterrupt('injected')
            self.io_fault_path = str(path)
            self.io_faults.add((w, str(path)))
            raise OSError(getattr(errno, f[1]), 'injected')

    @property
    def harness(self):
        return not self._code.get(self.who(), False)

    @harness.setter
    def harness(self, v):
        self._code[self.who()] = not v

    def on_fs(self, what, path):
        if self.harness or (self.sched is not None and self.sched.me() is None):
            return              # the simulator's own file accesses
        self._fault_point(what, os.path.abspath(os.fspath(path)))

    def _outcome(self):
        o = self.plan.get('outcomes') or {}
        r = self.outcome_rng.random()
        for k in sorted(o):
            if r < o[k]:
                return k
            r -= o[k]
        return 'ok'

    def on_child(self, cmd, shell, kw):
        self._fault_point('spawn')
        self.harness = True
        try:
            return self._child(cmd, shell, kw)
        finally:
            self.harness = False

    def _wait(self):
        self.harness = False
        try:
            self._fault_point('wait')
        finally:
            self.harness = True

    def _child(self, cmd, shell, kw):
        w = self.who()
        no = self.child_no
        self.child_no += 1
        outcome = self._outcome()
        lines = ['out line {} of child {}'.format(i, no) if i % 3 else 'ERR err {} of child {}'.format(i, no)
                 for i in range(self.plan.get('nlines', 3))]
        if self.plan.get('odd'):
            lines += ['progress 10%\rprogress 20%', '\ttab \\n back%%slash %s', '', '  \u00e9t\u00e9 ']
        if self.plan.get('blob') and lines:
            lines.append('x' * self.plan['blob'])
        end = '' if self.plan.get('unfinished') else '\n'
        with open(os.path.join(self.ctl, 'behave.sh'), 'w', encoding='utf-8', newline='') as f:
            for i, l in enumerate(lines):
                f.write("printf '%s{}' '{}'{}\n".format('\\n' if end or i + 1 < len(lines) else '', l, ' >&2' if l.startswith('ERR') else ''))
            f.write({'ok': 'exit 0', 'late': 'exit 0', 'fail': 'exit 3', 'killed': 'kill -9 $$', 'partial': 'exit 1'}[outcome] + '\n')
        rec = os.path.join(self.ctl, 'call.rec')
        if os.path.exists(rec):
            os.unlink(rec)
        k2 = {k: v for k, v in kw.items() if k in ('env', 'cwd', 'executable')}
        p = REAL_POPEN(cmd, shell=shell, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k2)
        out = p.communicate()[0]
        call = {'no': no, 'sweeper': w, 'outcome': outcome, 'output': '\n'.join(lines) + (end if lines else ''),
                'started': False, 'start_tick': self._now()}
        try:
            with open(rec, 'rb') as f:
                parts = f.read().decode('utf-8', 'replace').split('\0')[:-1]
            call['started'] = True
            call['args'] = [x[4:] for x in parts if x.startswith('arg=')]
            for key in ('interpreter', 'cuda', 'cwd', 'mark'):
                call[key] = [x for x in parts if x.startswith(key + '=')][0][len(key) + 1:]
        except OSError:
            call['args'] = []
            call['shell_output'] = out.decode('utf-8', 'replace')[-400:]
        od = self.opt(call).get('output_directory')
        call['output_directory'] = None if od is None else os.path.abspath(od)
        call['dir_exists'] = od is not None and os.path.isdir(od)
        call['pt_at_start'] = self.has_pt(call['output_directory'])
        call['stat_before'] = self.results()
        self.calls.append(call)
        self.tr.log('child', w, no, outcome, self.norm(' '.join(call['args'])))
        self.tr.op('child-' + outcome)
        # the child runs: other sweepers may be scheduled; the sweeper may crash while its child is running
        try:
            for _ in range(self.plan.get('child_yields', 2)):
                self._wait()
        except BaseException:
            if self.plan.get('orphan_finishes') and outcome == 'ok':
                self.effect(call)
                self.tr.probe('orphan-child-finished-after-crash')
            raise
        if outcome == 'ok':
            self.effect(call)
        elif outcome == 'partial' and call['output_directory'] and os.path.isdir(call['output_directory']):
            with open(os.path.join(call['output_directory'], 'figure.png'), 'w') as f:
                f.write('png')
            with open(os.path.join(call['output_directory'], 'model.pt.tmp'), 'w') as f:
                f.write('torn')
        call['end_tick'] = self._now()
        return {'ok': 0, 'late': 0, 'fail': 3 << 8, 'killed': 137 << 8, 'partial': 1 << 8}[outcome]

    def effect(self, call):
        od = call['output_directory']
        if od is not None and os.path.isdir(od):
            with open(os.path.join(od, 'result_{}.pt'.format('v')), 'w') as f:
                f.write('result of child {}'.format(call['no']))
            call['result_tick'] = self._now()

    def _now(self):
        self.tick += 1
        return self.tick

    def norm(self, s):
        return s.replace(self.root, '<ROOT>')

    # ------------------------------------------------------------------------------------------------------------------
    def has_pt(self, d):
        try:
            return d is not None and any(f.endswith('.pt') for f in os.listdir(d))
        except OSError:
            return False

    def results(self):
        """All result files and their contents."""
        out = {}
        for r, _, fs in os.walk(self.work):
            for f in fs:
                if f.endswith('.pt'):
                    with open(os.path.join(r, f)) as h:
                        out[os.path.relpath(os.path.join(r, f), self.work)] = h.read()
        return out

    @staticmethod
    def opt(call):
        """Options as the child's argument parser would see them: name -> value, or None for a bare flag."""
        a = call['args'][1:]
        out = {}
        i = 0
        while i < len(a):
            if not a[i].startswith('--'):
                out.setdefault('<positional>', []).append(a[i])
                i += 1
                continue
            k = a[i][2:]
            if k in out:
                out.setdefault('<repeated>', []).append(k)
            if '=' in k:
                k, v = k.split('=', 1)
                out[k] = v
                i += 1
            elif i + 1 < len(a) and not a[i + 1].startswith('--'):
                out[k] = a[i + 1]
                i += 2
            else:
                out[k] = None
                i += 1
        return out

    # ------------------------------------------------------------------------------------------------------------------
    def args_of(self, o):
        if o.get('cmdline'):
            return self.parsed(o)
        a = types.SimpleNamespace(gpu=o.get('gpu', 0), path_to_python=self.pythons[o.get('py', 0) % len(self.pythons)],
                                  nr_of_seeds=o['seeds'], starting_seed_id=o['start'], shooting_model=o.get('amodel', 'updown'),
                                  output_base_directory=o['base'], force_recompute=o.get('force', False))
        if o.get('afcn'):
            a.fcn = o['afcn']
        return a

    def parsed(self, o):
        """The arguments as the real command line parser delivers them (options with the default value are partly left out)."""
        argv = ['--path_to_python', self.pythons[o.get('py', 0) % len(self.pythons)], '--output_base_directory', o['base']]
        for k, v, default in (('gpu', o.get('gpu', 0), 0), ('nr_of_seeds', o['seeds'], 1), ('starting_seed_id', o['start'], 0)):
            if v != default or o['explicit']:
                argv += ['--' + k, str(v)]
        if o.get('force'):
            argv.append('--force_recompute')
        if o['cmdline'] != 'spiral' and o.get('afcn'):
            argv += ['--fcn', o['afcn']]
        if o['cmdline'] != 'simple_functional_weighting':
            argv += ['--shooting_model', o.get('amodel', 'updown')]
        saved, sys.argv = sys.argv, ['run.py'] + argv
        fake, subprocess.Popen = subprocess.Popen, REAL_POPEN       # the parser looks for the default interpreter
        try:
            a = eu.setup_cmdline_parsing(cmdline_type=o['cmdline'])
        except SystemExit as e:
            raise Violation('command-line-refused', '{} exits with {}'.format(argv, e.code))
        finally:
            sys.argv = saved
            subprocess.Popen = fake
        self.tr.probe('command-line-parsed')
        if bool(a.force_recompute) != bool(o.get('force')):
            raise Violation('command-line-differs', 'forced recomputation {} instead of {}'.format(a.force_recompute, o.get('force')))
        return a

    @staticmethod
    def expected(o):
        """The configurations of a sweep: list of (seed, point, options)."""
        keys = [k for k, _ in o['grid']]
        out = []
        for seed in range(o['start'], o['start'] + o['seeds']):
            for vals in itertools.product(*[v for _, v in o['grid']]):
                opts = {k: (None if v is None else str(v)) for k, v in o['template']}
                for k, v in zip(keys, vals):
                    if v is True:
                        opts[k] = None
                    elif v is False:
                        opts.pop(k, None)
                    else:
                        opts[k] = str(v)
                opts['seed'] = str(seed)
                out.append((seed, tuple(str(v) for v in vals), opts))
        return out

    @staticmethod
    def frozen(opts):
        return json.dumps({k: v for k, v in opts.items() if k != 'output_directory'}, sort_keys=True)

    def sweep(self, o, name='main', objects=None):
        """Run the real sweep. Returns (calls of this sweep, crashed?)"""
        from collections import OrderedDict
        grid, template = objects or (OrderedDict((k, list(v)) for k, v in o['grid']), OrderedDict((k, v) for k, v in o['template']))
        g0, t0 = json.dumps(list(grid.items())), json.dumps(list(template.items()))
        self.active = name
        kw = {}
        if o.get('prefix'):
            kw['output_dir_prefix'] = o['prefix']
        died = None
        args = self.args_of(o)
        self.harness = False
        try:
            eu.sweep_parameters(args, run_args_to_sweep=grid, run_args_template=template,
                                python_script=o.get('script', 'experiment.py'), do_not_recompute=not args.force_recompute, **kw)
        except (SimCrash, KeyboardInterrupt) as e:
            if name not in self.dead:
                raise
            died = e
        except OSError as e:
            if name not in self.dead:
                raise
            died = e
        finally:
            self.harness = True
        if json.dumps(list(grid.items())) != g0 or json.dumps(list(template.items())) != t0:
            raise Violation('sweep-changes-its-arguments', '{} {} -> {} {}'.format(g0, t0, grid, template))
        return died

    # --- checks -------------------------------------------------------------------------------------------------------
    def check_child(self, c, o, log=True):
        self.tr.checks += 1
        if not c['started']:
            raise Violation('child-not-started', 'the composed command did not start the experiment: {}'.format(c.get('shell_output')))
        want = self.pythons[o.get('py', 0) % len(self.pythons)]
        if c['interpreter'] != want:
            raise Violation('wrong-interpreter', '{} instead of {}'.format(self.norm(c['interpreter']), self.norm(want)))
        if c['cuda'] != str(o.get('gpu', 0)):
            raise Violation('wrong-gpu', 'CUDA_VISIBLE_DEVICES={} instead of {}'.format(c['cuda'], o.get('gpu', 0)))
        if not c['args'] or c['args'][0] != o.get('script', 'experiment.py'):
            raise Violation('wrong-script', str(c['args'][:1]))
        if c['cwd'] != self.work:
            raise Violation('wrong-working-directory', c['cwd'])
        if c['mark'] != self.mark:
            raise Violation('environment-changed', '{} instead of {}'.format(self.norm(c['mark']), self.norm(self.mark)))

    def check_log(self, c):
        lf = os.path.join(c['output_directory'], 'runlog.log')
        try:
            with open(lf, encoding='utf-8', errors='replace', newline='') as f:
                txt = f.read()
        except OSError:
            raise Violation('log-missing', 'no runlog.log for child {}'.format(c['no']))
        # the shell may add a line of its own about a killed child
        if c['outcome'] == 'killed':
            ok = txt.startswith(c['output'])
        else:
            ok = txt == c['output']
        if not ok:
            raise Violation('log-differs', 'log of child {} ({}) is {!r}, it printed {!r}'.format(c['no'], c['outcome'], txt[:300], c['output'][:300]))
        self.tr.probe('log-checked')


# ----------------------------------------------------------------------------------------------------------------------
# plan generation

WORDS = ['abc', 'rk4', 'x1', 'linear', 'tanh', '0.5', 'a-b', 'v_1', '[16,32]', '[8]', 'particles_initialised_uniformly_at_random',
         'particles_initialised_uniformly_at_zero', 'Abc', 'two words', "it's", 'a;b', '$HOME', 'a*', '50%', 'x&y', '"q"', 'a\\b', '{a,b}', '~', '#1', '(c)', '!x', '`d`', 'a>b', 'True', 'False', 'None', '', 'data/x.csv']
CLOSE = [0, 1, 0.0, 1.0, 2, 10, 100, 0.3333333, 0.3333334, 1e-05, 1.1e-05, 1000000, 1000001, 0.1, 0.10001]


NUMERIC = ['nr_of_particles', 'inflation_factor', 'lr', 'pw', 'niters', 'sim_norm']


def gen_value(rng):
    return rng.choice([rng.randrange(100), round(rng.random(), 3), -rng.randrange(1, 9), rng.choice(WORDS), rng.choice(CLOSE), rng.choice(CLOSE)])


def gen_sweep(rng, small=False):
    names = ['nr_of_particles', 'inflation_factor', 'lr', 'use_rnn', 'verbose', 'shooting_model', 'fcn', 'pw', 'niters', 'sim_norm']
    rng.shuffle(names)
    k = rng.choice([0, 1, 1, 2, 2, 3] if not small else [1, 1, 2])
    grid = []
    for n in names[:k]:
        if n in ('use_rnn', 'verbose'):
            vals = rng.choice([[True, False], [False, True], [True], [False]])
        elif n == 'shooting_model':
            vals = rng.sample(['updown', 'universal', 'simple', 'periodic'], rng.randint(1, 2))
        elif n == 'fcn':
            vals = rng.sample(['cubic', 'quadratic'], rng.randint(1, 2))
        else:
            vals = []
            while len(vals) < rng.randint(1, 3):
                v = gen_value(rng)
                if str(v) not in [str(x) for x in vals]:
                    vals.append(v)
        if rng.random() < 0.03:
            vals = []
        grid.append([n, vals])
    template = []
    pool = names[:k] + names[k:k + 4]
    for n in pool:
        if rng.random() < 0.5:
            if n in ('use_rnn', 'verbose'):
                template.append([n, None])
            elif n == 'shooting_model':
                template.append([n, 'updown'])
            elif n == 'fcn':
                template.append([n, 'cubic'])
            else:
                template.append([n, gen_value(rng)])
    rng.shuffle(template)
    cmdline = rng.choice([None, None, None, 'simple_functional_mapping', 'spiral', 'simple_functional_weighting'])
    if cmdline == 'simple_functional_weighting' and not any(k == 'shooting_model' for k, _ in grid + template):
        template.append(['shooting_model', 'updown'])      # this command line does not choose the model
    return {'op': 'sweep', 'cmdline': cmdline, 'explicit': rng.random() < 0.5, 'grid': grid, 'template': template, 'seeds': rng.choice([1, 1, 2, 3] if not small else [1, 1, 2]),
            'start': rng.choice([0, 0, 1, 5, 98]), 'base': rng.choice(['results', 'out/a', 'r1', 'results', 'out/a', 'r[1]']), 'prefix': rng.choice(['', '', 'pre_', 'deep/dir/']),
            'gpu': rng.choice([0, 0, 1, 3]), 'py': rng.randrange(2), 'script': rng.choice(['experiment.py', 'demos/run_it.py']),
            'afcn': rng.choice([None, 'cubic']), 'force': False}


def other_parameter(rng, o):
    """The same sweep over another parameter with the same values (None if there is none to exchange)."""
    used = {k for k, _ in o['grid']} | {k for k, _ in o['template']}
    free = [n for n in NUMERIC if n not in used]
    have = [i for i, (k, _) in enumerate(o['grid']) if k in NUMERIC]
    if not free or not have:
        return None
    i = rng.choice(have)
    return dict(o, grid=o['grid'][:i] + [[rng.choice(free), list(o['grid'][i][1])]] + o['grid'][i + 1:], crash=None)


def size(o):
    n = o['seeds']
    for _, v in o['grid']:
        n *= len(v)
    return n


class SweepWorld(World):
    real = ['experiment_utils.sweep_parameters', 'command_line_execution_tools', 'file system (scratch directory)', 'bash and tee']
    stub = ['experiment script and its python interpreter (recording stand-in)', 'process kill (exception at a seam)']
    assumptions = ['values of one swept parameter have different string representations']
    MAXSIZE = 14
    needs_torch = False

    def simplify(self, plan):
        for i, o in enumerate(plan['ops']):
            if o.get('op') != 'sweep':
                continue
            for j in range(len(o['grid'])):
                ops = list(plan['ops'])
                ops[i] = dict(o, grid=o['grid'][:j] + o['grid'][j + 1:])
                yield dict(plan, ops=ops)
                if len(o['grid'][j][1]) > 1:
                    ops = list(plan['ops'])
                    ops[i] = dict(o, grid=o['grid'][:j] + [[o['grid'][j][0], o['grid'][j][1][:-1]]] + o['grid'][j + 1:])
                    yield dict(plan, ops=ops)
            for j in range(len(o['template'])):
                ops = list(plan['ops'])
                ops[i] = dict(o, template=o['template'][:j] + o['template'][j + 1:])
                yield dict(plan, ops=ops)
            for k, v in (('seeds', 1), ('start', 0), ('prefix', ''), ('gpu', 0)):
                if o.get(k) != v:
                    ops = list(plan['ops'])
                    ops[i] = dict(o, **{k: v})
                    yield dict(plan, ops=ops)

    def make(self, rng, small=False):
        while True:
            o = gen_sweep(rng, small)
            if size(o) <= (self.MAXSIZE if not small else 8):
                return o


def check_grid(s, o, calls, complete=True):
    """The calls are exactly the configurations of the sweep, each once, each with a directory of its own."""
    exp = SweepSim.expected(o)
    want = sorted(s.frozen(e[2]) for e in exp)
    got = sorted(s.frozen(s.opt(c)) for c in calls)
    s.tr.checks += 1
    if complete and got != want:
        extra = [g for g in got if got.count(g) > want.count(g)]
        missing = [w for w in want if want.count(w) > got.count(w)]
        raise Violation('grid-differs', '{} runs instead of {}; not part of the sweep (or repeated): {}; missing: {}'.format(
            len(got), len(want), sorted(set(extra))[:3], sorted(set(missing))[:3]))
    if not complete:
        for g in set(got):
            if got.count(g) > want.count(g):
                raise Violation('grid-differs', 'not part of the sweep (or repeated): {}'.format(g))
    dirs = {}
    base = os.path.abspath((o.get('prefix') or '') + o['base'])
    for c in calls:
        od = c['output_directory']
        opts = s.opt(c)
        if '<positional>' in opts or '<repeated>' in opts:
            raise Violation('malformed-arguments', str(c['args']))
        if od is None or not c['dir_exists']:
            raise Violation('output-directory-missing', 'child {} was started without an existing output directory'.format(c['no']))
        if not od.startswith(base + os.sep):
            raise Violation('output-directory-outside', '{} is not below {}'.format(s.norm(od), s.norm(base)))
        if od in dirs:
            raise Violation('output-directory-shared', '{} used by {} and {}'.format(s.norm(od), dirs[od], s.frozen(opts)))
        dirs[od] = s.frozen(opts)
        s.check_child(c, o)
    return dirs


class SweepGridWorld(SweepWorld):
    pid = 'C01'
    quick_runs = 3000
    thorough_runs = 20000
    rule = ('1-4 sweeps (different grids, templates, seeds, directories; argument objects partly reused) run one after the other in '
            'one process; children fail, are killed or succeed; a sweep may be interrupted at a seeded file system call or child '
            'start; the child calls of every sweep are compared with the cartesian product; non-trivial: at least two children ran')

    def gen(self, rng, tier):
        ops = []
        for i in range(rng.randint(1, 3 if tier == 'quick' else 5)):
            o = self.make(rng)
            o['base'] = '{}_{}'.format(o['base'], i)
            if rng.random() < 0.25:
                o['crash'] = [rng.randrange(0, 40), rng.choice(['crash', 'interrupt', 'EIO', 'ENOSPC'])]
            ops.append(o)
            if rng.random() < 0.35 and i > 0:
                ops.append(dict(o, base=o['base'] + 'again', reuse=True, crash=None, force=rng.random() < 0.3))
            elif rng.random() < 0.2:
                ops.append(dict(o, start=o['start'] + rng.choice([3, 10, 100, 100, 1000]), crash=None))
            elif rng.random() < 0.2 and other_parameter(rng, o):
                ops.append(other_parameter(rng, o))
        return {'ops': ops, 'pythons': ['bin/python', 'conda/envs/e1/bin/python3.7'], 'oseed': rng.randrange(10 ** 6),
                'outcomes': rng.choice([{}, {'fail': 0.3}, {'killed': 0.2, 'partial': 0.2, 'fail': 0.2}]), 'nlines': rng.choice([0, 2, 4]),
                'child_yields': 1}

    def nontrivial(self, plan, res):
        return sum(v for k, v in res['ops'].items() if k.startswith('child')) >= 2

    def run(self, plan, tr, scratch):
        from collections import OrderedDict
        s = SweepSim(plan, tr, scratch)
        with Seams(s.root, s.on_fs, s.on_child):
            prev = None
            for o in plan['ops']:
                tr.op('sweep')
                if o.get('reuse') and prev is not None:
                    objs = prev
                    tr.probe('argument-objects-reused')
                else:
                    objs = (OrderedDict((k, list(v)) for k, v in o['grid']), OrderedDict((k, v) for k, v in o['template']))
                prev = objs
                n0 = len(s.calls)
                s.dead.discard('main')
                s.seam_count['main'] = 0
                if o.get('crash'):
                    s.crash_at['main'] = tuple(o['crash'])
                died = s.sweep(o, objects=objs)
                s.crash_at.clear()
                calls = s.calls[n0:]
                check_grid(s, o, calls, complete=died is None)
                tr.state(len(calls), died is None, bool(o.get('reuse')), len(o['grid']))
                for c in calls:
                    if c['outcome'] in ('fail', 'killed', 'partial'):
                        tr.fault('child-' + c['outcome'])


def script_parser(path):
    """The argument parser of an experiment script (which itself needs libraries that are not there), or None."""
    import argparse
    import ast
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with open(path) as f:
            tree = ast.parse(f.read())
    fns = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name == 'setup_cmdline_parsing']
    if len(fns) != 1:
        return None
    ns = {'argparse': argparse, 'os': os, 'sys': sys}
    exec(compile(ast.Module(body=fns, type_ignores=[]), path, 'exec'), ns)

    def parse(argv):
        saved, sys.argv = sys.argv, [path] + argv
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            return ns['setup_cmdline_parsing']()
        except SystemExit:
            return None
        finally:
            sys.argv, sys.stderr = saved, err
    return parse


class SweepCrashWorld(SweepWorld):
    pid = 'C02'
    quick_runs = 3000
    thorough_runs = 20000
    MAXSIZE = 8
    rule = ('the same sweep (also with more seeds or values) is started again and again after crashes, interrupts and I/O errors at '
            'seeded file system calls, child starts and child run times; children fail, are killed, leave partial files or finish '
            'after the death of the sweeper; after every attempt: exactly the configurations without a result were run, results are '
            'never touched; the last attempt is free of faults and must complete everything; non-trivial: a crash fired or a child failed')

    DRIVERS = [('run_experiments_spiral.py', 'spiral'), ('run_experiments_spiral_rnn.py', 'spiral'),
               ('run_long_iteration_experiments_simple_functional_mapping.py', 'simple_functional_mapping'),
               ('run_long_iteration_experiments_simple_functional_mapping_rnn.py', 'simple_functional_mapping')]

    def gen_driver(self, rng):
        d, cmdline = rng.choice(self.DRIVERS)
        base = {'op': 'driver', 'driver': d, 'cmdline': cmdline, 'explicit': rng.random() < 0.5, 'base': rng.choice(['results', 'sfm_results']),
                'seeds': 1, 'start': rng.choice([0, 0, 7]), 'gpu': rng.choice([0, 2]), 'py': 0,
                'amodel': rng.choice(['updown', 'simple', 'updown_universal'])}
        ops = []
        for i in range(rng.randint(1, 2)):
            o = dict(base)
            if rng.random() < 0.7:
                o['crash'] = [rng.choice([rng.randrange(0, 60), rng.randrange(0, 400)]), rng.choice(['crash', 'interrupt'])]
            elif rng.random() < 0.3:
                o['force'] = True
            ops.append(o)
        ops.append(dict(base, seeds=rng.choice([1, 1, 2]), final=True))
        return {'ops': ops, 'oseed': rng.randrange(10 ** 6), 'pythons': ['bin/python'], 'outcomes': rng.choice([{}, {'fail': 0.2}]),
                'nlines': 1, 'child_yields': 1, 'orphan_finishes': rng.random() < 0.5}

    def gen(self, rng, tier):
        if rng.random() < 0.03:
            return self.gen_driver(rng)
        base = self.make(rng, small=True)
        ops = []
        n = rng.randint(2, 4 if tier == 'quick' else 7)
        cur = base
        for i in range(n):
            o = dict(cur)
            r = rng.random()
            if r < 0.6:
                o['crash'] = [rng.choice([0, 1, 2, 3, rng.randrange(0, 60), rng.randrange(0, 60), rng.randrange(0, 200)]), rng.choice(['crash', 'crash', 'interrupt', 'EIO', 'ENOSPC', 'EACCES'])]
            elif r < 0.7:
                o['force'] = True
            if rng.random() < 0.2:
                g = [[k, list(v)] for k, v in o['grid']]
                for e in g:
                    if e[0] in ('nr_of_particles', 'lr', 'pw', 'niters'):
                        v = rng.choice(CLOSE + [1000 + i])
                        if str(v) not in [str(x) for x in e[1]]:
                            e[1].append(v)
                        break
                if size(dict(o, grid=g)) <= 10:
                    o['grid'] = g
            if rng.random() < 0.2 and size(dict(o, seeds=o['seeds'] + 1)) <= 10:
                o['seeds'] += 1
            if rng.random() < 0.2:
                o['start'] += rng.choice([1, 2, 9, 10, 100, 100, 256])
            if rng.random() < 0.15:
                o = other_parameter(rng, o) or o
            cur = {k: v for k, v in o.items() if k not in ('crash',)}
            cur['force'] = False
            ops.append(o)
            if rng.random() < 0.3:
                ops.append({'op': 'litter', 'which': rng.randrange(10), 'kind': rng.choice(['png', 'subdir', 'notpt', 'foreign'])})
        ops.append(dict(cur, crash=None, force=False, final=True))
        return {'ops': ops, 'oseed': rng.randrange(10 ** 6), 'pythons': ['bin/python', 'b2/python'],
                'outcomes': rng.choice([{}, {'fail': 0.2}, {'killed': 0.15, 'partial': 0.15, 'late': 0.1}]),
                'nlines': 1, 'child_yields': rng.choice([1, 3]), 'orphan_finishes': rng.random() < 0.5}

    def nontrivial(self, plan, res):
        return sum(res['faults'].values()) > 0

    def run(self, plan, tr, scratch):
        s = SweepSim(plan, tr, scratch)
        dir_of = {}           # configuration -> directory (must be stable, and different for different configurations)
        with Seams(s.root, s.on_fs, s.on_child):
            for o in plan['ops']:
                tr.op(o['op'])
                if o['op'] == 'litter':
                    self.litter(s, o, dir_of)
                    continue
                if o['op'] == 'driver':
                    self.driver(s, o, tr, dir_of)
                    continue
                if o.get('final'):
                    s.plan = dict(s.plan, outcomes={})
                n0 = len(s.calls)
                s.io_fault_path = None
                before = s.results()
                have = {os.path.dirname(os.path.join(s.work, f)) for f in before if self.counts(s, f)}
                s.dead.discard('main')
                s.seam_count['main'] = 0
                if o.get('crash'):
                    s.crash_at['main'] = tuple(o['crash'])
                died = s.sweep(o)
                s.crash_at.clear()
                calls = s.calls[n0:]
                for c in calls:
                    if c['outcome'] != 'ok':
                        tr.fault('child-' + c['outcome'])
                check_grid(s, o, calls, complete=False)
                for c in calls:
                    key = s.frozen(s.opt(c))
                    od = c['output_directory']
                    if dir_of.setdefault(key, od) != od:
                        raise Violation('directory-not-stable', '{}: {} and {}'.format(key, s.norm(dir_of[key]), s.norm(od)))
                    if s.io_fault_path and within(od, s.io_fault_path) and od in have:
                        tr.probe('recomputed-as-its-directory-could-not-be-read')
                        continue
                    if od in have and not o.get('force'):
                        raise Violation('result-recomputed', 'configuration {} already had a result'.format(key))
                inv = {}
                for k, d in dir_of.items():
                    if d in inv:
                        raise Violation('output-directory-shared', '{} used by {} and {}'.format(s.norm(d), inv[d], k))
                    inv[d] = k
                ran = {s.frozen(s.opt(c)) for c in calls}
                if died is None:
                    for e in s.expected(o):
                        key = s.frozen(e[2])
                        if key in ran:
                            continue
                        if o.get('force'):
                            raise Violation('not-recomputed', '{} was not run although recomputation was requested'.format(key))
                        if dir_of.get(key) not in have:
                            raise Violation('configuration-skipped', '{} has no result and was not run'.format(key))
                        tr.probe('skipped-because-done')
                after = s.results()
                own = {os.path.relpath(os.path.join(c['output_directory'], 'result_v.pt'), s.work) for c in calls if c['output_directory']}
                for f, txt in before.items():
                    if f not in after:
                        raise Violation('result-lost', f)
                    if after[f] != txt and f not in own:
                        raise Violation('result-changed', f)
                if o.get('final'):
                    for e in s.expected(o):
                        d = dir_of.get(s.frozen(e[2]))
                        if d is None or not s.has_pt(d):
                            raise Violation('sweep-incomplete', '{} has no result after a sweep without faults'.format(e[2]))
                    tr.probe('completed')
                tr.state(len(have), len(calls), died is None, bool(o.get('force')))

    def driver(self, s, o, tr, dir_of):
        """One of the sweep scripts that come with the code runs, dies, and is started again."""
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(eu.__file__))), 'demos', 'neurips20')
        if not os.path.exists(os.path.join(path, o['driver'])):
            tr.probe('no-driver')
            return
        if o.get('final'):
            s.plan = dict(s.plan, outcomes={})
        asked = []
        args = s.parsed(o)
        real = (eu.sweep_parameters, eu.setup_cmdline_parsing)

        def parse(cmdline_type='simple_functional_mapping', cmdline_title=None):
            if cmdline_type != o['cmdline']:
                raise Violation('driver-command-line', cmdline_type)
            return args

        def sweep(a, run_args_to_sweep, run_args_template, python_script, output_dir_prefix='', do_not_recompute=True):
            q = dict(o, grid=[[k, list(v)] for k, v in run_args_to_sweep.items()], template=[[k, v] for k, v in run_args_template.items()],
                     prefix=output_dir_prefix, script=python_script, first=len(s.calls))
            asked.append(q)
            s.harness = False
            try:
                real[0](a, run_args_to_sweep=run_args_to_sweep, run_args_template=run_args_template, python_script=python_script,
                        output_dir_prefix=output_dir_prefix, do_not_recompute=do_not_recompute)
            finally:
                s.harness = True
                q['last'] = len(s.calls)
        before = s.results()
        have = {os.path.dirname(os.path.join(s.work, f)) for f in before}
        s.dead.discard('main')
        s.seam_count['main'] = 0
        if o.get('crash'):
            s.crash_at['main'] = tuple(o['crash'])
        died = None
        eu.sweep_parameters, eu.setup_cmdline_parsing = sweep, parse
        try:
            runpy.run_path(os.path.join(path, o['driver']), run_name='__main__')
        except (SimCrash, KeyboardInterrupt, OSError) as e:
            if 'main' not in s.dead:
                raise
            died = e
        finally:
            eu.sweep_parameters, eu.setup_cmdline_parsing = real
            s.crash_at.clear()
        accepts = {}
        for q in asked:
            calls = s.calls[q['first']:q['last']]
            check_grid(s, q, calls, complete=False)
            ran = set()
            if q['script'] not in accepts:
                accepts[q['script']] = script_parser(os.path.join(path, q['script']))
            for c in calls:
                if c['outcome'] != 'ok':
                    tr.fault('child-' + c['outcome'])
                key = q['prefix'] + s.frozen(s.opt(c))
                ran.add(key)
                if dir_of.setdefault(key, c['output_directory']) != c['output_directory']:
                    raise Violation('directory-not-stable', key)
                if c['output_directory'] in have and not o.get('force'):
                    raise Violation('result-recomputed', 'configuration {} already had a result'.format(key))
                if accepts[q['script']] is not None:
                    got = accepts[q['script']](c['args'][1:])
                    if got is None or os.path.abspath(got.output_directory) != c['output_directory'] or str(got.seed) != s.opt(c)['seed']:
                        raise Violation('script-refuses-its-options', '{} {}'.format(q['script'], s.norm(str(c['args'][1:]))))
            if died is None:
                for e in s.expected(q):
                    key = q['prefix'] + s.frozen(e[2])
                    if key not in ran and (o.get('force') or dir_of.get(key) not in have):
                        raise Violation('configuration-skipped', '{} was not run'.format(key))
                    if o.get('final') and not s.has_pt(dir_of.get(key)):
                        raise Violation('sweep-incomplete', '{} has no result after a sweep without faults'.format(key))
        if died is None and not asked:
            raise Violation('driver-runs-nothing', o['driver'])
        if len(set(dir_of.values())) != len(dir_of):
            raise Violation('output-directory-shared', 'by different configurations of {}'.format(o['driver']))
        after = s.results()
        own = {os.path.relpath(os.path.join(c['output_directory'], 'result_v.pt'), s.work) for q in asked for c in s.calls[q['first']:q['last']]}
        for f, txt in before.items():
            if after.get(f) != txt and f not in own:
                raise Violation('result-changed', f)
        tr.probe('driver-completed' if died is None else 'driver-died')
        tr.state(o['driver'], len(asked), died is None)

    @staticmethod
    def counts(s, f):
        """A result file directly inside an output directory."""
        return '/sub/' not in '/' + f

    def litter(self, s, o, dir_of):
        ds = sorted(set(dir_of.values()))
        if not ds:
            return
        d = ds[o['which'] % len(ds)]
        if o['kind'] == 'png':
            open(os.path.join(d, 'a.png'), 'w').close()
        elif o['kind'] == 'subdir':
            os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
            with open(os.path.join(d, 'sub', 'x.pt'), 'w') as f:
                f.write('nested')
        elif o['kind'] == 'notpt':
            open(os.path.join(d, 'model.ptx'), 'w').close()
        else:
            with open(os.path.join(d, 'my_model.pt'), 'w') as f:
                f.write('foreign')


class SweepConcurrentWorld(SweepWorld):
    pid = 'C03'
    quick_runs = 3000
    thorough_runs = 20000
    MAXSIZE = 6
    rule = ('2-4 sweepers with equal, overlapping or disjoint grids share an output directory and are interleaved by a seeded '
            'scheduler at every file system call, child start and during the run of a child; some crash; children may fail; '
            'non-trivial: at least one context switch happened; distinct: different event-log digests (interleavings)')

    def gen(self, rng, tier):
        base = self.make(rng, small=True)
        n = rng.randint(2, 3 if tier == 'quick' else 4)
        ops = []
        for i in range(n):
            o = dict(base, gpu=i, py=i % 2)
            r = rng.random()
            if r < 0.25 and o['grid']:
                k, v = o['grid'][-1]
                o['grid'] = o['grid'][:-1] + [[k, v[::-1]]]
            elif r < 0.4:
                o['start'] = o['start'] + o['seeds']
            elif r < 0.5:
                o['seeds'] = o['seeds'] + 1
            if rng.random() < 0.2 and n > 2:
                o['crash'] = [rng.randrange(0, 60), rng.choice(['crash', 'EIO'])]
            ops.append(o)
        return {'ops': ops, 'oseed': rng.randrange(10 ** 6), 'pythons': ['bin/python', 'b2/python'], 'sched': rng.randrange(10 ** 9),
                'switch': rng.choice([0.1, 0.3, 0.6, 0.9]), 'outcomes': rng.choice([{}, {}, {'fail': 0.2}, {'killed': 0.1, 'partial': 0.1}]),
                'nlines': 1, 'child_yields': rng.choice([1, 3, 8]), 'orphan_finishes': rng.random() < 0.5}

    def nontrivial(self, plan, res):
        return res['probes'].get('context-switches', 0) > 0

    def run(self, plan, tr, scratch):
        s = SweepSim(plan, tr, scratch)
        names = []
        with Seams(s.root, s.on_fs, s.on_child):
            s.sched = Sched(rng_of('sched', plan['sched']), tr, switch=plan['switch'])
            for i, o in enumerate(plan['ops']):
                n = 's{}'.format(i)
                names.append(n)
                if o.get('crash'):
                    s.crash_at[n] = tuple(o['crash'])
                tr.op('sweeper')
                s.sched.spawn(n, (lambda oo, nn: (lambda: s.sweep(oo, name=nn)))(o, n))
            s.sched.run()
            s.sched, sch = None, s.sched
        for c in s.calls:
            if c['outcome'] != 'ok':
                tr.fault('child-' + c['outcome'])
        for n in names:
            if n in sch.errors:
                e = sch.errors[n]
                if isinstance(e, Violation):
                    raise e
                raise Violation('sweeper-died', 'sweeper {} ended with {}: {}'.format(n, type(e).__name__, s.norm(str(e))))
        dirs = {}
        for o, n in zip(plan['ops'], names):
            mine = [c for c in s.calls if c['sweeper'] == n]
            check_grid(s, o, mine, complete=False)
            for c in mine:
                dirs.setdefault(s.frozen(s.opt(c)), c['output_directory'])
                if dirs[s.frozen(s.opt(c))] != c['output_directory']:
                    raise Violation('directory-not-stable', s.frozen(s.opt(c)))
        for o, n in zip(plan['ops'], names):
            mine = [c for c in s.calls if c['sweeper'] == n]
            ran = {s.frozen(s.opt(c)) for c in mine}
            prev_end = 0
            for c in mine:
                if any(w == n and within(c['output_directory'], p) for w, p in s.io_faults):
                    continue
                for d in s.calls:
                    if d['output_directory'] == c['output_directory'] and d.get('result_tick', 10 ** 9) < prev_end:
                        raise Violation('result-recomputed', 'sweeper {} ran {} although its result was there before it finished its previous configuration'.format(
                            n, s.frozen(s.opt(c))))
                prev_end = c.get('end_tick', prev_end)
            if n in s.dead:
                continue
            for e in s.expected(o):
                key = s.frozen(e[2])
                if key in ran:
                    continue
                tr.probe('left-to-another-sweeper')
                if key not in dirs or not s.has_pt(dirs[key]):
                    raise Violation('configuration-skipped', 'sweeper {} did not run {}, which has no result'.format(n, key))
        if len({c['output_directory'] for c in s.calls}) < len(s.calls):
            tr.probe('configuration-run-by-two-sweepers')
        tr.state(len(s.calls), len(names), len(s.dead))


class SweepCommandWorld(SweepWorld):
    pid = 'C04'
    quick_runs = 3000
    thorough_runs = 15000
    MAXSIZE = 4
    rule = ('sweeps with different interpreters, GPUs, scripts, options and child outputs (standard output and error, large, empty); '
            'children succeed, fail or are killed after printing; the call received by the child and the log file are compared with '
            'what was requested and what the child printed; configurations are run again so that logs are rewritten; also the '
            'command line tools are called directly; non-trivial: at least one child ran')

    def gen(self, rng, tier):
        ops = []
        for i in range(rng.randint(1, 3)):
            o = self.make(rng, small=True)
            o['force'] = rng.random() < 0.5
            ops.append(o)
            if rng.random() < 0.4:
                ops.append(dict(o, force=True, py=rng.randrange(3), gpu=rng.randrange(8)))
            if rng.random() < 0.5:
                ops.append({'op': 'direct', 'gpu': rng.choice([None, 0, 2]), 'log': rng.random() < 0.6, 'py': rng.randrange(3),
                            'script': 'tool.py', 'args': [['alpha', gen_value(rng)], ['flag', None], ['name', rng.choice(WORDS)]][:rng.randint(0, 3)]})
        return {'ops': ops, 'oseed': rng.randrange(10 ** 6), 'pythons': ['bin/python', 'conda/envs/e1/bin/python3.7', 'opt/py-3/bin/pypy'],
                'outcomes': rng.choice([{}, {'fail': 0.3}, {'killed': 0.3, 'fail': 0.2}]), 'nlines': rng.choice([0, 1, 4, 12] * 8 + [300, 3000]), 'odd': rng.random() < 0.2, 'unfinished': rng.random() < 0.15,
                'blob': rng.choice([0, 0, 0, 5000, 70000]), 'child_yields': 0, 'outer_cuda': rng.choice([None, None, '7'])}

    def nontrivial(self, plan, res):
        return sum(v for k, v in res['ops'].items() if k.startswith('child')) >= 1

    def run(self, plan, tr, scratch):
        s = SweepSim(plan, tr, scratch)
        with Seams(s.root, s.on_fs, s.on_child):
            for o in plan['ops']:
                tr.op(o['op'])
                n0 = len(s.calls)
                if o['op'] == 'direct':
                    self.direct(s, o, tr)
                    continue
                s.sweep(o)
                last = {}
                for c in s.calls[n0:]:
                    s.check_child(c, o)
                    if c['outcome'] != 'ok':
                        tr.fault('child-' + c['outcome'])
                    last[c['output_directory']] = c
                for c in last.values():
                    s.check_log(c)
                tr.state(len(last), o.get('gpu'), o.get('py'))

    def direct(self, s, o, tr):
        from collections import OrderedDict
        n0 = len(s.calls)
        log = os.path.join(s.work, 'direct.log') if o['log'] else None
        if log and os.path.exists(log):
            os.unlink(log)
        s.harness = False
        ce.run_command_with_args(o['script'], OrderedDict((k, v) for k, v in o['args']), path_to_python=s.pythons[o['py']],
                                 cuda_visible_devices=o['gpu'], log_file=log)
        s.harness = True
        calls = s.calls[n0:]
        if len(calls) != 1:
            raise Violation('direct-call', '{} children'.format(len(calls)))
        c = calls[0]
        tr.checks += 1
        if not c['started'] or c['interpreter'] != s.pythons[o['py']]:
            raise Violation('wrong-interpreter', str(c.get('interpreter', c.get('shell_output'))))
        want = [o['script']]
        for k, v in o['args']:
            want.append('--' + k)
            if v is not None:
                want.append(str(v))
        if c['args'] != want:
            raise Violation('wrong-arguments', '{} instead of {}'.format(c['args'], want))
        cuda = str(o['gpu']) if o['gpu'] is not None else (s.plan['outer_cuda'] if s.plan.get('outer_cuda') is not None else 'unset')
        if c['cuda'] != cuda:
            raise Violation('wrong-gpu', 'CUDA_VISIBLE_DEVICES={} instead of {}'.format(c['cuda'], cuda))
        if log:
            with open(log, encoding='utf-8', errors='replace', newline='') as f:
                txt = f.read()
            if not (txt == c['output'] or (c['outcome'] == 'killed' and txt.startswith(c['output']))):
                raise Violation('log-differs', '{!r} instead of {!r}'.format(txt[:200], c['output'][:200]))
