"""Simulated environment of the training script: clock, observed disk, step hooks, stand-ins.

The script itself runs unchanged (``runpy``) in a scratch directory.  Everything it can observe
from outside is decided by the case: the clocks, how long steps and file operations take, and
which file operation fails.  Files are real files in the scratch directory; the directory is
looked at after every C-level call that may touch files, so the recorded states are exactly what
a kill between two such calls would leave behind.
"""
import contextlib
import datetime
import errno
import io
import os
import resource
import runpy
import shutil
import sys
import tempfile
import time
import timeit

REPO = os.environ.get('VERIF_REPO', '/repo')
SCRIPT = os.path.join(REPO, 'scripts', 'train.py')
RESULTS = ['losses.npy', 'validation.npy', 'validation_params.npy', 'final.params', 'sigma_final.npz']
mon = sys.monitoring
_open = open
TOOL = 3


# --- clock -----------------------------------------------------------------------------------

class Clock:
    """Virtual elapsed time and a wall clock that may jump; real outside a simulated run."""
    active = None
    TICK = 1e-6

    def __init__(self, wall0=1.6e9, mono0=1000.0):
        # whole numbers are nanoseconds
        self.wall0 = wall0 if isinstance(wall0, int) else int(round(wall0 * 1e9))
        self.t, self.mono0, self.offset = 0.0, mono0, 0.0
        self.reads = 0

    def tick(self):
        self.t += self.TICK
        self.reads += 1


_real = {n: getattr(time, n) for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns',
                                       'clock_gettime', 'clock_gettime_ns', 'sleep', 'process_time', 'process_time_ns', 'thread_time', 'thread_time_ns',
                                       'localtime', 'gmtime', 'ctime', 'asctime', 'strftime')}


def _wall(c):
    c.tick()
    return c.wall0 / 1e9 + c.offset + c.t


def _wall_ns(c):
    c.tick()
    return c.wall0 + int(round((c.offset + c.t) * 1e9))


def _mono(c):
    c.tick()
    return c.mono0 + c.t


def _cpu(c):
    """The processor is busy for half of the time."""
    c.tick()
    return 5.0 + c.t / 2


def patch_time():
    """Before the package under test is imported; a no-op outside simulated runs."""
    def make(name, fn):
        real = _real[name]

        def f(*a):
            c = Clock.active
            return real(*a) if c is None else fn(c, *a)
        f.__name__ = name
        setattr(time, name, f)

    def clk(c, which):
        if which in (time.CLOCK_PROCESS_CPUTIME_ID, time.CLOCK_THREAD_CPUTIME_ID):
            return _cpu(c)
        return _wall(c) if which in (time.CLOCK_REALTIME, getattr(time, 'CLOCK_TAI', -1)) else _mono(c)

    def sleep(c, s):
        c.t += max(0.0, s)
    make('time', _wall)
    make('time_ns', _wall_ns)
    for n in ('monotonic', 'perf_counter'):
        make(n, _mono)
        make(n + '_ns', lambda c: int(_mono(c) * 1e9))
    for n in ('process_time', 'thread_time'):
        make(n, _cpu)
        make(n + '_ns', lambda c: int(_cpu(c) * 1e9))
    make('clock_gettime', clk)
    make('clock_gettime_ns', lambda c, w: int(clk(c, w) * 1e9))
    make('sleep', sleep)
    for n in ('localtime', 'gmtime', 'ctime'):
        make(n, lambda c, s=None, real=_real[n]: real(_wall(c) if s is None else s))
    make('asctime', lambda c, t=None: _real['asctime'](_real['localtime'](_wall(c)) if t is None else t))
    make('strftime', lambda c, fmt, t=None: _real['strftime'](fmt, _real['localtime'](_wall(c)) if t is None else t))
    timeit.default_timer = time.perf_counter


class SimDatetime(datetime.datetime):
    """Calendar time read from the same clock; stands in for datetime during a simulated run."""

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time(), tz)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)


@contextlib.contextmanager
def calendar():
    import hydra.core.utils as hydra_utils
    real = datetime.datetime
    held = [(m, 'datetime') for m in (datetime, hydra_utils) if getattr(m, 'datetime', None) is real]
    for m, name in held:
        setattr(m, name, SimDatetime)
    try:
        yield
    finally:
        for m, name in held:
            setattr(m, name, real)


# --- stand-ins reached through the configuration ----------------------------------------------

class Sim:
    """The simulated run in progress."""
    current = None
    kind = 'points'                      # what points are drawn for


def step_hook(*leaves):
    import numpy as np
    s = Sim.current
    if s is not None:
        s.on_step([np.array(x) for x in leaves])
    return np.float32(0)


def value_hook(v):
    import numpy as np
    s = Sim.current
    if s is not None:
        s.true_losses.append(float(v))
    return np.float32(0)


def tap_hook(kind, *vals):
    import numpy as np
    s = Sim.current
    if s is not None and s.record:
        s.events.append((kind, [np.array(v) for v in vals]))


def tap(kind, x, *vals):
    """x unchanged, reporting the values to the simulator whenever x is computed."""
    if Sim.current is None or not Sim.current.record:
        return x
    import jax
    from functools import partial
    jax.debug.callback(partial(tap_hook, kind), *vals)
    return x


def optimizer(**kw):
    """Adam whose updates are reported to the simulator."""
    import jax
    import numpy as np
    import optax
    from jax.experimental import io_callback
    base = optax.adam(**kw)
    if Sim.current is not None:
        Sim.current.base_opt = base

    def init(params):
        s = Sim.current
        if s is not None:
            s.clock.t += s.setup_s
        leaves, tree = jax.tree_util.tree_flatten(params)
        if s is not None and s.init_params is None and not any(isinstance(x, jax.core.Tracer) for x in leaves):
            s.init_params, s.tree = [np.array(x) for x in leaves], tree
        return base.init(params)

    def update(grads, state, params=None):
        updates, state = base.update(grads, state, params)
        leaves, tree = jax.tree_util.tree_flatten(updates)
        zero = io_callback(step_hook, jax.ShapeDtypeStruct((), np.float32), *leaves)
        tap('grads', zero, *jax.tree_util.tree_leaves(grads))
        leaves = [x + zero.astype(x.dtype) for x in leaves]
        return jax.tree_util.tree_unflatten(tree, leaves), state
    return optax.GradientTransformation(init, update)


def sigma(h, params, np):
    """Stand-in for the accuracy measure: a function of the matrix and the moduli only."""
    return np.mean(np.abs(h), axis=(-2, -1)) + 0.1 * np.abs(h[..., 0, -1]) + 0.01 * np.sum(np.abs(params), axis=-1)


_classes = {}


def stub_metric(variety, sections, average=False):
    """With ``average`` the accuracy is the real one, an average over points of the stand-in for the variety."""
    if 'metric' not in _classes:
        import cyjax
        import jax.numpy as jnp

        class StubMetric(cyjax.donaldson.AlgebraicMetric):
            """Cheap volume ratio and accuracy; everything else as in the real class."""

            average = False

            def sigma_accuracy(self, key, params, h, count):
                if not self.average:
                    return tap('accuracy', sigma(h, params, jnp), key)
                Sim.kind = 'accuracy'
                try:
                    return super().sigma_accuracy(key, params, h, count)
                finally:
                    Sim.kind = 'points'

            def eta(self, h, zs, params, patch=None, dependent=None, grad_def=None):
                z = jnp.concatenate([jnp.ones_like(zs[..., :1]), zs], -1)
                k = min(h.shape[-1], z.shape[-1])
                e = jnp.einsum('...i,ij,...j->...', z[..., :k], h[:k, :k], jnp.conj(z[..., :k]))
                e = e / jnp.sum(jnp.abs(z) ** 2, -1) + 0.05 * jnp.abs(jnp.sum(params))
                return tap('eta', e, params, zs) if Sim.kind == 'points' else e
        _classes['metric'] = StubMetric
    out = _classes['metric'](variety, sections)
    out.average = average
    return out


def stub_variety(moduli=1, wild=0, dim_variety=1, **kw):
    """With ``wild`` the weights of different moduli differ by up to that many powers of ten."""
    if 'variety' not in _classes:
        import cyjax
        import jax
        import jax.numpy as jnp

        class StubVariety(cyjax.VarietySingle):
            """Points are random numbers; everything else as in the real class."""
            wild = 0

            def sample_intersect(self, key, params, count, affine=False, weights=False):
                n = self.dim_projective
                params = jnp.asarray(params)
                k1, k2 = jax.random.split(key)
                z = jax.random.uniform(k1, (count, n)) + 1j * jax.random.uniform(k2, (count, n))
                if not affine:
                    return super().sample_intersect(key, params, count, affine, weights)
                w = 1 + jax.random.uniform(k2, (count,))
                if self.wild:
                    w = w * 10. ** (self.wild * jax.random.uniform(jax.random.fold_in(k2, 7), (), minval=-0.2))
                z = tap(Sim.kind, z, key, params, z, w)
                out = (z, jnp.zeros(count, int))
                return (out, w) if weights else out
        _classes['variety'] = StubVariety
    out = _classes['variety'].from_sympy(EXPR[moduli], 'z', 3)
    out.wild = wild
    return out


def network(**kw):
    """The real network, reporting the parameters and random keys it is used with."""
    if 'net' not in _classes:
        import cyjax
        import jax

        class Net(cyjax.ml.HNetMLP):
            def init(self, rngs, *a, **kw):
                out = super().init(rngs, *a, **kw)
                leaves, tree = jax.tree_util.tree_flatten(out)
                key = rngs if not isinstance(rngs, dict) else list(rngs.values())[0]
                leaves[0] = tap('init', leaves[0], key)
                return jax.tree_util.tree_unflatten(tree, leaves)

            def apply(self, variables, *a, rngs=None, **kw):
                out = super().apply(variables, *a, rngs=rngs, **kw)
                key = rngs.get('dropout') if isinstance(rngs, dict) else rngs
                if key is None or kw.get('deterministic'):
                    return out
                return tap('net', out, key, *jax.tree_util.tree_leaves(variables))
        _classes['net'] = Net
    return _classes['net'](**kw)


EXPR = {1: 'z0**3 + z1**3 + z2**3 - 3*psi*z0*z1*z2', 2: 'z0**3 + z1**3 + z2**3 + a*z0*z1*z2 + b*z0**2*z1'}


# --- disk ------------------------------------------------------------------------------------

FILE_NAMES = frozenset('write close flush truncate writelines __exit__'.split())
OS_NAMES = frozenset('open replace rename unlink remove truncate ftruncate link symlink fsync fdatasync write pwrite writev '
                     'close sendfile copy_file_range posix_fallocate'.split())
SKIP = ('/jax/', '/jaxlib/', '/hydra/', '/omegaconf/', '/logging/', '/antlr4/', '/yaml/', 'importlib', '/sim/', '/matplotlib/',
        '/sympy/', '/threading.py', '/tqdm/', '/warnings.py', '/colorlog/', '/subprocess.py', '/argparse.py', 'runpy')
_skip_cache = {}


def _skipped(fn):
    r = _skip_cache.get(fn)
    if r is None:
        r = _skip_cache[fn] = any(s in fn for s in SKIP)
    return r


def _file_call(callable, arg0):
    """Is this a C-level call that may create, write, close, move or remove a file?"""
    name = getattr(callable, '__name__', None)
    if name == 'tofile' or callable in (_open, io.FileIO, io.BufferedWriter, io.BufferedRandom):
        return True
    target = getattr(callable, '__self__', None)
    if name in FILE_NAMES and (isinstance(target, io.IOBase) or
                               (type(callable).__name__ == 'method_descriptor' and isinstance(arg0, io.IOBase))):
        return not isinstance(target if isinstance(target, io.IOBase) else arg0, (io.StringIO, io.BytesIO))
    return name in OS_NAMES and getattr(callable, '__module__', None) == 'posix'


POSSIBLE = FILE_NAMES | OS_NAMES | {'tofile', 'FileIO', 'BufferedWriter', 'BufferedRandom'}


class Disk:
    """Observes the results files and injects errors at file operations."""

    def __init__(self, sim, faults):
        self.sim, self.n, self.last = sim, 0, {}
        self.faults = {f[0]: f[1:] for f in faults}      # {call number: [kind, ...]}
        self.fired = []
        self.ops = []                                    # (call number, name, file of the caller)
        self.changes = []
        self.limit_until = None

    def stat(self):
        out = {}
        for f in RESULTS:
            try:
                s = os.stat(os.path.join(self.sim.dir, f))
                out[f] = (s.st_ino, s.st_size, s.st_mtime_ns)
            except OSError:
                pass
        return out

    def look(self):
        """After a call that may have changed something."""
        now = self.stat()
        if now == self.last:
            return
        for f in RESULTS:
            a, b = self.last.get(f), now.get(f)
            if a == b:
                continue
            data = None
            if b is not None:
                with contextlib.suppress(OSError):
                    with _open(os.path.join(self.sim.dir, f), 'rb') as fh:
                        data = fh.read()
            grown = a is not None and b is not None and a[0] == b[0] and b[1] > a[1]
            self.changes.append(self.n)
            self.sim.on_file(f, data, a[1] if grown else None)
        self.last = now

    def call(self, code, offset, callable, arg0):
        name = getattr(callable, '__name__', None)
        if name not in POSSIBLE or _skipped(code.co_filename):
            return mon.DISABLE
        if Disk.active is not self or not _file_call(callable, arg0):
            return None
        if self.sim.sweep and not os.getcwd().startswith(self.sim.dir + os.sep):
            return None                                  # between two jobs
        self.n += 1
        self.look()
        self.ops.append((self.n, name, os.path.basename(code.co_filename)))
        self.sim.clock.t += self.sim.latency(self.n)
        if self.limit_until is not None and self.n >= self.limit_until:
            self.unlimit()
        f = self.faults.get(self.n)
        if f is not None:
            if f[0] == 'error':
                self.fired.append((self.n, 'error', name))
                self.sim.on_fault(f[0])
                raise OSError(f[1], os.strerror(f[1]))
            if f[0] == 'interrupt':
                self.fired.append((self.n, 'interrupt', name))
                self.sim.on_fault(f[0])
                raise KeyboardInterrupt
            if f[0] == 'full':
                self.fired.append((self.n, 'full', name))
                self.sim.on_fault(f[0])
                resource.setrlimit(resource.RLIMIT_FSIZE, (f[1], resource.RLIM_INFINITY))
                self.limit_until = self.n + f[2]
        return None

    def after(self, code, offset, callable, arg0):
        if Disk.active is self and getattr(callable, '__name__', None) in POSSIBLE:
            self.look()

    def unlimit(self):
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        self.limit_until = None

    def __enter__(self):
        Disk.active = self
        mon.use_tool_id(TOOL, 'disk')
        mon.register_callback(TOOL, mon.events.CALL, self.call)
        mon.register_callback(TOOL, mon.events.C_RETURN, self.after)
        mon.register_callback(TOOL, mon.events.C_RAISE, self.after)
        mon.set_events(TOOL, mon.events.CALL)
        mon.restart_events()
        return self

    def __exit__(self, *exc):
        Disk.active = None
        self.unlimit()
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.CALL, None)
        mon.register_callback(TOOL, mon.events.C_RETURN, None)
        mon.register_callback(TOOL, mon.events.C_RAISE, None)
        mon.free_tool_id(TOOL)
        self.look()


Disk.active = None


# --- one run ---------------------------------------------------------------------------------

class Run:
    """One simulated execution of the training script."""

    def __init__(self, cfg, durations, budget_s, jumps=(), latency=None, faults=(), max_steps=600, watch=True,
                 wall0=1.6e9, plots=False, setup_s=0.0, record=False, base=None, folder=None, name='', sweep=None):
        self.name = name                 # part of the name of the folder
        self.sweep = sweep               # configurations of several jobs, executed as one sweep
        self.fault_dir = None
        self.jobs = []                   # results of the jobs of a sweep
        self.folder = folder             # an existing folder to run in, which is kept
        self.base = base                 # the script chooses its folder below this one
        self.record, self.events, self.updates, self.base_opt = record, [], [], None
        self.setup_s = setup_s
        self.cfg, self.durations, self.budget = cfg, durations, budget_s
        self.jumps = {j[0]: j[1] for j in jumps}
        self.lat = latency
        self.faults = list(faults)
        self.max_steps, self.watch, self.plots = max_steps, watch, plots
        self.clock = Clock(wall0)
        self.steps, self.starts, self.ends = 0, [], []
        self.true_losses, self.init_params, self.tree = [], None, None
        self.params = []                 # after each step
        self.states = []                 # (step, file, bytes or None, grown from size or None)
        self.jumped = 0
        self.limit_hit = False
        self.error = None
        self.fault_step = None
        self.dir = None
        self.slow = 0

    # -- callbacks
    def latency(self, n):
        if not self.lat:
            return 0.0
        d = self.lat[n % len(self.lat)]
        self.slow += d > 0
        return d

    def on_fault(self, kind):
        self.fault_step = self.steps
        self.fault_dir = os.getcwd()

    def on_step(self, updates):
        self.starts.append(self.clock.t)
        i = self.steps
        if i in self.jumps:
            self.clock.offset += self.jumps[i]
            self.jumped += 1
        self.clock.t += self.durations[i % len(self.durations)]
        self.steps += 1
        self.ends.append(self.clock.t)
        if self.record:
            self.updates.append(updates)
        if self.init_params is not None and not self.sweep:
            prev = self.params[-1] if self.params else self.init_params
            self.params.append([(p + u).astype(p.dtype) for p, u in zip(prev, updates)])
        if self.steps >= self.max_steps:
            # end a runaway training: far in the future for every clock
            self.limit_hit = True
            self.clock.t += 1e9

    def on_file(self, name, data, grown):
        self.states.append((self.steps, name, data, grown))

    # -- running
    def arguments(self):
        if not self.sweep:
            return self.overrides(self.cfg)
        jobs = [self.overrides(c) for c in self.sweep]
        # a value that differs between the jobs becomes a list of values; the jobs are all combinations
        return [
            a[0] if len(set(a)) == 1 else a[0].split('=', 1)[0] + '=' + ','.join(dict.fromkeys(x.split('=', 1)[1] for x in a))
            for a in zip(*jobs) if not a[0].startswith('hydra.run.dir=')] + [f'hydra.sweep.dir={self.dir}', '-m']

    def overrides(self, c):
        config = c.get('config', 'dwork')
        o = ['--config-name', config, f'random_seed={"null" if c["seed"] is None else c["seed"]}',
             f'{"+" if config == "quintic" else ""}variety.dim_variety=1', f'sampling.param_bounds={c.get("bounds", [2])}'.replace(' ', ''), f'algebraic_metric.sections.degree={c.get("degree", 1)}',
             f'network.layer_sizes={c.get("layers", [3])}'.replace(' ', ''), f'network.powers={c.get("powers", [1, 2])}'.replace(' ', ''),
             f'sampling.sizes.batch_size_params={c["n_par"]}', f'sampling.sizes.batch_size={c["n_pts"]}',
             f'sampling.sizes.buffer_size={c["buffer"]}', f'training.train_minutes={c.get("budget", self.budget) / 60!r}',
             f'training.log_every={c["log_every"]}', f'evaluation.validation_count={c["val_count"]}',
             f'evaluation.sample_size={c.get("sample_size", 4)}', f'evaluation.run={"true" if c["eval"] else "false"}',
             f'evaluation.grid_points={c.get("grid", 3)}', f'evaluation.batch_size={c.get("eval_batch", 4)}',
             'training.opt._target_=sim.trainlib.optimizer', f'training.opt.learning_rate.init_value={c.get("lr", 0.05)}',
             f'training.opt.learning_rate.transition_steps={c.get("transition", 20000)}']
        if self.base is None:
            o.append(f'hydra.run.dir={self.dir}')
        if c.get('dropout'):
            o.append(f'network.dropout_rates={c["dropout"]}'.replace(' ', ''))
        if self.record:
            o.append('network._target_=sim.trainlib.network')
        if not c.get('real'):
            o += ['algebraic_metric._target_=sim.trainlib.stub_metric', 'variety._target_=sim.trainlib.stub_variety',
                  f'+variety.moduli={len(c.get("bounds", [2]))}', f'+variety.wild={c.get("wild", 0)}',
                  f'+algebraic_metric.average={"true" if c.get("average") else "false"}']
        return o

    def collect(self):
        """Results of the jobs of a sweep, found by the record of its arguments which hydra leaves in the folder of a job."""
        import yaml

        def values(lines):
            return {k: yaml.safe_load(v) for k, v in (x.split('=', 1) for x in lines if '=' in x)}
        found = []
        for d, _, files in os.walk(self.dir):
            if os.path.basename(d) == '.hydra' and 'overrides.yaml' in files:
                with _open(os.path.join(d, 'overrides.yaml')) as fh:
                    found.append((values(yaml.safe_load(fh) or []), os.path.dirname(d)))
        out = []
        for c in self.sweep:
            want = {k: v for k, v in values(self.overrides(c)).items() if not k.startswith('hydra.')}
            out.append(next((d for have, d in found if all(have.get(k) == v for k, v in want.items())), None))
        self.job_dirs = out
        return [results(d) if d else {} for d in out]

    def run(self):
        import jax
        import numpy as np
        from hydra.core.global_hydra import GlobalHydra
        from jax.experimental import io_callback
        self.dir = self.base or self.folder or tempfile.mkdtemp(prefix=f'verif-train-{self.name}-')
        cwd, argv, streams = os.getcwd(), sys.argv, (sys.stdout, sys.stderr)
        vg = jax.value_and_grad

        def value_and_grad(fun, *a, **kw):
            g = vg(fun, *a, **kw)

            def f(*x, **y):
                out, grads = g(*x, **y)
                if kw.get('has_aux'):
                    return out, grads
                zero = io_callback(value_hook, jax.ShapeDtypeStruct((), np.float32), out)
                return out + zero.astype(out.dtype), grads
            return f
        plt = None
        if not self.plots:
            from unittest import mock
            plt = sys.modules.get('matplotlib.pyplot')
            import matplotlib
            fake = mock.MagicMock()
            sys.modules['matplotlib.pyplot'] = fake
            matplotlib.pyplot = fake
        disk = self.disk = Disk(self, self.faults)
        if self.folder:
            disk.last = disk.stat()
        Sim.current, Sim.kind = self, 'points'
        import cyjax
        uniform = cyjax.random.uniform_components

        def uniform_components(key, *a, **kw):
            return tap('moduli', uniform(key, *a, **kw), key)
        if self.record:
            cyjax.random.uniform_components = uniform_components
        jax.value_and_grad = value_and_grad
        sys.argv = [SCRIPT] + self.arguments()
        sys.stdout = sys.stderr = io.StringIO()
        GlobalHydra.instance().clear()
        if self.base:
            os.chdir(self.base)
        Clock.active = self.clock
        try:
            with calendar(), (disk if self.watch else contextlib.nullcontext()):
                runpy.run_path(SCRIPT, run_name='__main__')
        except SystemExit as e:
            # hydra reports an exception of the task on stderr and exits
            if e.code not in (0, None):
                self.error = sys.stderr.getvalue()[-3000:] or f'exit {e.code}'
        except (Exception, KeyboardInterrupt) as e:
            self.error = f'{type(e).__name__}: {e}'
        finally:
            Clock.active = None
            Sim.current = None
            jax.value_and_grad = vg
            cyjax.random.uniform_components = uniform
            sys.argv = argv
            self.output = sys.stdout.getvalue()
            sys.stdout, sys.stderr = streams
            os.chdir(cwd)
            if not self.plots:
                if plt is not None:
                    sys.modules['matplotlib.pyplot'] = plt
                else:
                    del sys.modules['matplotlib.pyplot']
            self.files = results(self.dir)
            if self.sweep:
                self.jobs = self.collect()
            if self.base is None and self.folder is None:
                shutil.rmtree(self.dir, ignore_errors=True)
        return self


# --- reading results -------------------------------------------------------------------------

def results(folder):
    out = {}
    for f in os.listdir(folder):
        p = os.path.join(folder, f)
        if os.path.isfile(p) and f in RESULTS:
            with _open(p, 'rb') as fh:
                out[f] = fh.read()
    return out


def load(name, data, run=None):
    """Contents of a results file; raises if it cannot be loaded."""
    import numpy as np
    if name.endswith('.npy'):
        return np.load(io.BytesIO(data), allow_pickle=False)
    if name.endswith('.npz'):
        with np.load(io.BytesIO(data), allow_pickle=False) as f:
            return {k: f[k] for k in f.files}
    import flax.serialization
    import jax
    tree = flax.serialization.msgpack_restore(data)
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(tree)]


def setup():
    """Once per worker process."""
    import matplotlib
    matplotlib.use('Agg')
    patch_time()
    from . import world
    out = world.setup_jax(x64=False)
    # imports and one-time initialisation happen here, so that every later run makes the same calls
    Run(dict(seed=0, n_par=1, n_pts=1, buffer=1, log_every=1, val_count=1, eval=True, grid=2), [1.0], 0.5).run()
    return out


# --- drawing configurations --------------------------------------------------------------------

def gen_cfg(rng, evaluate=None, real=False):
    two = rng.random() < 0.25 and not real
    cfg = {'seed': rng.randrange(2 ** 31), 'n_par': rng.choice([1, 2, 3]), 'n_pts': rng.choice([2, 3, 5]), 'buffer': rng.choice([1, 2, 3, 5]),
           'log_every': rng.choice([1, 2, 3, 4, 7]), 'val_count': rng.choice([1, 2, 3]), 'lr': rng.choice([0.01, 0.05, 0.2]),
           'eval': rng.random() < 0.5 if evaluate is None else evaluate, 'grid': 2 if two else rng.choice([2, 3]),
           'eval_batch': rng.choice([1, 2, 4, 5, 9, 20]), 'layers': rng.choice([[3], [2], [3, 2]]), 'powers': rng.choice([[1], [1, 2]]),
           'bounds': [1.5, 0.5] if two else [rng.choice([1, 2, 0.5])], 'real': real}
    if rng.random() < 0.3:
        cfg['dropout'] = [0.3] * len(cfg['layers'])
    if not real and rng.random() < 0.3:
        cfg['config'] = 'quintic'
    if rng.random() < 0.3:
        cfg['wild'] = rng.choice([2, 4, 6])
    return cfg


def lengthen(rng, case):
    """Make a case many steps long, with few or many of them logged."""
    steps = rng.choice([110, 150, 260])
    case.update(durations=[1.0], budget=steps - 0.5, jumps=[], latency=None)
    case['cfg'].update(log_every=rng.choice([1, 7, 50, 100]), buffer=rng.choice([5, 20, 64, 100]), real=False)
    return case


def gen_time(rng, max_steps=12):
    """Step durations, from fractions of a second to days, and a budget that no sum of durations meets exactly."""
    scale = rng.choice([1, 1, 1, 1 / 16, 30, 1800, 43200])
    d = [rng.choice([0.25, 0.5, 1.0, 2.0, 7.5, 0.75]) * scale for _ in range(rng.choice([1, 2, 3, 5]))]
    steps = rng.choice([1, 1, 2, 3, 4, 5, 6, 8, max_steps])
    total = sum(d[i % len(d)] for i in range(steps))
    eps = 0.125 * scale
    return d, total - eps if rng.random() < 0.7 else max(eps, total - d[(steps - 1) % len(d)] + eps)
