"""C12: a kill or a disk error never costs the last complete training results."""
import errno
import shutil
import tempfile

import numpy as np

from ..core import digest
from .. import trainlib
from ..world import Events, Violation, result

ID = 'C12'
LEVEL = 'fault_enumeration'
RULE = ('A case runs the training script once without faults, judging the results files as a kill after every file operation '
        '(and inside every write) would leave them, and again with errors, a full disk or an interrupt at chosen file '
        'operations. Distinct and non-trivial: distinct (configuration, steps, fired faults) with at least one rewritten file.')
COMPONENTS = {'real': ['scripts/train.py with hydra, flax, optax and jax', 'numpy and flax file formats', 'files in a scratch directory'],
              'simulated': ['kills (states of the directory after every C-level file operation, prefixes of every write)',
                            'failing file operations, full disk (file size limit), interrupts', 'clocks',
                            'points on the variety and accuracy measure']}
ASSUMPTIONS = ['a kill ends the process; what has reached the operating system survives']
WALL = {'quick': 300, 'thorough': 2400}
CASE_TIMEOUT = 250


def gen(rng):
    cfg = trainlib.gen_cfg(rng, evaluate=rng.random() < 0.4)
    cfg['log_every'] = rng.choice([1, 1, 2, 3])
    d, budget = trainlib.gen_time(rng, 9)
    faults = []
    for _ in range(4):
        kind = rng.choice(['error', 'error', 'full', 'full', 'interrupt'])
        f = [rng.random(), kind]
        if kind == 'error':
            f.append(rng.choice([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES]))
        elif kind == 'full':
            f += [rng.choice([0, 40, 100, 130, 150, 300, 450]), rng.choice([1, 3, 8, 60])]
        faults.append(f)
    return {'cfg': cfg, 'durations': d, 'budget': budget, 'faults': faults, 'again': rng.random() < 0.6, 'shrinkable': ['faults']}


def plan(rng, tier):
    return [gen(rng) for _ in range(64 if tier == 'quick' else 700)]


def setup(case):
    trainlib.setup()


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-4, atol=1e-5))


class Track:
    """Last complete version of every results file."""

    def __init__(self, run, what):
        self.run, self.what, self.good, self.rank = run, what, {}, {}
        self.states = self.prefixes = 0
        self.rewritten = 0

    def judge(self, step, name, data, how, loaded=False):
        if data is None:
            if name in self.good:
                raise Violation('missing', f'{name} is missing {how}; a complete version had been written before')
            return
        try:
            val = trainlib.load(name, data)
            ok = True
        except Exception as e:
            ok, why = False, f'{type(e).__name__}: {e}'
        if not ok:
            raise Violation('damaged', f'{name} ({len(data)} bytes) cannot be loaded {how} ({why[:120]}); '
                            f'{"a" if name in self.good else "no"} complete version had been written before')
        if loaded:                       # left by an earlier run
            self.good[name] = None
            return
        r, old = self.run, self.good.get(name)
        rank = 0
        if name == 'losses.npy':
            rank = len(val)
            if len(r.true_losses) == r.steps and not (rank <= step and near(val, np.array(r.true_losses[:rank]))):
                raise Violation('mixed', f'{name} holds {val.tolist()[:8]} {how}, the steps had {r.true_losses[:8]}')
        elif name == 'validation.npy':
            rank = len(val)
            if old is not None and not near(val[:len(old)], old[:rank]):
                raise Violation('mixed', f'{name} {how} does not continue its earlier version')
        elif name == 'final.params' and r.params and r.init_params is not None:
            js = [j for j, p in enumerate([r.init_params] + r.params)
                  if len(p) == len(val) and all(near(a, b) for a, b in zip(val, p))]
            if not js:
                raise Violation('mixed', f'{name} {how} holds the parameters after none of the steps')
            rank = max(js)
        elif name == 'validation_params.npy' and old is not None and not near(val, old):
            raise Violation('mixed', f'{name} changed {how}')
        elif name == 'sigma_final.npz' and set(val) < {'sigmas', 'moduli_grid'}:
            raise Violation('mixed', f'{name} holds only {sorted(val)} {how}')
        if rank < self.rank.get(name, 0):
            raise Violation('lost', f'{name} {how} is older than a version written before')
        self.rewritten += name in self.good
        self.good[name], self.rank[name] = val, rank

    def all(self):
        for step, name, data, grown in self.run.states:
            how = f'{self.what} during or after step {step}'
            self.states += 1
            if data is not None and grown is not None:
                for cut in sorted({grown + 1, (grown + len(data)) // 2, len(data) - 1}):
                    if grown < cut < len(data):
                        self.prefixes += 1
                        self.judge(step, name, data[:cut], how + ' (inside a write)')
            self.judge(step, name, data, how)
        return self


def run(case):
    ev, viol, sigs, sim = Events(), None, [], 0.0
    stats = {'runs': 0, 'crash_states': 0, 'crash_states_inside_writes': 0, 'file_operations': 0, 'steps': 0, 'simulated_s': 0}
    faults = {'kill': 0, 'error': 0, 'full': 0, 'interrupt': 0, 'started_again': 0}
    fired = []

    def one(fl, what, folder=None):
        before = {} if folder is None else trainlib.results(folder)
        r = trainlib.Run(case['cfg'], case['durations'], case['budget'], faults=fl, folder=folder).run()
        stats['runs'] += 1
        stats['file_operations'] += r.disk.n
        stats['steps'] += r.steps
        stats['simulated_s'] += round(min(r.clock.t, 1e8), 2)
        ev.add(what.split(' at ')[0], r.steps, [s[:2] for s in r.states], bool(r.error), r.disk.fired)
        for f in r.disk.fired:
            faults[f[1]] += 1
            fired.append([f[1], f[2]])
        t = Track(r, what)
        for name, data in before.items():
            t.judge(0, name, data, 'when the run starts again', loaded=True)
        t.all()
        stats['crash_states'] += t.states
        stats['crash_states_inside_writes'] += t.prefixes
        faults['kill'] += t.states + t.prefixes
        return r, t
    try:
        r, t = one([], 'after a kill')
        if r.error:
            raise Violation('did-not-finish', f'the script failed without any fault: {r.error[-500:]}')
        for i, f in enumerate(case['faults']):
            if not r.disk.n:
                break
            at = 1 + min(r.disk.n - 1, int(f[0] * r.disk.n))
            fault = [at, f[1]] + f[2:]
            what = f'an interrupt at file operation {at}' if f[1] == 'interrupt' else f'a disk error ({f[1]}) at file operation {at}'
            folder = tempfile.mkdtemp(prefix='verif-train-') if case['again'] and i == 0 else None
            try:
                one([fault], 'after ' + what, folder)
                if folder:
                    faults['started_again'] += 1
                    again, _ = one([], f'when repeated in the same folder after {what},', folder)
                    if again.error:
                        raise Violation('did-not-finish', f'the script failed when repeated in the same folder after {what}: {again.error[-500:]}')
            finally:
                if folder:
                    shutil.rmtree(folder, ignore_errors=True)
        if t.rewritten:
            sigs = [digest([{k: v for k, v in case['cfg'].items() if k != 'seed'}, r.steps, fired])]
    except Violation as v:
        viol = v
        ev.add('violation', v.kind)
    stats['simulated_s'] = round(stats['simulated_s'], 2)
    return result(ev, viol, sim_time=stats.pop('simulated_s'), stats=stats, faults=faults, sigs=sigs, summary=f'{stats["runs"]} runs, {stats["crash_states"]} crash states')
