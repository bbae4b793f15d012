"""Parent side of a check: plans cases, runs them in worker processes, minimises and reports.

A *case* is a JSON object that fixes one simulated execution completely.  A check module offers

    ID, LEVEL, RULE, COMPONENTS, ASSUMPTIONS
    plan(rng, tier)        -> list of cases
    run(case)              -> result dict (in a worker process, see sim.worker)
    shrink(case, result)   -> iterator of smaller candidate cases (optional)

and everything else (seeding, worker pool, evidence, replay files, exit codes) is done here.
Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 error of the check itself.
"""
import hashlib
import importlib
import json
import os
import queue
import random
import select
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
OUT = os.path.join(VERIF, 'out')


def rng_for(*parts):
    """Random generator for a purpose; every random choice of a check comes from one of these."""
    text = ':'.join(str(p) for p in parts)
    return random.Random(int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big'))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def worker_env(hash_seed=0, extra=None):
    env = dict(os.environ)
    env.update({
        'JAX_PLATFORMS': 'cpu',
        'MPLBACKEND': 'Agg',
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': str(hash_seed),
        'PYTHONPATH': REPO + os.pathsep + VERIF,
        'XLA_FLAGS': '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'TF_CPP_MIN_LOG_LEVEL': '3',
        'HYDRA_FULL_ERROR': '1',
        'MPLCONFIGDIR': os.path.join(OUT, 'mpl'),
        'VERIF_REPO': REPO,
    })
    env.pop('JAX_DISABLE_JIT', None)
    if extra:
        env.update(extra)
    return env


class WorkerError(Exception):
    pass


class Worker:
    """One worker process; cases go in as JSON lines and results come back as JSON lines."""

    def __init__(self, check_id, hash_seed=0, extra_env=None, log=None):
        self.check_id = check_id
        self.log_path = log
        err = open(log, 'ab') if log else subprocess.DEVNULL
        self.proc = subprocess.Popen(
            [PYTHON, '-X', 'faulthandler', '-m', 'sim.worker', check_id],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, cwd=VERIF,
            env=worker_env(hash_seed, extra_env), start_new_session=True)
        if log:
            err.close()

    def run(self, case, timeout):
        try:
            self.proc.stdin.write(json.dumps(case).encode() + b'\n')
            self.proc.stdin.flush()
        except (BrokenPipeError, OSError):
            raise WorkerError('worker died: ' + self.tail())
        end = time.monotonic() + timeout
        buf = b''
        fd = self.proc.stdout.fileno()
        while True:
            left = end - time.monotonic()
            if left <= 0:
                self.kill()
                raise TimeoutError(f'no result within {timeout} s')
            ready, _, _ = select.select([fd], [], [], min(left, 5))
            if not ready:
                if self.proc.poll() is not None:
                    raise WorkerError(f'worker exited with {self.proc.returncode}: ' + self.tail())
                continue
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                self.proc.wait()
                raise WorkerError(f'worker exited with {self.proc.returncode}: ' + self.tail())
            buf += chunk
            if buf.endswith(b'\n'):
                res = json.loads(buf)
                if 'harness_error' in res:
                    raise WorkerError(res['harness_error'])
                return res

    def tail(self):
        try:
            with open(self.log_path, 'rb') as f:
                return f.read()[-1500:].decode(errors='replace')
        except Exception:
            return ''

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(timeout=5)
        except Exception:
            pass
        self.kill()


class Pool:
    """Runs cases on several workers.  Which worker gets which case never affects a result."""

    def __init__(self, check_id, size, case_timeout, log_dir):
        self.check_id, self.size, self.case_timeout = check_id, size, case_timeout
        self.log_dir = log_dir

    def map(self, cases, deadline, on_result):
        """Calls ``on_result(index, case, result)``; stops early when it returns True."""
        todo = queue.Queue()
        for i, c in enumerate(cases):
            todo.put((i, c))
        lock = threading.Lock()
        state = {'stop': False, 'error': None, 'errors': 0, 'skipped': 0}

        def loop(n):
            workers = {}
            try:
                while not state['stop']:
                    try:
                        i, case = todo.get_nowait()
                    except queue.Empty:
                        return
                    if time.monotonic() > deadline:
                        with lock:
                            state['skipped'] += 1
                        continue
                    hs = case.get('hash_seed', 0)
                    for attempt in range(2):
                        w = workers.get(hs)
                        if w is None:
                            for old in workers.values():
                                old.close()
                            workers.clear()
                            w = workers[hs] = Worker(
                                self.check_id, hs, case.get('env'),
                                os.path.join(self.log_dir, f'{self.check_id}.{n}.log'))
                        try:
                            res = w.run(case, self.case_timeout)
                            break
                        except TimeoutError as e:
                            workers.pop(hs, None)
                            if attempt:
                                with lock:
                                    state['error'] = f'case {i}: {e}: {json.dumps(case)[:400]}'
                                    state['stop'] = True
                                return
                        except Exception as e:
                            workers.pop(hs, None)
                            w.kill()
                            if attempt:
                                # other cases may still decide; give up when it happens again and again
                                with lock:
                                    state['error'] = f'case {i}: {e!r}: {json.dumps(case)[:400]}'
                                    state['errors'] += 1
                                    state['stop'] = state['stop'] or state['errors'] >= 5
                                res = None
                    if res is None:
                        continue
                    with lock:
                        if not state['stop'] and on_result(i, case, res):
                            state['stop'] = True
            except BaseException as e:   # an error of the framework itself must not be lost
                with lock:
                    state['error'] = state['error'] or f'framework: {e!r}'
                    state['stop'] = True
            finally:
                for w in workers.values():
                    w.kill()

        threads = [threading.Thread(target=loop, args=(n,), daemon=True)
                   for n in range(min(self.size, max(1, len(cases))))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return state


def load_known():
    """Known findings: lines `KNOWN property=<id> match=<text> | <what fails>`; `fixed:` lines are history."""
    known = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('KNOWN '):
                    continue
                head, _, what = line.partition(' | ')
                fields = dict(p.split('=', 1) for p in head.split()[1:])
                known.setdefault(fields['property'], []).append((fields['match'], what))
    except FileNotFoundError:
        pass
    return known


def default_shrink(case, result):
    """Drops parts of every list under case['lists'] keys (halves, then single entries)."""
    for key in case.get('shrinkable', []):
        items = case[key]
        n = len(items)
        size = max(1, n // 2)
        while size >= 1 and n:
            for start in range(0, n, size):
                smaller = dict(case)
                smaller[key] = items[:start] + items[start + size:]
                yield smaller
            if size == 1:
                break
            size //= 2


def minimise(check, case, result, workers_log, budget_s, case_timeout):
    """Greedy minimisation; each candidate runs in a worker, same violation kind must persist."""
    end = time.monotonic() + budget_s
    kind = result['violation']['kind']
    shrink = getattr(check, 'shrink', default_shrink)
    tried = 0
    worker = None
    progress = True
    try:
        while progress and time.monotonic() < end:
            progress = False
            for cand in shrink(case, result):
                if time.monotonic() >= end:
                    break
                tried += 1
                try:
                    if worker is None:
                        worker = Worker(check.ID, cand.get('hash_seed', 0), cand.get('env'), workers_log)
                    res = worker.run(cand, min(case_timeout, max(5, end - time.monotonic() + 5)))
                except Exception:
                    if worker is not None:
                        worker.kill()
                    worker = None
                    continue
                if res.get('violation') and res['violation']['kind'] == kind:
                    case, result, progress = cand, res, True
                    break
    finally:
        if worker is not None:
            worker.kill()
    return case, result, tried


def run_fresh(check_id, case, timeout, log):
    w = Worker(check_id, case.get('hash_seed', 0), case.get('env'), log)
    try:
        return w.run(case, timeout)
    finally:
        w.kill()


def merge_counts(into, add):
    for k, v in (add or {}).items():
        into[k] = into.get(k, 0) + v


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    check_id = argv.pop(0)
    check = importlib.import_module(f'sim.checks.{check_id.lower()}')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    log_dir = os.path.join(OUT, 'log')
    os.makedirs(log_dir, exist_ok=True)
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(OUT, 'mpl'), exist_ok=True)
    case_timeout = getattr(check, 'CASE_TIMEOUT', 150)

    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            rep = json.load(f)
        res = run_fresh(check_id, rep['case'], case_timeout, os.path.join(log_dir, f'{check_id}.replay.log'))
        same = bool(res.get('violation')) and res.get('events') == rep['result'].get('events')
        print(json.dumps(res.get('violation'), indent=1))
        print('event log', res.get('events'), 'recorded', rep['result'].get('events'),
              'identical' if same else 'different')
        if res.get('violation'):
            print(f'VIOLATION property={check_id} replay={argv[1]}')
            return 1
        return 0

    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    t0 = time.monotonic()
    cases = check.plan(rng_for(check_id, 'plan', seed), tier)
    for i, c in enumerate(cases):
        c.setdefault('seed', seed)
        c.setdefault('index', i)
    wall_cap = float(os.environ.get('VERIF_WALL', getattr(check, 'WALL', {}).get(tier, 300 if tier == 'quick' else 3600)))
    size = int(os.environ.get('VERIF_WORKERS', min(8, os.cpu_count() or 1)))
    # determinism probe: some cases run a second time, in whichever worker is free
    twin = rng_for(check_id, 'twin', seed).sample(range(len(cases)), min(len(cases), getattr(check, 'TWINS', 4)))
    queue_cases = list(cases) + [cases[i] for i in twin]

    known = load_known().get(check_id, [])
    agg = {'faults': {}, 'probes': {}, 'sim_time': 0.0, 'events': 0, 'stats': {}}
    results = {}
    twins = {'rechecked': 0, 'mismatches': 0}
    sigs, behaviours, samples = set(), set(), []
    violations, known_hits = [], {}
    run_count = [0]
    skipped = {}

    def on_result(i, case, res):
        run_count[0] += 1
        if i >= len(cases):
            j = twin[i - len(cases)]
            results[('twin', j)] = res.get('events')
            return False
        results[i] = res.get('events')
        if res.get('skip'):
            skipped[res['skip']] = skipped.get(res['skip'], 0) + 1
        merge_counts(agg['faults'], res.get('faults'))
        merge_counts(agg['probes'], res.get('probes'))
        merge_counts(agg['stats'], res.get('stats'))
        agg['sim_time'] += res.get('sim_time', 0)
        agg['events'] += res.get('steps', 0)
        for s in res.get('sigs', []):
            sigs.add(s)
        behaviours.add(res.get('events'))
        if len(samples) < 3 and not res.get('skip'):
            samples.append({'case': case, 'outcome': res.get('summary')})
        if res.get('violation'):
            text = res['violation']['kind'] + ' ' + res['violation']['detail']
            for match, what in known:
                if match in text:
                    known_hits[match] = what
                    return False
            violations.append((i, case, res))
            return True
        return False

    pool = Pool(check_id, size, case_timeout, log_dir)
    state = pool.map(queue_cases, t0 + wall_cap, on_result)
    explore_s = time.monotonic() - t0
    for j in twin:
        if ('twin', j) in results and j in results:
            twins['rechecked'] += 1
            if results[('twin', j)] != results[j]:
                twins['mismatches'] += 1

    status = 0
    replay_path = None
    if violations:
        status = 1
        i, case, res = violations[0]
        log = os.path.join(log_dir, f'{check_id}.min.log')
        budget = 60 if tier == 'quick' else 300
        small, sres, tried = minimise(check, case, res, log, budget, case_timeout)
        confirmed = None
        try:
            again = run_fresh(check_id, small, case_timeout, log)
            confirmed = bool(again.get('violation')) and again.get('events') == sres.get('events')
        except Exception as e:
            confirmed = f'error {e!r}'
        replay_path = os.path.join(OUT, 'replays', f'{check_id}-{seed}-{i}.json')
        with open(replay_path, 'w') as f:
            json.dump({'property': check_id, 'seed': seed, 'tier': tier, 'index': i,
                       'original_case': case, 'case': small, 'result': sres,
                       'minimiser_runs': tried, 'replayed_identically': confirmed,
                       'replay_cmd': f'cd {VERIF} && ./run.sh {check_id} --replay {replay_path}'},
                      f, indent=1)
        print(f'{check_id}: {sres["violation"]["kind"]}: {sres["violation"]["detail"]}')
    elif state['error']:
        status = 2

    done = len([k for k in results if isinstance(k, int)])
    wall = time.monotonic() - t0
    coverage = {
        'evaluations': run_count[0],
        'distinct_nontrivial': len(sigs),
        'rule': check.RULE,
        'samples': samples or [{'note': 'no case finished'}],
        'cases_planned': len(cases),
        'cases_run': done,
        'cases_not_run_for_time': state['skipped'],
        'cases_skipped_as_unjudgeable': skipped,
        'runs_per_hour': round(run_count[0] / max(explore_s, 1e-9) * 3600),
        'seeds_per_hour': round(done / max(explore_s, 1e-9) * 3600),
        'events_logged': agg['events'],
        'simulated_time_s': round(agg['sim_time'], 3),
        'faults_injected': agg['faults'],
        'probes_hit': agg['probes'],
        'distinct_event_logs': len(behaviours),
        'determinism': twins,
        'components': check.COMPONENTS,
        'measured': agg['stats'],
    }
    evidence = {
        'property': check_id, 'tier': tier, 'seed': seed, 'level': check.LEVEL,
        'coverage': coverage, 'assumptions': check.ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    tmp = os.path.join(VERIF, 'evidence', f'.{check_id}.tmp')
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', f'{check_id}.json'))

    for match, what in known_hits.items():
        print(f'KNOWN-FINDING: property={check_id} {what}')
    if status == 1:
        print(f'VIOLATION property={check_id} replay={replay_path}')
    elif status == 2:
        print(f'{check_id}: the check itself failed: {state["error"]}', file=sys.stderr)
    else:
        print(f'{check_id}: held on {done} cases ({run_count[0]} runs), {len(sigs)} distinct, '
              f'faults {sum(agg["faults"].values())}, {wall:.1f} s')
        if done == 0 and cases:
            print(f'{check_id}: nothing was run', file=sys.stderr)
            status = 2
    return status


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    sys.exit(main())
