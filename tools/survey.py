"""Development aid: run all planned cases of a check and list the distinct violations instead of stopping.

python tools/survey.py C07 [seed] [tier]
"""
import collections
import importlib
import os
import re
import sys
import threading
import queue

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core

cid = sys.argv[1]
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
check = importlib.import_module(f'sim.checks.{cid.lower()}')
cases = check.plan(core.rng_for(cid, seed), sys.argv[3] if len(sys.argv) > 3 else 'quick')
q = queue.Queue()
for i, c in enumerate(cases):
    q.put((i, c))
found = collections.defaultdict(list)
lock = threading.Lock()


def work(k):
    w = core.Worker(cid, 0, None, f'/tmp/survey.{k}.log')
    while True:
        try:
            i, c = q.get_nowait()
        except queue.Empty:
            break
        try:
            r = w.run(c, 300)
            v = r['violation']
            text = f"{v['kind']}: {v['detail']}" if v else None
        except Exception as e:
            text = 'HARNESS ' + str(e)[-400:]
            w.kill()
            w = core.Worker(cid, 0, None, f'/tmp/survey.{k}.log')
        if text:
            with lock:
                found[re.sub(r'[\d.+\-j\[\]e]+', '#', text)[:110]].append((i, text))
    w.close()


ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
for k, v in sorted(found.items(), key=lambda x: -len(x[1])):
    print(len(v), v[0][0], v[0][1][:400])
print(len(cases), 'cases')
