"""Try planted bugs in scratch copies: applies, compiles, tests pass, demo, and whether the check catches it.

Usage: tools/bugs.py [--no-tests] [--demo-only] [ID ...]
"""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '/tmp/vbug'


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONPATH=cwd)
    e.update(env or {})
    t = time.monotonic()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr, time.monotonic() - t
    except subprocess.TimeoutExpired:
        return -1, 'timeout', timeout


def tests(cwd):
    rc, out, t = sh([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-n', '8', '--dist', 'loadscope',
                     '--timeout=300'], cwd, {'PYTHONHASHSEED': '0'})
    return out.strip().splitlines()[-1] if out.strip() else str(rc)


def main():
    args = sys.argv[1:]
    flags = [a for a in args if a.startswith('--')]
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    os.makedirs(BASE, exist_ok=True)
    for bug in ids:
        d = os.path.join(VERIF, 'seeded', bug)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        clean, copy = os.path.join(BASE, 'clean'), os.path.join(BASE, bug)
        for c in (clean, copy):
            shutil.rmtree(c, ignore_errors=True)
            subprocess.run(['git', 'clone', '-q', '/repo', c], check=True)
        ap = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=copy, capture_output=True, text=True)
        if ap.returncode:
            print(bug, 'patch does not apply:', ap.stderr)
            continue
        comp = sh([PY, '-m', 'compileall', '-q', 'cyjax', 'scripts'], copy)[0]
        demo = os.path.join(d, 'demo.sh')
        r0, o0, t0 = sh(['bash', demo], clean, timeout=300)
        r1, o1, t1 = sh(['bash', demo], copy, timeout=300)
        line = f'{bug} {meta["property"]} compile={comp} demo clean={r0} ({t0:.0f}s) bug={r1} ({t1:.0f}s)'
        if r0 != 0:
            line += '\n--- demo on clean tree:\n' + o0[-1500:]
        if r1 == 0:
            line += '\n--- demo does not fail with the bug'
        else:
            line += ' [' + (o1.strip().splitlines() or [''])[-1][:160] + ']'
        if '--no-tests' not in flags:
            line += '\n   tests: ' + tests(copy)
        if '--demo-only' not in flags:
            rc, out, t = sh(['./run.sh', meta['property']], VERIF,
                            {'VERIF_REPO': copy, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            line += f'\n   check: {"CAUGHT" if rc == 1 and "VIOLATION property=" + meta["property"] in out else "MISSED"} ' \
                    f'rc={rc} {t:.0f}s {out.strip()[-300:]}'
        print(line, flush=True)
        for c in (clean, copy):
            shutil.rmtree(c, ignore_errors=True)


main()
