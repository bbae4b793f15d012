"""Store a planted bug: python tools/plant.py ID PROPERTY < spec

The spec is a Python literal: {'file': ..., 'edits': [(old, new), ...], 'needs': ..., 'breaks': ..., 'demo': <python source>}
"""
import ast
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right, 1 when it is broken; run from the root of the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONPATH="$PWD"
exec timeout 280 /opt/venv/bin/python "$here/demo.py"
'''


def main():
    bug, prop = sys.argv[1:3]
    spec = ast.literal_eval(sys.stdin.read())
    tree = os.path.join('/tmp/plant', bug)
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
    files = spec['edits'] if isinstance(spec['edits'], dict) else {spec['file']: spec['edits']}
    for name, edits in files.items():
        path = os.path.join(tree, name)
        text = open(path).read()
        for old, new in edits:
            assert text.count(old) == 1, (name, text.count(old), old)
            text = text.replace(old, new)
        open(path, 'w').write(text)
    diff = subprocess.run(['git', 'diff'], cwd=tree, capture_output=True, text=True, check=True).stdout
    d = os.path.join(VERIF, 'seeded', bug)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'].lstrip())
    json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(tree)


main()
