"""Worker process: runs cases of one check, one JSON line in, one JSON line out."""
import importlib
import json
import os
import re
import sys
import traceback

from . import world


def malformed(e):
    if isinstance(e, AttributeError):
        return "'NoneType'" in str(e)
    return isinstance(e, (TypeError, ValueError, IndexError, ArithmeticError)) and not isinstance(e, json.JSONDecodeError)


def describe(e):
    frame = traceback.extract_tb(e.__traceback__)[-1]
    text = re.sub(r'0x[0-9a-f]+', '0x', f'{type(e).__name__}: {str(e)[:300]}')
    return f'{text} (in {os.path.basename(frame.filename)}: {frame.line})'


def main():
    check_id = sys.argv[1]
    # results go to the original stdout; anything printed by the code under test goes to stderr
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    check = importlib.import_module(f'sim.checks.{check_id.lower()}')
    ready = False
    for line in sys.stdin.buffer:
        case = json.loads(line)
        try:
            if not ready:
                if hasattr(check, 'setup'):
                    check.setup(case)
                ready = True
            try:
                res = check.run(case)
            except Exception as e:
                if not malformed(e):
                    raise
                # what the code under test returned could not be taken apart, although it can for every result it should give
                ev = world.Events()
                ev.add('malformed', type(e).__name__)
                res = world.result(ev, world.Violation('malformed', 'a result or call is not of the expected form: ' + describe(e)))
        except BaseException as e:
            res = {'harness_error': ''.join(traceback.format_exception(e))[-3000:]}
            if isinstance(e, SystemExit):
                raise
        out.write(json.dumps(res, default=str).encode() + b'\n')
        out.flush()


if __name__ == '__main__':
    main()
