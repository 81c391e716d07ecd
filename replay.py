"""Replay a counterexample against the real code of /repo (unpatched numpy/pandas).
usage: replay.py FILE.json      (a file named in a VIOLATION line)
       replay.py --server       (one spec per line on stdin)"""
import json
import math
import os
import sys
import traceback
import warnings

os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
from checks import realrun  # noqa


def main():
    if sys.argv[1] == '--server':
        out = os.fdopen(os.dup(1), 'w', buffering=1)
        os.dup2(2, 1)
        for line in sys.stdin:
            try:
                r = realrun.run(json.loads(line))
            except Exception as e:      # machinery problem: not a reproduction
                r = dict(reproduced=False, failed=True, detail='replay error %s' % ''.join(
                    traceback.format_exception(type(e), e, e.__traceback__))[-400:])
            out.write('@@' + json.dumps(r, default=str) + '\n')
        return 0
    f = json.load(open(sys.argv[1]))
    r = realrun.run(f.get('spec', f))
    print(json.dumps(r, indent=1, default=str))
    return 1 if r.get('reproduced') else 0


if __name__ == '__main__':
    sys.exit(main())
