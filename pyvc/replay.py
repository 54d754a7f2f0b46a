"""Replay a violation: python -m pyvc.replay FILE  (exit 1 when it still fails)."""
import json
import os
import sys
from . import check            # noqa: sets the paths
from . import runner


def main():
    d = json.load(open(sys.argv[1]))
    cs = [c for c in check.load(d['property']) if c.name == d['contract']]
    if not cs:
        print('no such contract')
        return 2
    if d.get('kind') == 'concrete':
        import tempfile
        with tempfile.TemporaryDirectory() as t:
            os.chdir(t)
            st, ctx, info = runner.run_once(cs[0], d['seed'], d.get('forced'))
        for n, v in ctx.drawn:
            print('  %s = %s' % (n, v))
        print(st, info and info['label'], info and info['detail'])
        if info:
            print(info['traceback'])
        return 1 if st == 'fail' else 0
    from .verifier import prove
    st = prove(cs[0], budget_s=120)
    bad = [r for r in st.refuted if r['label'] == d['label']]
    print('obligation %r: %s' % (d['label'], 'refuted' if bad else 'discharged'))
    if bad:
        print(json.dumps(bad[0], indent=1, default=str))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
