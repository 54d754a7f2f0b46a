"""Differential test of the verifier's Python semantics (a development tool, not a check): each snippet is run by CPython on
concrete inputs and by pyvc on symbolic inputs that are assumed to have those values; pyvc must prove CPython's outcome.
usage: difftest.py [name ...]      prints WRONG for a disagreement, VACUOUS if pyvc finds no path; unsupported ones are counted."""
import importlib.util, os, sys, tempfile, textwrap, warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get('PYVC_REPO', '/repo')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import contracts                        # noqa
from pyvc import api, interp            # noqa
from pyvc.verifier import prove         # noqa

COMMON = open(os.path.join(HERE, 'tools', 'difftest_snippets.py')).read()


def any_of(v, n, tail):
    if isinstance(v, bool):
        return "%s = any_bool('%s')\n    assume(%s == %s)" % (n, n, n, 'float(%r)' % repr(v) if isinstance(v, float) else repr(v))
    if isinstance(v, int):
        return "%s = any_int('%s')\n    assume(%s == %s)" % (n, n, n, 'float(%r)' % repr(v) if isinstance(v, float) else repr(v))
    if isinstance(v, float):
        return "%s = any_float('%s')\n    assume(%s == %s)" % (n, n, n, 'float(%r)' % repr(v) if isinstance(v, float) else repr(v))
    if isinstance(v, str):
        return "%s = any_str('%s')\n    assume(%s == %s)" % (n, n, n, 'float(%r)' % repr(v) if isinstance(v, float) else repr(v))
    if isinstance(v, list) and all(type(x) is int for x in v):
        out = ["%s = mkseq('%s', lambda i: uf_int('%s', i))" % (n, n, n), 'assume(len(%s) == %d)' % (n, len(v))]
        out += ['assume(uf_int(%r, %d) == %d)' % (n, i, x) for i, x in enumerate(v)]
        return '\n    '.join(out)
    return '%s = %r' % (n, v)


def attempt(tmp, name, k, body, params, exc, judge, negated=False):
    N[0] += 1
    src = 'from pyvc.api import *\n' + COMMON + """

@contract('T00', [], trials=1)
def t():
    '''t'''
    %s
    try:
        got = %s(%s)
    except Exception as e:
        check(%stype(e).__name__ == %r, 'exception')
        return
    %s
""" % (body, name, ', '.join(params), 'not ' if negated else '', exc, judge)
    mod = 'contracts.m_%s_%d_%d' % (name, k, N[0])
    p = os.path.join(tmp, 'contracts', mod[10:] + '.py')
    open(p, 'w').write(src)
    api.REGISTRY.clear()
    spec = importlib.util.spec_from_file_location(mod, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules[mod] = m
    spec.loader.exec_module(m)
    return prove(api.REGISTRY['T00'][0], budget_s=20, timeout_ms=2500)


N = [0]


def main():
    tmp = tempfile.mkdtemp(prefix='difftest')
    interp.VERIF = tmp
    os.mkdir(tmp + '/contracts')
    spec = importlib.util.spec_from_file_location('snips', os.path.join(HERE, 'tools', 'difftest_snippets.py'))
    snips = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(snips)
    bad = ok = skipped = rough = 0
    why, loose = {}, {}
    for name, inputs in snips.CASES:
        if len(sys.argv) > 1 and name not in sys.argv[1:]:
            continue
        f = getattr(snips, name)
        for k, args in enumerate(inputs):
            try:
                import copy
                want, exc = f(*copy.deepcopy(args)), None
            except Exception as e:
                want, exc = None, type(e).__name__
            params = ['x%d' % i for i in range(len(args))]
            body = '\n    '.join(any_of(v, p, tmp) for v, p in zip(args, params))
            st = attempt(tmp, name, k, body, params, exc, 'inf = float("inf")\n    check(%r is None, "no exception")\n    check(got == %r, "value")' % (exc, want))
            n = sum(sum(o.values()) for o in st.obligations.values())
            refuted = [(r['label'], r['exact'], r['taint']) for r in st.refuted]
            if refuted and not st.unsupported and st.completed:
                # is CPython's outcome possible at least?
                neg = attempt(tmp, name, k, body, params, exc, 'inf = float("inf")\n    check(not (got == %r), "value")' % (want,), True)
                if not neg.refuted and not neg.unsupported and neg.completed:
                    bad += 1
                    print('WRONG', name, args, 'CPython:', exc or repr(want), 'refuted', refuted, flush=True)
                else:
                    rough += 1
                    loose.setdefault(name, []).append((args, refuted))
            elif st.unsupported or not st.completed:
                skipped += 1
                why.setdefault(name, set()).update(st.unsupported or ['budget'])
            elif not n:
                bad += 1
                print('VACUOUS', name, args, st.ends, flush=True)
            else:
                ok += 1
    print('agree', ok, 'disagree', bad, 'agree but not proved', rough, 'undecided', skipped)
    for k, v in loose.items():
        print('   not proved', k, v[0])
    for k, v in why.items():
        print('   undecided', k, sorted(v)[:2])


main()
