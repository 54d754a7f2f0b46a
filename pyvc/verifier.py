"""The verifier: exploration of every path of a contract."""
import ast
import sys
import time
import z3
from .core import *          # noqa
from .core import V, FL
from .interp import Interp
from .models import Models
from .loops import Loops
from . import symapi
from . import modular


class Verifier(Models, Loops, Interp):
    pass


def prove(contract, budget_s=20.0, timeout_ms=2500, max_paths=6000, stats=None):
    """Explore all paths of a contract; the Stats tell what was discharged."""
    sys.setrecursionlimit(20000)
    st = stats or Stats()
    st.covers = set()
    t0 = time.time()
    e = Verifier(st, timeout_ms=timeout_ms, deadline=t0 + budget_s)
    symapi.install(e)
    modular.install(e, contract.inline)
    work = [[]]
    st.completed = False
    st.ends = {}
    while work:
        prefix = work.pop()
        e.reset(prefix)
        st.paths += 1
        end = 'done'
        try:
            if st.paths > max_paths:
                raise Unsupported('too many paths')
            e.call(contract.fn, [], {})
            if e.taint:
                pass
        except PyExc as x:
            end = 'uncaught'
            e.oblige_uncaught(x)
        except Infeasible:
            end = 'infeasible'
        except PathStop:
            end = 'stopped'
        except Unsupported as x:
            end = 'unsupported'
            st.unsupported.append('%s [%s]' % (x, ' > '.join(e.where[-3:])))
            if 'too many paths' in str(x) or 'time budget' in str(x):
                break
        except z3.Z3Exception as x:
            end = 'unsupported'
            st.unsupported.append('z3: %s' % str(x)[:200])
        except RecursionError:
            end = 'unsupported'
            st.unsupported.append('recursion')
        except (BreakEx, ContinueEx, ReturnEx, PoisonRead) as x:
            end = 'unsupported'
            st.unsupported.append('control: %s' % type(x).__name__)
        st.ends[end] = st.ends.get(end, 0) + 1
        work.extend(e.dec.alts)
        if len(st.unsupported) > 400:
            break
    else:
        st.completed = True
        if not st.unsupported:
            # a fail(...) that no feasible path reaches is a discharged obligation
            for lab in fail_labels(contract.fn):
                if lab not in st.obligations:
                    st.ob(lab)['discharged'] += 1
    if st.ends.get('done'):
        st.ob('no other exception escapes')['discharged'] += st.ends['done']
    st.wall = time.time() - t0
    return st


def fail_labels(fn):
    from .interp import func_node
    out = []
    for n in ast.walk(func_node(fn)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'fail' and n.args and \
                isinstance(n.args[0], ast.Constant):
            out.append(n.args[0].value)
    return out
