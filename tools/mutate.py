"""Mutation survey (a development tool, not a check): small AST changes of /repo/properties that pass the stable tests
are run against the checks whose contracts are anchored near the change; survivors are listed.

usage: mutate.py OUT.jsonl [--n N] [--seed S] [--files a.py,b.py] [--jobs J]"""
import warnings
warnings.simplefilter('ignore')
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
FILES = ['basic.py', 'handlers.py', 'images.py', 'link.py', 'math.py', 'utils.py', 'base/base.py', 'base/containers.py',
         'base/instance.py', 'base/union.py', 'extras/singleton.py', 'extras/task.py', 'extras/uid.py', 'extras/web.py']
SKIP_FUNCS = {'info', 'sphinx', 'sphinx_class', '_sphinx', 'doc', '__repr__', '__str__', 'terms', 'display_warning', 'error',
              'sphinx_extra'}


def anchors():
    """function qualified name -> checks."""
    out = {}
    for fn in sorted(os.listdir(os.path.join(VERIF, 'contracts'))):
        m = re.match(r'c(\d\d)\.py$', fn)
        if m:
            for mod, q in re.findall(r"'(properties[\w.]*):([\w.]+)'", open(os.path.join(VERIF, 'contracts', fn)).read()):
                out.setdefault(q, {}).setdefault('C' + m.group(1), 0)
                out[q]['C' + m.group(1)] += 1
    return out


def interpreted():
    """file:function -> checks whose proofs execute it (from the last evidence)."""
    out = {}
    for i in range(1, 27):
        try:
            fs = json.load(open(os.path.join(VERIF, 'evidence', 'C%02d.json' % i)))['coverage']['functions_interpreted']
        except (OSError, KeyError):
            continue
        for f in fs:
            out.setdefault(f, []).append('C%02d' % i)
    return out


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def variants(node):
    """(description, new node) for one node."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            if type(op) in CMP:
                n = copy.deepcopy(node)
                n.ops[i] = CMP[type(op)]()
                yield type(op).__name__ + '->' + CMP[type(op)].__name__, n
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        yield 'and<->or', n
        for i in range(len(node.values)):
            n = copy.deepcopy(node)
            del n.values[i]
            yield 'drop operand %d' % i, n.values[0] if len(n.values) == 1 else n
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield 'drop not', node.operand
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield 'flip', ast.Constant(not v)
        elif isinstance(v, (int, float)):
            yield '+1', ast.Constant(v + 1)
        elif v is None:
            yield 'None->False', ast.Constant(False)
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Name) and node.func.id in ('list', 'tuple', 'dict', 'set', 'copy', 'sorted') and len(node.args) == 1:
            yield 'drop copy', node.args[0]
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'copy' and not node.args:
            yield 'drop .copy()', node.func.value
        for i, k in enumerate(node.keywords):
            n = copy.deepcopy(node)
            del n.keywords[i]
            yield 'drop keyword %s' % k.arg, n
        if len(node.args) == 2:
            n = copy.deepcopy(node)
            n.args.reverse()
            yield 'swap arguments', n
    if isinstance(node, ast.If):
        n = copy.deepcopy(node)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        yield 'negate if', n
        n = copy.deepcopy(node)
        n.test = ast.Constant(True)
        yield 'if True', n
        n = copy.deepcopy(node)
        n.test = ast.Constant(False)
        yield 'if False', n
    if isinstance(node, ast.IfExp):
        yield 'ifexp body', node.body
        yield 'ifexp else', node.orelse
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) or \
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        yield 'drop statement', ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None:
        yield 'return None', ast.Return(ast.Constant(None))
    if isinstance(node, ast.Break):
        yield 'break->continue', ast.Continue()
    if isinstance(node, ast.Continue):
        yield 'continue->break', ast.Break()
        yield 'drop continue', ast.Pass()
    if isinstance(node, ast.Try):
        if node.handlers:
            n = copy.deepcopy(node)
            for h in n.handlers:
                h.body = [ast.Raise()]
            yield 'except: raise', n
            for i, h in enumerate(node.handlers):
                if h.type is not None:
                    n = copy.deepcopy(node)
                    n.handlers[i].type = ast.Name('Exception', ast.Load())
                    yield 'except Exception', n
                    if isinstance(h.type, ast.Tuple):
                        for j in range(len(h.type.elts)):
                            n = copy.deepcopy(node)
                            del n.handlers[i].type.elts[j]
                            yield 'drop except type %d' % j, n
        if node.finalbody and not node.handlers:
            yield 'finally->after', ast.If(ast.Constant(True), copy.deepcopy(node.body) + copy.deepcopy(node.finalbody), [])
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        n = copy.deepcopy(node)
        n.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        yield '+<->-', n


def mutants(path):
    src = open(os.path.join(REPO, 'properties', path)).read()
    tree = ast.parse(src)
    out = []

    def walk(node, qual, infunc):
        for field, value in ast.iter_fields(node):
            items = value if isinstance(value, list) else [value]
            for i, ch in enumerate(items):
                if not isinstance(ch, ast.AST):
                    continue
                q, f = qual, infunc
                if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                    if ch.name in SKIP_FUNCS:
                        continue
                    if not infunc:
                        q = qual + [ch.name]
                    f = infunc or isinstance(ch, ast.FunctionDef)
                    if isinstance(ch, ast.FunctionDef) and not infunc:
                        pass
                if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and field == 'body' and i == 0 and \
                        isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                    continue
                if isinstance(ch, ast.Raise):
                    out.append((path, q, ch, 'drop statement', None))
                    continue
                if infunc or isinstance(ch, (ast.FunctionDef, ast.ClassDef)) is False and f:
                    k = 0
                    for d, n in variants(ch):
                        out.append((path, q, ch, d, k))
                        k += 1
                walk(ch, q, f)
    walk(tree, [], False)
    return src, tree, out


class Repl(ast.NodeTransformer):
    def __init__(self, pos, kind, d, k):
        self.key, self.d, self.k, self.done = (pos, kind), d, k, 0

    def visit(self, node):
        if hasattr(node, 'lineno') and ((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset), type(node)) == self.key \
                and not self.done:
            self.done = 1
            if self.k is None:
                return ast.copy_location(ast.Pass(), node)
            return ast.copy_location(list(variants(node))[self.k][1], node)
        return self.generic_visit(node)


def apply(m):
    path, q, node, d, k = m
    src = open(os.path.join(REPO, 'properties', path)).read()
    t = Repl((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset), type(node), d, k)
    tree = t.visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    # keep the text: replace only the statement that contains the node
    return ast.unparse(tree)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=100)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--files', default=','.join(FILES))
    ap.add_argument('--max-checks', type=int, default=8)
    o = ap.parse_args()
    global REPO
    snap = tempfile.mkdtemp(prefix='mutbase')
    for x in ('properties', 'tests'):
        shutil.copytree(os.path.join(REPO, x), os.path.join(snap, x), ignore=shutil.ignore_patterns('__pycache__'))
    REPO = snap
    r = random.Random(o.seed)
    anc = anchors()
    interp = interpreted()
    done = set()
    if os.path.exists(o.out):
        for l in open(o.out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['code']))
    pool = []
    for f in o.files.split(','):
        pool += mutants(f)[2]
    r.shuffle(pool)
    print(len(pool), 'mutants')
    n = 0
    for m in pool:
        if n >= o.n:
            break
        path, q, node, d, k = m
        try:
            code = ast.unparse(node).splitlines()[0][:100]
        except Exception:
            code = '?'
        if (path, node.lineno, d, code) in done:
            continue
        done.add((path, node.lineno, d, code))
        tmp = tempfile.mkdtemp(prefix='mutant')
        try:
            for x in ('properties', 'tests'):
                shutil.copytree(os.path.join(REPO, x), os.path.join(tmp, x), ignore=shutil.ignore_patterns('__pycache__'))
            try:
                text = apply(m)
            except Exception as e:
                continue
            with open(os.path.join(tmp, 'properties', path), 'w') as fh:
                fh.write(text)
            rec = dict(file=path, func='.'.join(q), line=node.lineno, what=d, code=code)
            try:
                p = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=tmp,
                                   capture_output=True, text=True, timeout=60,
                                   env=dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1'))
                passed = p.returncode == 0
            except subprocess.TimeoutExpired:
                passed = False
            if not passed:
                continue
            n += 1
            name = '.'.join(q)
            cs = dict(anc.get(name, {}))
            if not cs:
                cls = q[0] if q else ''
                for a, v in anc.items():
                    if a == cls or a.startswith(cls + '.') or (len(q) > 1 and a.endswith('.' + q[-1])):
                        for c, w in v.items():
                            cs[c] = cs.get(c, 0) + w
            order = sorted(cs, key=lambda c: -cs[c])
            order += [c for c in interp.get('properties/' + path + ':' + name, []) if c not in order]
            order = order[:o.max_checks]
            rec['checks'] = {}
            rec['caught'] = None
            t0 = time.time()
            for c in order:
                env = dict(os.environ, PYVC_REPO=tmp, PYVC_OUT=os.path.join(tmp, 'out'))
                try:
                    p = subprocess.run(['./check', c], cwd=VERIF, env=env, capture_output=True, text=True, timeout=600)
                    rec['checks'][c] = p.returncode
                    if p.returncode == 1:
                        rec['caught'] = c
                        rec['weak'] = 'no-failing-input' in p.stdout
                        break
                except subprocess.TimeoutExpired:
                    rec['checks'][c] = 'timeout'
            rec['s'] = round(time.time() - t0)
            with open(o.out, 'a') as fh:
                fh.write(json.dumps(rec) + '\n')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    shutil.rmtree(snap, ignore_errors=True)


main()
