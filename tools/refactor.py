"""Refactoring survey (a development tool, not a check): one kind of behaviour-preserving rewrite is applied to every
function of a scratch copy of /repo/properties; the stable tests and then the checks are run, which must all stay quiet.

usage: refactor.py KIND[,KIND…] [--checks C01,C02…] [--files a.py,…] [--jobs 1] [--keep DIR]     (KIND all: each kind in turn)"""
import warnings
warnings.simplefilter('ignore')
import argparse, ast, copy, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
FILES = ['basic.py', 'handlers.py', 'images.py', 'link.py', 'math.py', 'utils.py', 'base/base.py', 'base/containers.py',
         'base/instance.py', 'base/union.py', 'extras/singleton.py', 'extras/task.py', 'extras/uid.py', 'extras/web.py']
N = [0]


def fresh(p):
    N[0] += 1
    return '_%s_%d' % (p, N[0])


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def jumps(body):
    """does a statement list always leave (return, raise, continue, break)?"""
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def own(node, kinds):
    """the nodes of these kinds in node, nested functions excluded."""
    out = []
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            out.append(n)
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))
    return out


class Kind(ast.NodeTransformer):
    """base: only inside functions."""
    depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        try:
            self.generic_visit(node)
        finally:
            self.depth -= 1
        return node


class invert_if(Kind):
    def visit_If(self, node):
        self.generic_visit(node)
        t = ast.UnaryOp(ast.Not(), node.test)
        return ast.If(t, node.orelse or [ast.Pass()], node.body)


class return_variable(Kind):
    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        v = fresh('result')
        return [ast.Assign([name(v, True)], node.value, lineno=0), ast.Return(name(v))]


class for_while(Kind):
    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        it, v = fresh('it'), fresh('val')
        return [ast.Assign([name(it, True)], ast.Call(name('iter'), [node.iter], []), lineno=0),
                ast.While(ast.Constant(True), [
                    ast.Try([ast.Assign([name(v, True)], ast.Call(name('next'), [name(it)], []), lineno=0)],
                            [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], []),
                    ast.Assign([node.target], name(v), lineno=0)] + node.body, [])]


class append(Kind):
    """x += [y] on local names -> x.append(y), also x.extend(z) for other list concatenations of comprehensions."""
    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Add) and isinstance(node.target, ast.Name) and isinstance(node.value, ast.List) and \
                len(node.value.elts) == 1:
            return ast.Expr(ast.Call(ast.Attribute(name(node.target.id), 'append', ast.Load()), node.value.elts, []))
        return node


class nested_if(Kind):
    def visit_If(self, node):
        self.generic_visit(node)
        if isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And) and not node.orelse:
            body = node.body
            for t in reversed(node.test.values):
                body = [ast.If(t, body, [])]
            return body[0]
        if isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.Or) and jumps(node.body) and not node.orelse:
            return [ast.If(t, copy.deepcopy(node.body), []) for t in node.test.values]
        return node


class bool_flag(Kind):
    """conditions are computed into a local first."""
    def visit_If(self, node):
        self.generic_visit(node)
        v = fresh('cond')
        return [ast.Assign([name(v, True)], node.test, lineno=0), ast.If(name(v), node.body, node.orelse)]


class comp_loop(Kind):
    """x = [comprehension] -> explicit loop."""
    def visit_Assign(self, node):
        self.generic_visit(node)
        c = node.value
        if isinstance(c, (ast.ListComp, ast.DictComp, ast.SetComp)) and len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Name) and len(c.generators) == 1:
            g = c.generators[0]
            v = fresh('acc')
            names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            ren = {n: fresh(n) for n in names}

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.Name(ren.get(n.id, n.id), n.ctx)
            src = g.iter
            c = R().visit(copy.deepcopy(c))
            g = c.generators[0]
            if isinstance(c, ast.ListComp):
                init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(v), 'append', ast.Load()), [c.elt], []))
            elif isinstance(c, ast.SetComp):
                init, add = ast.Call(name('set'), [], []), ast.Expr(ast.Call(ast.Attribute(name(v), 'add', ast.Load()), [c.elt], []))
            else:
                init = ast.Dict([], [])
                add = ast.Assign([ast.Subscript(name(v), c.key, ast.Store())], c.value, lineno=0)
            body = [add]
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            return [ast.Assign([name(v, True)], init, lineno=0), ast.For(g.target, src, body, [], lineno=0),
                    ast.Assign(node.targets, name(v), lineno=0)]
        return node


class early_else(Kind):
    """if c: …return; rest -> if c: …return else: rest."""
    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and jumps(s.body) and body[i + 1:]:
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self.block(b))
        return node


class else_early(Kind):
    """if c: …return else: rest -> if c: …return; rest."""
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and jumps(node.body):
            rest = node.orelse
            node.orelse = []
            return [node] + rest
        return node


class isinstance_or(Kind):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'isinstance' and isinstance(node.args[1], ast.Tuple) and \
                isinstance(node.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Call(name('isinstance'), [node.args[0], e], []) for e in node.args[1].elts])
        return node


class item_assign(Kind):
    """d.update({k: v}) -> d[k] = v; dict(a=b) -> {'a': b}."""
    def visit_Expr(self, node):
        self.generic_visit(node)
        c = node.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'update' and len(c.args) == 1 and \
                isinstance(c.args[0], ast.Dict) and not c.keywords and all(c.args[0].keys) and isinstance(c.func.value, ast.Name):
            return [ast.Assign([ast.Subscript(c.func.value, k, ast.Store())], v, lineno=0)
                    for k, v in zip(c.args[0].keys, c.args[0].values)]
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'dict' and not node.args and all(k.arg for k in node.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in node.keywords], [k.value for k in node.keywords])
        return node


class python3(Kind):
    """six idioms -> Python 3 idioms."""
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('iteritems', 'itervalues') and len(node.args) == 1:
            return ast.Call(ast.Attribute(node.args[0], node.func.id[4:], ast.Load()), [], [])
        return node

    def visit_Name(self, node):
        if self.depth and isinstance(node.ctx, ast.Load):
            if node.id == 'string_types':
                return name('str')
            if node.id == 'text_type':
                return name('str')
        return node


class super0(Kind):
    """super(Cls, self) -> super()."""
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and len(node.args) == 2 and \
                isinstance(node.args[1], ast.Name) and node.args[1].id in ('self', 'cls', 'mcs') and self.depth == 1 and \
                isinstance(node.args[0], ast.Name) and node.args[0].id not in ('cls',):
            return ast.Call(name('super'), [], [])
        return node


class fstring(Kind):
    """'…{}…'.format(a, b=c) -> f-string."""
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) \
                and not any(isinstance(a, ast.Starred) for a in node.args) and all(k.arg for k in node.keywords):
            import string
            vals, auto = [], 0
            kw = {k.arg: k.value for k in node.keywords}
            for lit, fld, spec, conv in string.Formatter().parse(f.value.value):
                if lit:
                    vals.append(ast.Constant(lit))
                if fld is None:
                    continue
                if fld == '':
                    e, auto = node.args[auto], auto + 1
                elif fld in kw:
                    e = kw[fld]
                else:
                    return node
                vals.append(ast.FormattedValue(e, ord(conv) if conv else -1,
                                               ast.JoinedStr([ast.Constant(spec)]) if spec else None))
            return ast.JoinedStr(vals)
        return node


class noop(Kind):
    def visit_FunctionDef(self, node):
        super().visit_FunctionDef(node)
        i = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(i, ast.Assign([name(fresh('unused'), True)], ast.Constant(None), lineno=0))
        return node


class ifexp(Kind):
    """a if c else b assigned or returned -> statements."""
    def visit_Assign(self, node):
        if isinstance(node.value, ast.IfExp) and len(node.targets) == 1:
            e = node.value
            return ast.If(e.test, [ast.Assign(node.targets, e.body, lineno=0)],
                          [ast.Assign(copy.deepcopy(node.targets), e.orelse, lineno=0)])
        return node

    def visit_Return(self, node):
        if isinstance(node.value, ast.IfExp):
            e = node.value
            return ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
        return node


class arg_locals(Kind):
    """the arguments of calls that are not plain are put into locals first (statement-level calls)."""
    def do(self, call):
        pre = []
        if not isinstance(call.func, (ast.Name, ast.Attribute)):
            return pre
        if any(isinstance(a, ast.Starred) for a in call.args):
            return pre
        for i, a in enumerate(call.args):
            if isinstance(a, (ast.Call, ast.Dict, ast.List, ast.BinOp)):
                v = fresh('arg')
                pre.append(ast.Assign([name(v, True)], a, lineno=0))
                call.args[i] = name(v)
            elif not isinstance(a, (ast.Name, ast.Constant)):
                break
        return pre

    def ok(self, call):
        f = call.func
        while isinstance(f, ast.Attribute):
            f = f.value
        return isinstance(f, ast.Name) and f.id not in ('super', 'warn')

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call) and self.ok(node.value):
            return self.do(node.value) + [node]
        return node

    def visit_Return(self, node):
        if isinstance(node.value, ast.Call) and self.ok(node.value):
            return self.do(node.value) + [node]
        return node


class helper(Kind):
    """the body of each method of a class moves to a function of the module, called from the method."""
    def __init__(self):
        self.helpers = []

    def visit_ClassDef(self, node):
        for i, f in enumerate(node.body):
            if not isinstance(f, ast.FunctionDef) or f.args.vararg and 0:
                continue
            if f.name.startswith('__') or own(f, (ast.Yield, ast.Global, ast.Nonlocal)):
                continue
            if any(isinstance(n, ast.Name) and n.id == '__class__' for n in ast.walk(f)):
                continue
            names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)}
            h = fresh('helper_' + f.name.strip('_'))
            a = f.args
            plain = [x.arg for x in a.posonlyargs + a.args]
            params = plain + [x.arg for x in a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
            body = f.body
            doc = []
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                doc, body = body[:1], body[1:]
            if not body:
                continue
            self.helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []),
                                                body, [], None, lineno=0))
            f.body = doc + [ast.Return(ast.Call(name(h), [name(p) for p in params], []))]
        return node

    def visit_Module(self, node):
        self.generic_visit(node)
        # before the first class
        i = next((k for k, s in enumerate(node.body) if isinstance(s, ast.ClassDef)), len(node.body))
        node.body[i:i] = self.helpers
        return node


class half_helper(helper):
    """the second half of each long method moves to a method of the class."""
    def visit_ClassDef(self, node):
        new = []
        for f in node.body:
            new.append(f)
            if not isinstance(f, ast.FunctionDef) or f.name == '__new__' or own(f, (ast.Yield, ast.Global, ast.Nonlocal)):
                continue
            if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in f.decorator_list):
                continue
            if not f.args.args or f.args.args[0].arg not in ('self',):
                continue
            body = f.body
            if len(body) < 4 or any(isinstance(s, ast.FunctionDef) for s in body):
                continue
            k = len(body) // 2 + 1
            rest = body[k:]
            before = {n.id for s in body[:k] for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            params = {x.arg for x in f.args.args + f.args.kwonlyargs}
            if f.args.vararg:
                params.add(f.args.vararg.arg)
            if f.args.kwarg:
                params.add(f.args.kwarg.arg)
            used = {n.id for s in rest for n in ast.walk(s) if isinstance(n, ast.Name)}
            # names must be definitely assigned: only plain assignments at the top level of the first half
            sure = {t.id for s in body[:k] if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)} | params
            need = (before | params) & used
            if not need <= sure:
                continue
            need = sorted(need - {'self'})
            h = fresh('part_' + f.name.strip('_'))
            new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg('self')] + [ast.arg(p) for p in need], None, [], [], None, []),
                                       rest, [], None, lineno=0))
            f.body = body[:k] + [ast.Return(ast.Call(ast.Attribute(name('self'), h, ast.Load()), [name(p) for p in need], []))]
        node.body = new
        return node


class gen_list(Kind):
    """any/all/join over a list display instead of a generator and the other way round are equal only without effects:
    only the loop that computes all()/any() is spelled out in returns."""
    def visit_Return(self, node):
        c = node.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('any', 'all') and len(c.args) == 1 and \
                isinstance(c.args[0], ast.GeneratorExp) and len(c.args[0].generators) == 1 and not c.args[0].generators[0].ifs:
            g = c.args[0].generators[0]
            isany = c.func.id == 'any'
            t = c.args[0].elt if isany else ast.UnaryOp(ast.Not(), c.args[0].elt)
            return [ast.For(g.target, g.iter, [ast.If(t, [ast.Return(ast.Constant(isany))], [])], [], lineno=0),
                    ast.Return(ast.Constant(not isany))]
        return node


class demorgan(Kind):
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if isinstance(node.test, ast.BoolOp):
            op = ast.And() if isinstance(node.test.op, ast.Or) else ast.Or()
            node.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in node.test.values]))
        return node


class dict_get(Kind):
    """getattr(self, '_x', d) -> self._x if hasattr(self, '_x') else d (constants only)."""
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'getattr' and len(node.args) == 3 and \
                isinstance(node.args[0], ast.Name) and isinstance(node.args[1], ast.Constant) and isinstance(node.args[2], ast.Constant):
            return ast.IfExp(ast.Call(name('hasattr'), node.args[:2], []),
                             ast.Attribute(node.args[0], node.args[1].value, ast.Load()), node.args[2])
        return node


class rename_locals(Kind):
    """local variables get other names."""
    def visit_FunctionDef(self, node):
        if own(node, (ast.Lambda, ast.FunctionDef)) or any(isinstance(n, ast.FunctionDef) and n is not node for n in ast.walk(node)):
            return node
        params = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
        stores = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        ren = {n: n + '_' for n in stores}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.Name(ren.get(n.id, n.id), n.ctx)

            def visit_ExceptHandler(self, n):
                self.generic_visit(n)
                return n
        handlers = {h.name for h in ast.walk(node) if isinstance(h, ast.ExceptHandler) and h.name}
        for h in handlers:
            ren.pop(h, None)
        node.body = [R().visit(s) for s in node.body]
        return node


class finally_except(Kind):
    """try: body finally: fin -> try: body except BaseException: fin; raise / else: fin when the body cannot return."""
    def visit_Try(self, node):
        self.generic_visit(node)
        if node.finalbody and not node.handlers and not own(node, (ast.Return, ast.Break, ast.Continue)):
            return ast.Try(node.body, [ast.ExceptHandler(name('BaseException'), None,
                                                         copy.deepcopy(node.finalbody) + [ast.Raise()])], node.finalbody, [])
        return node


KINDS = [invert_if, return_variable, for_while, append, nested_if, bool_flag, comp_loop, early_else, else_early, isinstance_or,
         item_assign, python3, super0, fstring, noop, ifexp, arg_locals, helper, half_helper, gen_list, demorgan, dict_get,
         rename_locals, finally_except]
BY = {k.__name__: k for k in KINDS}


def build(kinds, files, dest):
    for x in ('properties', 'tests'):
        shutil.copytree(os.path.join(REPO, x), os.path.join(dest, x), ignore=shutil.ignore_patterns('__pycache__'))
    for f in files:
        p = os.path.join(dest, 'properties', f)
        t = ast.parse(open(p).read())
        for k in kinds:
            t = k().visit(t)
            ast.fix_missing_locations(t)
        open(p, 'w').write(ast.unparse(t) + '\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('kinds')
    ap.add_argument('--checks', default=','.join('C%02d' % i for i in range(1, 27)))
    ap.add_argument('--files', default=','.join(FILES))
    ap.add_argument('--build-only', action='store_true')
    o = ap.parse_args()
    groups = [[k] for k in KINDS] if o.kinds == 'all' else [[BY[x] for x in g.split('+')] for g in o.kinds.split(',')]
    for g in groups:
        label = '+'.join(k.__name__ for k in g)
        tmp = tempfile.mkdtemp(prefix='refactor')
        try:
            build(g, o.files.split(','), tmp)
            p = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=tmp, capture_output=True,
                               text=True, env=dict(os.environ, PYTHONHASHSEED='0'))
            if p.returncode:
                print(label, 'TESTS FAIL', p.stdout[-600:])
                continue
            print(label, 'tests pass', flush=True)
            if o.build_only:
                continue
            for c in o.checks.split(','):
                t0 = time.time()
                env = dict(os.environ, PYVC_REPO=tmp, PYVC_OUT=os.path.join(tmp, 'out'))
                p = subprocess.run(['./check', c], cwd=VERIF, env=env, capture_output=True, text=True)
                last = [l for l in p.stdout.splitlines() if l.startswith(c + ':') or 'VIOLATION' in l or 'ERROR' in l]
                und = [l for l in p.stdout.splitlines() if 'ndecided' in l][:3]
                print('  %s %s rc=%d %.0fs %s' % (label, c, p.returncode, time.time() - t0, ' | '.join(last)[:300]), und if und else '',
                      flush=True)
                if p.returncode:
                    print(p.stdout[-1500:], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
