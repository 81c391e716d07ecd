"""Source-to-source step: let conditional expressions and simple conditional
assignments produce one merged value instead of two execution paths.

The rewriting never changes meaning: when a merge is impossible (a side raises,
values are not numbers, ...) the original branch statement is executed and the
path forks."""
import ast

from . import core
from .core import Sym, SymBool, SymError

SAFE_NAMES = {'abs', 'max', 'min', 'float', 'int', 'round', 'len', 'sum', 'bool', 'range'}
SAFE_METHODS = {'sum', 'mean', 'max', 'min', 'std', 'abs', 'item', 'get', 'maximum', 'minimum', 'sqrt', 'absolute',
                'where', 'float64', 'fabs'}


def pure(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and (f.id in SAFE_NAMES or f.id.startswith('_sx_')):
                continue
            if isinstance(f, ast.Attribute) and f.attr in SAFE_METHODS:
                continue
            return False
        if isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
            return False
    return True


def lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


class Merge(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.n = 0
        self.globals_ = []

    def visit_FunctionDef(self, node):
        self.depth += 1
        g = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                g.update(x.names)
        self.globals_.append(g)
        self.generic_visit(node)
        self.globals_.pop()
        self.depth -= 1
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.depth and pure(node.body) and pure(node.orelse):
            return ast.copy_location(call('_sx_ite', node.test, lam(node.body), lam(node.orelse)), node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.depth and all(pure(v) for v in node.values):
            return ast.copy_location(call('_sx_and' if isinstance(node.op, ast.And) else '_sx_or',
                                          *[lam(v) for v in node.values]), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Not):
            return ast.copy_location(call('_sx_not', node.operand), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.depth and len(node.ops) > 1 and pure(node) and not any(
                isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in node.ops):
            vals = [node.left] + node.comparators
            return ast.copy_location(call('_sx_and', *[
                lam(ast.Compare(left=vals[i], ops=[node.ops[i]], comparators=[vals[i + 1]]))
                for i in range(len(node.ops))]), node)
        return node

    # ---- if statements
    def effects(self, stmts):
        """ordered dict key -> (kind, target AST, value AST), or None"""
        out = {}
        assigned = set()
        for s in stmts:
            if isinstance(s, ast.Pass):
                continue
            reads = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            if reads & assigned:
                return None
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t, v = s.targets[0], s.value
            elif isinstance(s, ast.AugAssign):
                t = s.target
                load = ast.parse(ast.unparse(t), mode='eval').body
                v = ast.BinOp(left=load, op=s.op, right=s.value)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                    and s.value.func.attr == 'append' and len(s.value.args) == 1 and not s.value.keywords:
                base = s.value.func.value
                if not pure(base) or not pure(s.value.args[0]):
                    return None
                k = 'a:' + ast.unparse(base)
                if k in out:
                    return None
                out[k] = ('append', base, s.value.args[0])
                if isinstance(base, ast.Name):
                    assigned.add(base.id)
                continue
            else:
                return None
            if not pure(v):
                return None
            if isinstance(t, ast.Name):
                out_k = 'n:' + t.id
                assigned.add(t.id)
            elif isinstance(t, ast.Subscript) and pure(t):
                out_k = 's:' + ast.unparse(t)
                if any(k.startswith('s:') or k.startswith('a:') for k in out):
                    # a later read might alias an earlier subscript write
                    if any(isinstance(x, (ast.Subscript, ast.Attribute)) for x in ast.walk(v)):
                        return None
            else:
                return None
            if out_k in out:
                return None
            out[out_k] = ('set', t, v)
        return out

    def visit_If(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        orelse = node.orelse
        a = self.effects(node.body)
        if a is None or not a:
            return node
        # elif chains: the nested `if` has been rewritten already; keep it simple
        b = self.effects(orelse)
        if b is None:
            b = self._nested(orelse)
            if b is None:
                return node
        keys = list(a) + [k for k in b if k not in a]
        for k in keys:
            if k.startswith('a:') and not (k in a and k in b):
                return node
            if k.startswith('n:') and k[2:] in self.globals_[-1]:
                return node

        def side(d):
            vals = []
            for k in keys:
                if k in d:
                    vals.append(d[k][2])
                else:
                    vals.append(ast.parse(k[2:], mode='eval').body)
            return lam(ast.Tuple(elts=vals, ctx=ast.Load()))
        self.n += 1
        c, m = '_sx_c%d' % self.n, '_sx_m%d' % self.n
        body = []
        for i, k in enumerate(keys):
            kind, t, _ = (a.get(k) or b.get(k))
            mi = ast.Subscript(value=ast.Name(id=m, ctx=ast.Load()), slice=ast.Constant(i), ctx=ast.Load())
            if kind == 'append':
                body.append(ast.Expr(ast.Call(func=ast.Attribute(value=t, attr='append', ctx=ast.Load()), args=[mi],
                                              keywords=[])))
            else:
                tt = ast.parse(ast.unparse(t) + ' = 0').body[0].targets[0]
                body.append(ast.Assign(targets=[tt], value=mi))
        out = [
            ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=node.test),
            ast.Assign(targets=[ast.Name(id=m, ctx=ast.Store())],
                       value=call('_sx_merge', ast.Name(id=c, ctx=ast.Load()), side(a), side(b))),
            ast.If(test=ast.Compare(left=ast.Name(id=m, ctx=ast.Load()), ops=[ast.IsNot()],
                                    comparators=[ast.Constant(None)]),
                   body=body,
                   orelse=[ast.If(test=ast.Name(id=c, ctx=ast.Load()), body=node.body, orelse=orelse)])]
        for o in out:
            ast.copy_location(o, node)
        res = out
        res[-1]._sx = (a, b, keys)
        res[0]._sx_test = node.test
        node._sx_done = True
        # remember for enclosing elif
        self._last = (node, a, b, keys)
        out[-1].__dict__['_sx_if'] = (node.test, a, b, keys)
        return out

    def _nested(self, stmts):
        """effects of an already rewritten nested if (3 statements)"""
        if len(stmts) != 3 or not hasattr(stmts[2], '_sx_if'):
            return None
        test, a, b, keys = stmts[2]._sx_if
        if not pure(test):
            return None
        out = {}
        for k in keys:
            kind, t, _ = a.get(k) or b.get(k)

            def val(d):
                return d[k][2] if k in d else ast.parse(k[2:], mode='eval').body
            out[k] = (kind, t, call('_sx_ites', test, lam(val(a)), lam(val(b))))
        return out


class MergeFail(Exception):
    pass


def _unknown(c):
    if isinstance(c, Sym):
        c = c != 0
    if isinstance(c, SymBool) and not c.is_const():
        if not core.CTX.merge:
            return None
        if core.CTX.branch_known(c.b) is None:
            return c
    return None


def _mergeable(x):
    return isinstance(x, (Sym, SymBool, bool, int, float)) or core._num(x) and x is not None


def _merge_vals(c, a, b):
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(_merge_vals(c, x, y) for x, y in zip(a, b))
    isb = (SymBool, bool)
    if isinstance(a, isb) != isinstance(b, isb):
        raise MergeFail()
    if not (_mergeable(a) and _mergeable(b)):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        raise MergeFail()
    if type(a) is int and type(b) is int and a == b:
        return a
    if isinstance(a, (int,)) and isinstance(b, int) and not isinstance(a, bool):
        raise MergeFail()     # python ints may be indices: fork
    return core.ite(c, a, b)


def sx_ite(c, f, g):
    u = _unknown(c)
    if u is None:
        return f() if c else g()
    try:
        a = f()
        b = g()
        return _merge_vals(u, a, b)
    except (Exception, SymError):
        pass
    return f() if c else g()


def sx_ites(c, f, g):
    u = _unknown(c)
    if u is None:
        return f() if c else g()
    return _merge_vals(u, f(), g())


def sx_merge(c, f, g):
    u = _unknown(c)
    if u is None:
        return None
    try:
        return _merge_vals(u, f(), g())
    except (Exception, SymError):
        return None


def _bool(c, stop_on):
    def h(*fs):
        acc = None
        for i, f in enumerate(fs):
            if acc is not None:
                # value so far is symbolic: evaluate speculatively
                try:
                    v = f()
                    if isinstance(v, Sym) or not isinstance(v, (SymBool, bool)) and type(v).__name__ != 'bool_' \
                            and type(v).__name__ != 'bool':
                        raise MergeFail()
                except (Exception, SymError):
                    # decide the accumulated part by forking
                    if bool(acc) == stop_on:
                        return stop_on
                    acc = None
                    v = f()
            else:
                v = f()
            if i == len(fs) - 1 and acc is None:
                return v
            if isinstance(v, Sym):
                v = v != 0
            if isinstance(v, SymBool) and not v.is_const() and core.CTX.merge and \
                    core.CTX.branch_known(v.b) is None:
                acc = v if acc is None else (acc | v if stop_on else acc & v)
                continue
            t = bool(v)
            if t == stop_on:
                return v if acc is None else stop_on
            if i == len(fs) - 1:
                return acc
        return acc
    return h


sx_or = _bool('or', True)
sx_and = _bool('and', False)


def sx_not(v):
    if isinstance(v, SymBool):
        return ~v
    if isinstance(v, Sym):
        return v == 0
    return not v


BUILTINS = {'_sx_ite': sx_ite, '_sx_ites': sx_ites, '_sx_merge': sx_merge, '_sx_and': sx_and, '_sx_or': sx_or,
            '_sx_not': sx_not}


def transform(src, path):
    t = ast.parse(src, path)
    t = Merge().visit(t)
    ast.fix_missing_locations(t)
    return compile(t, path, 'exec', dont_inherit=True)
