"""Loads the package under test with scheduling points added.

The source is read from the repository's working tree, parsed, and given a call
to the simulator before every statement of every function body and after every
attribute load, subscript load and call inside those bodies.  Those are the
points at which the simulator may preempt the running thread, raise an injected
error, or run another event.  Nothing in the repository is changed, and what
the code is called or how it is laid out does not matter.

Code that takes or gives back a resource is not interrupted half-way: an error
due inside a finally block, inside a method that enters, leaves, acquires or
releases something, or between acquiring something and the try block that
follows, comes at the next point outside.  No Python code could be written to
withstand it there, and the interpreter's own locks are not interrupted either.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import inspect
import operator
import os
import sys
import textwrap

from . import alloc, rt

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'trading_calendars'
SITES = []
_SITE_IDS = {}


def site_id(module, node, kind):
    key = (module, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
           getattr(node, 'end_lineno', 0), getattr(node, 'end_col_offset', 0),
           kind)
    sid = _SITE_IDS.get(key)
    if sid is None:
        sid = _SITE_IDS[key] = len(SITES)
        SITES.append(key)
        if kind.endswith('*'):
            rt.SHIELDED.add(sid)
    return sid


def site_name(sid):
    if 0 <= sid < len(SITES):
        k = SITES[sid]
        return '%s:%s:%s(%s)' % (k[0], k[1], k[2], k[5])
    return str(sid)


HANDOVER = ('enter', 'exit', 'acquire', 'release')


def _acquires(stmt):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
               and n.func.attr.strip('_') in HANDOVER[::2]
               for n in ast.walk(stmt))


MUTATORS = {'append', 'extend', 'insert', 'update', 'setdefault', 'pop',
            'popitem', 'clear', 'add', 'discard', 'remove', 'sort', 'reverse',
            'appendleft', 'popleft', 'set', '__setitem__', '__setattr__'}


def _stateful(func):
    """Does the function seem to change what outlives the call?

    Only a hint where to look more often; nothing is decided by it.
    """
    mine = {n.id for n in ast.walk(func) if isinstance(n, ast.Name)
            and isinstance(n.ctx, ast.Store)}
    if func.name in ('__init__', '__new__') and func.args.args:
        mine.add(func.args.args[0].arg)

    def foreign(node):
        while isinstance(node, (ast.Attribute, ast.Subscript, ast.Call)):
            node = node.func if isinstance(node, ast.Call) else node.value
        return not isinstance(node, ast.Name) or node.id not in mine

    for n in ast.walk(func):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return True
        if isinstance(n, (ast.Attribute, ast.Subscript)) and \
                isinstance(n.ctx, (ast.Store, ast.Del)) and foreign(n.value):
            return True
        if isinstance(n, ast.Call) and (
                isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS
                and foreign(n.func.value)
                or isinstance(n.func, ast.Name)
                and n.func.id in ('setattr', 'delattr')):
            return True
    return False


class _Transformer(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.depth = 0
        self.ntemps = 0
        self.shield = ''

    # -- helpers
    def _y(self, stmt, shield=''):
        call = ast.Expr(value=ast.Call(
            func=ast.Name(id='__sim_y__', ctx=ast.Load()),
            args=[ast.Constant(value=site_id(
                self.module, stmt, 's' + (self.shield or shield)))],
            keywords=[]))
        return ast.copy_location(call, stmt)

    def _v(self, node, kind):
        kind += self.shield
        call = ast.Call(
            func=ast.Name(id='__sim_v__', ctx=ast.Load()),
            args=[node,
                  ast.Constant(value=site_id(self.module, node, kind))],
            keywords=[])
        return ast.copy_location(call, node)

    def _block(self, stmts, doc=False):
        out = []
        takes = [_acquires(s) for s in stmts]
        for i, s in enumerate(stmts):
            is_doc = (doc and i == 0 and isinstance(s, ast.Expr)
                      and isinstance(s.value, ast.Constant)
                      and isinstance(s.value.value, str))
            if is_doc or isinstance(s, (ast.Global, ast.Nonlocal)):
                out.append(s)
                continue
            taken = (isinstance(s, ast.Try) and s.finalbody and i
                     and isinstance(stmts[i - 1], (ast.Expr, ast.Assign))
                     and takes[i - 1])
            out.append(self._y(s, '*' if taken else ''))
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out

    # -- definitions
    def visit_FunctionDef(self, node):
        saved = self.depth
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.depth = saved + 1
        first = len(SITES)
        stateful = _stateful(node)
        shield, self.shield = self.shield, (
            '*' if node.name.strip('_') in HANDOVER else '')
        node.body = self._block(node.body, doc=True)
        self.depth, self.shield = saved, shield
        if stateful:
            rt.STATEFUL.update(range(first, len(SITES)))
        node.returns = node.returns
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None
                            for d in node.kw_defaults]
        return node

    def visit_Lambda(self, node):
        saved = self.depth
        node.args = self.visit(node.args)
        self.depth = saved + 1
        node.body = self.visit(node.body)
        self.depth = saved
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # -- compound statements
    def _compound(self, node):
        if not self.depth:
            return self.generic_visit(node)
        for field, value in ast.iter_fields(node):
            if field in ('body', 'orelse', 'finalbody') and \
                    isinstance(value, list):
                shield = self.shield
                if field == 'finalbody':
                    self.shield = '*'
                setattr(node, field, self._block(value) if value else value)
                self.shield = shield
            elif isinstance(value, list):
                setattr(node, field, [
                    self.visit(x) if isinstance(x, ast.AST) else x
                    for x in value])
            elif isinstance(value, ast.AST):
                setattr(node, field, self.visit(value))
        return node

    visit_If = visit_For = visit_While = visit_Try = visit_With = _compound
    visit_ExceptHandler = visit_AsyncFor = visit_AsyncWith = _compound

    # -- read-modify-write becomes three separate steps
    def visit_AugAssign(self, node):
        if not self.depth:
            return self.generic_visit(node)
        opname = {
            ast.Add: 'iadd', ast.Sub: 'isub', ast.Mult: 'imul',
            ast.Div: 'itruediv', ast.FloorDiv: 'ifloordiv', ast.Mod: 'imod',
            ast.Pow: 'ipow', ast.LShift: 'ilshift', ast.RShift: 'irshift',
            ast.BitOr: 'ior', ast.BitXor: 'ixor', ast.BitAnd: 'iand',
            ast.MatMult: 'imatmul',
        }[type(node.op)]
        target = node.target
        if isinstance(target, ast.Name):
            node.value = self.visit(node.value)
            return node
        self.ntemps += 1
        base = '__sim_t%d__' % self.ntemps
        out = []

        def assign(name, value):
            a = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())],
                           value=value)
            out.append(ast.copy_location(a, node))

        def name(n):
            return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)

        assign(base, self.visit(target.value))
        if isinstance(target, ast.Attribute):
            def ref(ctx):
                return ast.copy_location(
                    ast.Attribute(value=name(base), attr=target.attr,
                                  ctx=ctx), node)
        else:
            idx = '__sim_i%d__' % self.ntemps
            sl = target.slice
            if isinstance(sl, ast.Slice):
                parts = [p if p is not None else ast.Constant(value=None)
                         for p in (sl.lower, sl.upper, sl.step)]
                sl = ast.copy_location(ast.Call(
                    func=ast.Name(id='slice', ctx=ast.Load()),
                    args=parts, keywords=[]), node)
            assign(idx, self.visit(sl))

            def ref(ctx):
                return ast.copy_location(
                    ast.Subscript(value=name(base), slice=name(idx),
                                  ctx=ctx), node)
        old = self._v(ref(ast.Load()), 'r')
        value = ast.copy_location(ast.Call(
            func=ast.Attribute(
                value=ast.Name(id='__sim_op__', ctx=ast.Load()),
                attr=opname, ctx=ast.Load()),
            args=[old, self.visit(node.value)], keywords=[]), node)
        store = ast.Assign(targets=[ref(ast.Store())],
                           value=self._v(value, 'w'))
        out.append(ast.copy_location(store, node))
        return out

    # -- expressions
    def visit_Attribute(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            return self._v(node, 'a')
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            return self._v(node, 'i')
        return node

    def visit_Call(self, node):
        taken = (isinstance(node.func, ast.Attribute)
                 and node.func.attr.strip('_') in HANDOVER[::2])
        self.generic_visit(node)
        if self.depth:
            return self._v(node, 'c*' if taken and not self.shield else 'c')
        return node


def transform(source, path, module):
    tree = ast.parse(source, path)
    tree = _Transformer(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


def rewrite(cls, name):
    """Adds scheduling points to a method of a class outside the package."""
    f = cls.__dict__[name]
    if hasattr(f, 'rewritten'):
        return
    path = inspect.getsourcefile(f)
    tree = ast.parse(textwrap.dedent(inspect.getsource(f)), path)
    tree = _Transformer(cls.__module__).visit(tree)
    ast.fix_missing_locations(tree)
    ast.increment_lineno(tree, f.__code__.co_firstlineno - 1)
    space = f.__globals__
    space.update(__sim_y__=rt.y, __sim_v__=rt.v, __sim_op__=operator)
    made = {}
    exec(compile(tree, path, 'exec', dont_inherit=True), space, made)
    made[name].rewritten = True
    setattr(cls, name, made[name])


_CODE = {}


class _Loader(importlib.machinery.SourceFileLoader):
    instrumented = True

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        known = _CODE.get((fullname, self.instrumented))
        if known is None or known[0] != data:
            known = (data, self._code(fullname, path, data))
            _CODE[fullname, self.instrumented] = known
        return known[1]

    def _code(self, fullname, path, data):
        if not self.instrumented or fullname.endswith('._version'):
            return compile(data, path, 'exec', dont_inherit=True)
        try:
            return transform(data, path, fullname)
        except SyntaxError:
            raise
        except Exception:
            # Never let the instrumentation decide: run the file as it is.
            return compile(data, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__sim_y__'] = rt.y
        module.__dict__['__sim_v__'] = rt.v
        module.__dict__['__sim_op__'] = operator
        if self.instrumented:
            module.__dict__['id'] = alloc.sim_id
            module.__dict__['hash'] = alloc.sim_hash
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + '.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, base + '.py', loader=_Loader(fullname, base + '.py'))
        return None


_finder = _Finder()


def install(instrumented=True):
    _Loader.instrumented = instrumented
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


def purge():
    """Forget the package, as a new process would have."""
    for name in [m for m in sys.modules
                 if m == PKG or m.startswith(PKG + '.')]:
        del sys.modules[name]
    from . import sched
    for handlers in sched.AT_FORK.values():
        del handlers[:]
