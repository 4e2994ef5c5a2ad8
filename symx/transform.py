"""Source transformation: Python AST -> Python AST whose operations go through symx.hooks."""
import ast
import copy

SX = '_sx_'


def n(name):
    return ast.Name(id=name, ctx=ast.Load())


def sx(attr):
    return ast.Attribute(value=n(SX), attr=attr, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=sx(f), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


def lambda0(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def lambda1(arg, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=arg)], kwonlyargs=[], kw_defaults=[],
                                         defaults=[]), body=body)


class Scope(object):
    def __init__(self, kind, native, frame, names, parent):
        self.kind = kind          # 'func', 'lambda', 'comp'
        self.native = native      # native locals
        self.frame = frame
        self.names = names        # names kept in the frame
        self.native_names = set()
        self.parent = parent
        self.first = None


class Locals(ast.NodeVisitor):
    """names bound in one function body"""

    def __init__(self):
        self.bound = set()
        self.outer = set()      # nonlocal names
        self.declared = False
        self.unsupported = False
        self.yields = False

    def visit_FunctionDef(self, node):
        self.bound.add(node.name)
        for d in node.decorator_list + node.args.defaults + [x for x in node.args.kw_defaults if x]:
            self.visit(d)

    def visit_AsyncFunctionDef(self, node):
        self.unsupported = True

    def visit_ClassDef(self, node):
        self.bound.add(node.name)
        self.unsupported = True

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        # only walrus targets escape
        for x in ast.walk(node):
            if isinstance(x, (ast.NamedExpr, ast.Await)):
                self.unsupported = True
            if isinstance(x, ast.comprehension) and not simple_target(x.target):
                self.unsupported = True

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.bound.add(node.id)

    def visit_ExceptHandler(self, node):
        if node.name:
            self.bound.add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.bound.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, node):
        for a in node.names:
            self.bound.add(a.asname or a.name)

    def visit_Global(self, node):
        self.declared = True

    def visit_Nonlocal(self, node):
        self.outer.update(node.names)

    def visit_Match(self, node):
        self.unsupported = True
        self.generic_visit(node)

    def visit_Yield(self, node):
        self.yields = True
        self.generic_visit(node)

    visit_YieldFrom = visit_Yield

    def visit_Await(self, node):
        self.unsupported = True


def simple_target(t):
    if isinstance(t, ast.Name):
        return True
    if isinstance(t, (ast.Tuple, ast.List)):
        return all(simple_target(e) for e in t.elts)
    return False


def target_names(t):
    if isinstance(t, ast.Name):
        return {t.id}
    out = set()
    for e in t.elts:
        out |= target_names(e)
    return out


def target_const(t):
    if isinstance(t, ast.Name):
        return const(t.id)
    return ast.Tuple(elts=[target_const(e) for e in t.elts], ctx=ast.Load())


def escapes(stmts):
    """Do the statements contain return, break or continue that leave them?"""
    for s in stmts:
        for x in walk_flow(s):
            if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                return True
    return False


def walk_flow(node):
    yield node
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
        return
    for c in ast.iter_child_nodes(node):
        if isinstance(c, ast.expr):
            continue
        for x in walk_flow(c):
            yield x


CMPOPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Is: 'is_',
          ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod',
          ast.Pow: 'pow', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitAnd: 'and', ast.BitOr: 'or',
          ast.BitXor: 'xor'}


class Transformer(object):
    def __init__(self):
        self.counter = 0
        self.scope = None
        self.classes = []

    def fresh(self, prefix):
        self.counter += 1
        return '_%s%d_' % (prefix, self.counter)

    def mangle(self, name):
        if self.classes and name.startswith('__') and not name.endswith('__'):
            c = self.classes[-1].lstrip('_')
            if c:
                return '_%s%s' % (c, name)
        return name

    # -- modules and classes --------------------------------------------------------------------------------------------
    def module(self, tree):
        out = []
        for s in tree.body:
            out.append(self.top(s))
        tree.body = out
        ast.fix_missing_locations(tree)
        return tree

    def top(self, s):
        if isinstance(s, ast.FunctionDef):
            return self.funcdef(s)
        if isinstance(s, ast.AsyncFunctionDef):
            return s
        if isinstance(s, ast.ClassDef):
            return self.classdef(s)
        # other statements run natively; function definitions and lambdas inside are transformed
        return TopLevel(self).visit(s)

    def classdef(self, s):
        self.classes.append(s.name)
        saved = self.scope
        s.body = [self.top(x) for x in s.body]
        self.scope = saved
        self.classes.pop()
        return s

    # -- functions ------------------------------------------------------------------------------------------------------
    def funcdef(self, node):
        saved = copy.deepcopy(node)
        state = (self.scope, getattr(self, 'in_native', False), getattr(self, 'depth', 0), list(self.classes))
        try:
            return self.funcdef_(node)
        except SyntaxError as e:
            # the function can be defined, but calls of it cannot be encoded
            self.scope, self.in_native, self.depth, self.classes = state
            saved.body = [ast.Expr(value=call('no_encoding', const('%s: %s' % (saved.name, e))))]
            t = TopLevel(self)
            saved.args.defaults = [t.visit(d) for d in saved.args.defaults]
            for a in saved.args.posonlyargs + saved.args.args + saved.args.kwonlyargs + [
                    x for x in (saved.args.vararg, saved.args.kwarg) if x]:
                a.annotation = None
            saved.returns = None
            return saved

    def funcdef_(self, node):
        parent = self.scope
        loc = Locals()
        for s in node.body:
            loc.visit(s)
        loc.bound -= loc.outer
        args = node.args
        params = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
        if args.vararg:
            params.append(args.vararg.arg)
        if args.kwarg:
            params.append(args.kwarg.arg)
        native = loc.declared or loc.unsupported or loc.yields
        # defaults and decorators belong to the enclosing scope
        if parent is not None:
            args.defaults = [self.expr(d) for d in args.defaults]
            args.kw_defaults = [self.expr(d) if d is not None else None for d in args.kw_defaults]
            node.decorator_list = [self.expr(d) for d in node.decorator_list]
        else:
            t = TopLevel(self)
            args.defaults = [t.visit(d) for d in args.defaults]
            args.kw_defaults = [t.visit(d) if d is not None else None for d in args.kw_defaults]
        for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
            a.annotation = None
        node.returns = None
        frame = self.fresh('f')
        framed = set() if native else set(loc.bound)
        sc = Scope('func', native, frame, framed, parent)
        sc.native_names = (set(params) | loc.bound) if native else set(params) - loc.bound
        sc.first = params[0] if params else None
        self.scope = sc
        saved_native = getattr(self, 'in_native', False)
        self.in_native = native
        self.depth = getattr(self, 'depth', 0)
        saved_depth, self.depth = self.depth, 0
        body = node.body
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
                isinstance(body[0].value.value, str):
            doc = [body[0]]
            body = body[1:]
        new = []
        if not native:
            new.append(ast.Assign(targets=[ast.Name(id=frame, ctx=ast.Store())],
                                  value=ast.Call(func=sx('Frame'), args=[], keywords=[
                                      ast.keyword(arg=p, value=n(p)) for p in params if p in framed])))
        new.extend(self.stmts(body))
        node.body = doc + new if doc + new else [ast.Pass()]
        self.scope = parent
        self.depth = saved_depth
        self.in_native = saved_native
        node.decorator_list = list(node.decorator_list) + [sx('gen' if loc.yields else 'fn')]
        return node

    # -- statements -----------------------------------------------------------------------------------------------------
    def stmts(self, body):
        out = []
        for s in body:
            r = self.stmt(s)
            for x in r:
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, s)
                    for c in ast.walk(x):
                        if not hasattr(c, 'lineno') and isinstance(c, (ast.expr, ast.stmt, ast.excepthandler, ast.arg,
                                                                       ast.keyword)):
                            ast.copy_location(c, s)
            out.extend(r)
        return out or [ast.Pass()]

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise SyntaxError('symx: statement %s' % type(s).__name__)
        return m(s)

    def s_Pass(self, s):
        return [s]

    def s_Global(self, s):
        return [s]

    def s_Nonlocal(self, s):
        # those kept in a frame are items of it
        names = []
        for name in s.names:
            sc = self.find(name)
            if sc is None or name not in sc.names:
                names.append(name)
        return [ast.Nonlocal(names=names)] if names else [ast.Pass()]

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return [s]
        return [ast.Expr(value=self.expr(s.value))]

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else const(None)
        if self.depth:
            v = call('Ret', v)
        return [ast.Return(value=v)]

    def s_Break(self, s):
        if self.in_native:
            return [s]
        return [ast.Return(value=sx('BRK'))]

    def s_Continue(self, s):
        if self.in_native:
            return [s]
        return [ast.Return(value=sx('CONT'))]

    def s_Raise(self, s):
        if s.exc is not None:
            s.exc = call('raise_', self.expr(s.exc))
        if s.cause is not None:
            s.cause = self.expr(s.cause)
        return [s]

    def s_Assert(self, s):
        exc = ast.Call(func=n('AssertionError'), args=[self.expr(s.msg)] if s.msg is not None else [], keywords=[])
        return [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=call('truth', self.expr(s.test))),
                       body=[ast.Raise(exc=exc, cause=None)], orelse=[])]

    def s_Delete(self, s):
        out = []
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc = self.find(t.id)
                if sc is not None and t.id in sc.names:
                    out.append(ast.Delete(targets=[ast.Subscript(value=n(sc.frame), slice=const(t.id), ctx=ast.Del())]))
                else:
                    out.append(ast.Delete(targets=[t]))
            elif isinstance(t, ast.Attribute):
                out.append(ast.Expr(value=call('delattr_', self.expr(t.value), const(self.mangle(t.attr)))))
            elif isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=call('delitem', self.expr(t.value), self.slice(t.slice))))
            else:
                out.extend(self.s_Delete(ast.Delete(targets=t.elts)))
        return out

    def s_Assign(self, s):
        v = self.expr(s.value)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            return self.assign(s.targets[0], v)
        tmp = self.fresh('t')
        out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=v)]
        for t in s.targets:
            out.extend(self.assign(t, n(tmp)))
        return out

    def s_AnnAssign(self, s):
        if s.value is None:
            return [ast.Pass()]
        return self.s_Assign(ast.Assign(targets=[s.target], value=s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            sc = self.find(t.id)
            if sc is not None and t.id in sc.names:
                return [ast.Assign(targets=[ast.Subscript(value=n(sc.frame), slice=const(t.id), ctx=ast.Store())],
                                   value=v)]
            return [ast.Assign(targets=[ast.Name(id=t.id, ctx=ast.Store())], value=v)]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(value=call('setattr_', self.expr(t.value), const(self.mangle(t.attr)), v))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(value=call('setitem', self.expr(t.value), self.slice(t.slice), v))]
        if isinstance(t, (ast.Tuple, ast.List)):
            tmp = self.fresh('u')
            star = None
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    star = i
            args = [v, const(len(t.elts))]
            if star is not None:
                args.append(const(star))
            out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=call('unpack', *args))]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                out.extend(self.assign(e, ast.Subscript(value=n(tmp), slice=const(i), ctx=ast.Load())))
            return out
        raise SyntaxError('symx: target %s' % type(t).__name__)

    def s_AugAssign(self, s):
        op = const(BINOPS[type(s.op)])
        t = s.target
        if isinstance(t, ast.Name):
            return self.assign(t, call('iop', op, self.expr(ast.Name(id=t.id, ctx=ast.Load())), self.expr(s.value)))
        v = lambda0(self.expr(s.value))
        if isinstance(t, ast.Attribute):
            return [ast.Expr(value=call('iop_attr', self.expr(t.value), const(self.mangle(t.attr)), op, v))]
        return [ast.Expr(value=call('iop_item', self.expr(t.value), self.slice(t.slice), op, v))]

    def closure(self, prefix, body, arg=None, prologue=()):
        """def of a nested function running the statements; returns (def, name)"""
        name = self.fresh(prefix)
        self.depth += 1
        stmts = list(prologue) + self.stmts(body)
        self.depth -= 1
        f = ast.FunctionDef(name=name, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=arg)] if arg else [], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=stmts, decorator_list=[], returns=None, type_params=[])
        return f, name

    def propagate(self, callnode, bodies):
        if not any(escapes(b) for b in bodies):
            return [ast.Expr(value=callnode)]
        r = self.fresh('r')
        ret = n(r) if self.depth else ast.Attribute(value=n(r), attr='v', ctx=ast.Load())
        return [
            ast.Assign(targets=[ast.Name(id=r, ctx=ast.Store())], value=callnode),
            ast.If(test=ast.Compare(left=n(r), ops=[ast.IsNot()], comparators=[const(None)]),
                   body=[ast.Return(value=ret)], orelse=[]),
        ]

    def s_If(self, s):
        if self.in_native:
            return [ast.If(test=call('truth', self.expr(s.test)), body=self.stmts(s.body),
                           orelse=self.stmts(s.orelse) if s.orelse else [])]
        test = self.expr(s.test)
        a, an = self.closure('b', s.body)
        out = [a]
        els = const(None)
        if s.orelse:
            b, bn = self.closure('b', s.orelse)
            out.append(b)
            els = n(bn)
        return out + self.propagate(call('if_', test, n(an), els), [s.body, s.orelse])

    def s_For(self, s):
        if self.in_native:
            tmp = self.fresh('v')
            return [ast.For(target=ast.Name(id=tmp, ctx=ast.Store()), iter=call('plain_iter', self.expr(s.iter)),
                            body=self.assign(s.target, n(tmp)) + self.stmts(s.body),
                            orelse=self.stmts(s.orelse) if s.orelse else [])]
        it = self.expr(s.iter)
        v = self.fresh('v')
        self.depth += 1
        pro = self.assign(s.target, n(v))
        self.depth -= 1
        a, an = self.closure('b', s.body, v, pro)
        out = [a]
        els = const(None)
        if s.orelse:
            b, bn = self.closure('b', s.orelse)
            out.append(b)
            els = n(bn)
        return out + self.propagate(call('for_', it, n(an), els), [s.body, s.orelse])

    def s_While(self, s):
        if self.in_native:
            return [ast.While(test=call('truth', self.expr(s.test)), body=self.stmts(s.body),
                              orelse=self.stmts(s.orelse) if s.orelse else [])]
        test = lambda0(self.expr(s.test))
        a, an = self.closure('b', s.body)
        out = [a]
        els = const(None)
        if s.orelse:
            b, bn = self.closure('b', s.orelse)
            out.append(b)
            els = n(bn)
        return out + self.propagate(call('while_', test, n(an), els), [s.body, s.orelse])

    def s_Try(self, s):
        body = self.stmts(s.body)
        handlers = []
        if s.handlers:
            handlers.append(ast.ExceptHandler(type=sx('STOP'), name=None, body=[ast.Raise(exc=None, cause=None)]))
        for h in s.handlers:
            t = self.expr(h.type) if h.type is not None else None
            hb = []
            name = None
            if h.name:
                name = self.fresh('e')
                hb = self.assign(ast.Name(id=h.name, ctx=ast.Store()), n(name))
            handlers.append(ast.ExceptHandler(type=t, name=name, body=hb + self.stmts(h.body)))
        orelse = self.stmts(s.orelse) if s.orelse else []
        final = []
        if s.finalbody:
            final = [ast.If(test=call('live'), body=self.stmts(s.finalbody), orelse=[])]
        return [ast.Try(body=body, handlers=handlers, orelse=orelse, finalbody=final)]

    def s_With(self, s):
        items = []
        pro = []
        for i in s.items:
            v = None
            if i.optional_vars is not None:
                tmp = self.fresh('w')
                v = ast.Name(id=tmp, ctx=ast.Store())
            items.append((ast.withitem(context_expr=call('ctx', self.expr(i.context_expr)), optional_vars=v),
                          self.assign(i.optional_vars, n(tmp)) if v is not None else []))
        body = self.stmts(s.body)
        for w, p in reversed(items):
            body = [ast.With(items=[w], body=p + body)]
        return body

    def s_FunctionDef(self, s):
        name = s.name
        f = self.funcdef(s)
        out = [f]
        sc = self.scope
        if sc is not None and name in sc.names:
            out.append(ast.Assign(targets=[ast.Subscript(value=n(sc.frame), slice=const(name), ctx=ast.Store())],
                                  value=n(name)))
        return out

    def s_AsyncFunctionDef(self, s):
        return [s]

    def s_ClassDef(self, s):
        return [self.classdef(s)]

    def s_Import(self, s):
        out = [s]
        for a in s.names:
            name = a.asname or a.name.split('.')[0]
            if name in self.scope.names:
                out.append(ast.Assign(targets=[ast.Subscript(value=n(self.scope.frame), slice=const(name),
                                                             ctx=ast.Store())], value=n(name)))
        return out

    def s_ImportFrom(self, s):
        out = [s]
        for a in s.names:
            name = a.asname or a.name
            if name in self.scope.names:
                out.append(ast.Assign(targets=[ast.Subscript(value=n(self.scope.frame), slice=const(name),
                                                             ctx=ast.Store())], value=n(name)))
        return out

    # -- expressions ----------------------------------------------------------------------------------------------------
    def find(self, name):
        sc = self.scope
        while sc is not None:
            if name in sc.names or name in sc.native_names:
                return sc
            sc = sc.parent
        return None

    def expr(self, e):
        if e is None:
            return None
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            r = m(e)
        else:
            for f, v in ast.iter_fields(e):
                if isinstance(v, ast.expr):
                    setattr(e, f, self.expr(v))
                elif isinstance(v, list):
                    setattr(e, f, [self.expr(x) if isinstance(x, ast.expr) else x for x in v])
            r = e
        if not hasattr(r, 'lineno'):
            ast.copy_location(r, e)
        return r

    def e_Constant(self, e):
        return e

    def e_Name(self, e):
        sc = self.find(e.id)
        if sc is not None and e.id in sc.names:
            return ast.Subscript(value=n(sc.frame), slice=const(e.id), ctx=ast.Load())
        return e

    def e_Attribute(self, e):
        e.value = self.expr(e.value)
        return e

    def slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=sx('slice_'), args=[self.expr(x) if x is not None else const(None)
                                                     for x in (s.lower, s.upper, s.step)], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self.slice(x) for x in s.elts], ctx=ast.Load())
        return self.expr(s)

    def e_Subscript(self, e):
        return call('getitem', self.expr(e.value), self.slice(e.slice))

    def e_Starred(self, e):
        return ast.Starred(value=call('plain_elems', self.expr(e.value)), ctx=ast.Load())

    def e_BinOp(self, e):
        a, b = self.expr(e.left), self.expr(e.right)
        if isinstance(e.op, ast.Mod):
            return call('mod', a, b)
        if isinstance(e.op, ast.Add):
            return call('add', a, b)
        if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            return call('setop', ast.Constant(BINOPS[type(e.op)]), a, b)
        return ast.BinOp(left=a, op=e.op, right=b)

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        if isinstance(e.op, ast.Not):
            return call('not_', v)
        return ast.UnaryOp(op=e.op, operand=v)

    def e_BoolOp(self, e):
        return call('and_' if isinstance(e.op, ast.And) else 'or_', *[lambda0(self.expr(v)) for v in e.values])

    def e_IfExp(self, e):
        return call('ifexp', self.expr(e.test), lambda0(self.expr(e.body)), lambda0(self.expr(e.orelse)))

    def e_Compare(self, e):
        a = self.expr(e.left)
        names = {'is_': 'is'}
        if len(e.ops) == 1:
            op = CMPOPS[type(e.ops[0])]
            b = self.expr(e.comparators[0])
            if op in ('eq', 'ne', 'is_', 'isnot'):
                return call(op, a, b)
            return call('cmp', a, const(op), b)
        args = [a]
        for o, c in zip(e.ops, e.comparators):
            op = CMPOPS[type(o)]
            args += [const(names.get(op, op)), lambda0(self.expr(c))]
        return call('cmps', *args)

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and not e.keywords and self.classes:
            sc = self.scope
            while sc is not None and sc.kind != 'func':
                sc = sc.parent
            while sc is not None and sc.parent is not None and sc.parent.kind == 'func' and sc.first is None:
                sc = sc.parent
            return ast.Call(func=n('super'), args=[n('__class__'), self.expr(n(sc.first))], keywords=[])
        if isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals', 'globals', 'vars'):
            e.args = [self.expr(a) for a in e.args]
            return e
        f = self.expr(e.func)
        args = [self.expr(a) for a in e.args]
        kws = [ast.keyword(arg=k.arg, value=self.expr(k.value) if k.arg else call('kwargs', self.expr(k.value)))
               for k in e.keywords]
        return ast.Call(func=sx('call'), args=[f] + args, keywords=kws)

    def e_Lambda(self, e):
        args = e.args
        params = [a.arg for a in args.posonlyargs + args.args + args.kwonlyargs]
        if args.vararg:
            params.append(args.vararg.arg)
        if args.kwarg:
            params.append(args.kwarg.arg)
        if self.scope is not None:
            args.defaults = [self.expr(d) for d in args.defaults]
            args.kw_defaults = [self.expr(d) if d is not None else None for d in args.kw_defaults]
        sc = Scope('lambda', True, None, set(), self.scope)
        sc.native_names = set(params)
        self.scope = sc
        e.body = self.expr(e.body)
        self.scope = sc.parent
        return call('lam', e)

    def comp(self, kind, e, elts):
        frame = self.fresh('c')
        outer = self.scope
        sc = Scope('comp', False, frame, set(), outer)
        gens = []
        for i, g in enumerate(e.generators):
            it = self.expr(g.iter) if i else None
            if i == 0:
                self.scope = outer
                it = self.expr(g.iter)
                self.scope = sc
            sc.names = sc.names | target_names(g.target)
            v = self.fresh('v')
            binder = lambda1(v, call('bind', n(frame), target_const(g.target), n(v)))
            conds = [lambda0(self.expr(c)) for c in g.ifs]
            gens.append(ast.Tuple(elts=[lambda0(it), binder, ast.List(elts=conds, ctx=ast.Load())], ctx=ast.Load()))
        vals = [self.expr(x) for x in elts]
        elt = vals[0] if len(vals) == 1 else ast.Tuple(elts=vals, ctx=ast.Load())
        self.scope = outer
        body = call('comp', const(kind), ast.List(elts=gens, ctx=ast.Load()), lambda0(elt))
        return ast.Call(func=lambda1(frame, body), args=[call('Frame')], keywords=[])

    def e_ListComp(self, e):
        return self.comp('list', e, [e.elt])

    def e_SetComp(self, e):
        return self.comp('set', e, [e.elt])

    def e_GeneratorExp(self, e):
        return self.comp('gen', e, [e.elt])

    def e_DictComp(self, e):
        return self.comp('dict', e, [e.key, e.value])

    def e_Dict(self, e):
        if all(isinstance(k, ast.Constant) for k in e.keys):
            e.values = [self.expr(v) for v in e.values]
            return e
        items = []
        for k, v in zip(e.keys, e.values):
            items.append(ast.Tuple(elts=[self.expr(k) if k is not None else sx('UNBOUND'), self.expr(v)], ctx=ast.Load()))
        return call('mkdict', *items)

    def e_Set(self, e):
        if all(isinstance(k, ast.Constant) for k in e.elts):
            return e
        return call('mkset', *[self.expr(v) for v in e.elts])

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.expr(v.format_spec) if v.format_spec is not None else const('')
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                parts.append(ast.Tuple(elts=[self.expr(v.value), spec, const(conv)], ctx=ast.Load()))
        return call('fstr', *parts)

    def e_NamedExpr(self, e):
        sc = self.find(e.target.id)
        v = self.expr(e.value)
        if sc is not None and e.target.id in sc.names:
            return call('walrus', n(sc.frame), const(e.target.id), v)
        if self.scope is not None:
            raise SyntaxError('symx: assignment expression in a native scope')
        return ast.NamedExpr(target=e.target, value=v)


class TopLevel(ast.NodeTransformer):
    def __init__(self, t):
        self.t = t

    def visit_FunctionDef(self, node):
        return self.t.funcdef(node)

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_ClassDef(self, node):
        return self.t.classdef(node)

    def visit_Lambda(self, node):
        return self.t.e_Lambda(node)


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = Transformer().module(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
