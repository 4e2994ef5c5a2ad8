"""Runtime called by the transformed code (known there as __sx)."""
import builtins
import collections
import decimal
import enum
import functools
import operator
import sys
import types

import z3

from symx import engine as _engine
from symx import values as V
from symx.engine import ENG, FALSE, TRUE, Abort, Control, Infeasible, z_and, z_not, z_or
from symx.merge import BRK, CONT, UNBOUND, Frame, Opt, Ret, merge
from symx.values import Sym, SymBool, SymUnion, boolcond, force, lift, mkbool, truth_cond

MAX_ITER = 20000

__all__ = []


def _plain(x):
    return not isinstance_sym(x)


def isinstance_sym(x):
    return issubclass(type(x), Sym)


# -- functions ---------------------------------------------------------------------------------------------------------

def fn(f, name=None):
    name = name or '%s.%s' % (f.__module__, f.__qualname__)
    name = name.replace('.<locals>', '')

    @functools.wraps(f)
    def w(*a, **k):
        if not ENG.regions:
            return f(*a, **k)
        ENG.functions[name] = ENG.functions.get(name, 0) + 1
        for x in a:
            if type(x) is SymUnion:
                break
        return ENG.region(lambda: Ret(f(*a, **k)), name).v
    w.__sx_fn__ = True
    return w


def gen(f):
    """generator functions run natively"""
    name = '%s.%s' % (f.__module__, f.__qualname__)

    @functools.wraps(f)
    def w(*a, **k):
        if ENG.regions:
            ENG.functions[name] = ENG.functions.get(name, 0) + 1
        return Generator(f(*a, **k))
    w.__sx_fn__ = True
    return w


class Generator(object):
    """A native generator.  Its state is not part of what regions save and restore: it can only be advanced in the
    region that made it, or in one around that."""

    def __init__(self, g):
        self.g = g
        self.regions = tuple(ENG.regions)

    def here(self):
        if ENG.regions and ENG.regions[-1] not in self.regions:
            V.unsupported('a generator that is advanced in a branch')
        return self.g

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.here())

    def send(self, x):
        return self.here().send(x)

    def throw(self, *a):
        return self.here().throw(*a)

    def close(self):
        return self.g.close()


def lam(f):
    @functools.wraps(f)
    def w(*a, **k):
        if not ENG.regions:
            return f(*a, **k)
        return ENG.region(lambda: Ret(f(*a, **k)), 'lambda').v
    w.__sx_fn__ = True
    return w


def live():
    """False while an engine exception unwinds the stack: user code must not run then"""
    t = sys.exc_info()[0]
    return not (t is not None and issubclass(t, Control))


class Ctx(object):
    def __init__(self, cm):
        self.cm = force(cm) if type(cm) is SymUnion else cm

    def __enter__(self):
        self.exit = type(self.cm).__exit__
        return type(self.cm).__enter__(self.cm)

    def __exit__(self, t, v, tb):
        if t is not None and issubclass(t, Control):
            # let a generator based manager close without running its code
            return False
        return self.exit(self.cm, t, v, tb)


def ctx(cm):
    return Ctx(cm)


# -- control flow ------------------------------------------------------------------------------------------------------

def cond(x):
    """bool or SymBool for the truth of x, without forking"""
    if x is True or x is False:
        return x
    t = type(x)
    if t is SymBool:
        return mkbool(x.z)
    if issubclass(t, Sym):
        if t is SymUnion:
            return union_truth(x)
        return mkbool(truth_cond(x))
    if t in (list, dict) or isinstance(x, (list, dict, collections.deque)):
        if has_opt(x):
            return mkbool(truth_cond(x))
        if isinstance(x, dict) and type(x).__len__ is dict.__len__ or isinstance(x, list):
            return len(x) > 0
    b = getattr(t, '__bool__', None)
    if b is not None and getattr(b, '__sx_fn__', False):
        return cond(b(x))
    ln = getattr(t, '__len__', None)
    if ln is not None and getattr(ln, '__sx_fn__', False):
        return cond(ln(x))
    return bool(x)


def union_truth(u):
    cs = []
    for c, v in u.alts:
        if v is UNBOUND:
            return cond(force(u))
        t = cond(v)
        if t is True:
            cs.append(c)
        elif t is not False:
            cs.append(z_and(c, boolcond(t)))
    return mkbool(z_or(*cs))


def truth(x):
    c = cond(x)
    if c is True or c is False:
        return c
    return ENG.branch(c.z)


def if_(c, a, b):
    c = cond(c)
    if c is True:
        return a()
    if c is False:
        return b() if b is not None else None
    # Avoid a region if only one side is feasible
    if not ENG.regions:
        return a() if bool(c) else (b() if b is not None else None)
    if not ENG.feasible(c.z):
        return b() if b is not None else None
    if not ENG.feasible(z_not(c.z)):
        return a()

    def run():
        if ENG.branch(c.z):
            return a()
        return b() if b is not None else None
    return ENG.region(run, 'if')


def loop_end(r):
    """The end of a loop body, however it was reached"""
    return None if r is CONT else r


def for_(it, body, els):
    n = 0
    for x in iter_(it):
        n += 1
        if n > MAX_ITER:
            ENG.note_incomplete('loop bound %d' % MAX_ITER)
            raise Abort('loop bound')
        if not ENG.regions:
            r = body(x.v if type(x) is Opt else x)
        elif type(x) is Opt:
            def run(x=x):
                if ENG.branch(x.cond):
                    return loop_end(body(x.v))
                return None
            r = ENG.region(run, 'for')
        else:
            r = ENG.region(lambda: loop_end(body(x)), 'for')
        if r is None or r is CONT:
            continue
        if r is BRK:
            return None
        return r
    if els is not None:
        return els()
    return None


def while_(c, body, els):
    n = 0
    while truth(c()):
        n += 1
        if n > MAX_ITER:
            ENG.note_incomplete('loop bound %d' % MAX_ITER)
            raise Abort('loop bound')
        r = ENG.region(lambda: loop_end(body()), 'while') if ENG.regions else body()
        if r is None or r is CONT:
            continue
        if r is BRK:
            return None
        return r
    if els is not None:
        return els()
    return None


# -- expressions -------------------------------------------------------------------------------------------------------

def not_(x):
    c = cond(x)
    if c is True or c is False:
        return not c
    return V.not_(c)


def and_(*fs):
    x = fs[0]()
    for i in range(1, len(fs)):
        c = cond(x)
        if c is False:
            return x
        if c is True:
            x = fs[i]()
            continue
        rest = fs[i:]
        if not ENG.regions:
            if not bool(c):
                return x
            x = fs[i]()
            continue
        x0 = x

        def run():
            if ENG.branch(c.z):
                return Ret(and_(*rest))
            return Ret(refine_falsy(x0))
        return ENG.region(run, 'and').v
    return x


def refine_falsy(x):
    """x known to be false on this path"""
    t = type(x)
    if t is SymBool:
        return False
    if t is V.SymInt:
        return 0
    if t is SymUnion:
        alts = []
        for c, v in x.alts:
            if v is UNBOUND:
                return x
            tc = cond(v)
            if tc is True:
                continue
            alts.append((z_and(c, TRUE if tc is False else z_not(boolcond(tc))), refine_falsy(v)))
        return merge(alts) if alts else x
    return x


def refine_truthy(x):
    t = type(x)
    if t is SymBool:
        return True
    if t is SymUnion:
        alts = []
        for c, v in x.alts:
            if v is UNBOUND:
                return x
            tc = cond(v)
            if tc is False:
                continue
            alts.append((c if tc is True else z_and(c, boolcond(tc)), refine_truthy(v)))
        return merge(alts) if alts else x
    return x


def or_(*fs):
    x = fs[0]()
    for i in range(1, len(fs)):
        c = cond(x)
        if c is True:
            return x
        if c is False:
            x = fs[i]()
            continue
        rest = fs[i:]
        if not ENG.regions:
            if bool(c):
                return x
            x = fs[i]()
            continue
        x0 = x

        def run():
            if ENG.branch(c.z):
                return Ret(refine_truthy(x0))
            return Ret(or_(*rest))
        return ENG.region(run, 'or').v
    return x


def ifexp(c, a, b):
    c = cond(c)
    if c is True:
        return a()
    if c is False:
        return b()
    if not ENG.regions:
        return a() if bool(c) else b()
    return ENG.region(lambda: Ret(a() if ENG.branch(c.z) else b()), 'ifexp').v


def is_(a, b):
    if type(a) is SymUnion or type(b) is SymUnion:
        if type(a) is not SymUnion:
            a, b = b, a
        return mkbool(z_or(*[z_and(c, boolcond(is_(v, b))) for c, v in a.alts]))
    if type(a) is SymBool and (b is True or b is False):
        return mkbool(a.z if b else z_not(a.z))
    if type(b) is SymBool and (a is True or a is False):
        return is_(b, a)
    return a is b


def isnot(a, b):
    return V.not_(is_(a, b))


def eq(a, b):
    if type(a) is SymUnion or type(b) is SymUnion:
        return V.eq(a, b)
    ta, tb = type(a), type(b)
    if not (issubclass(ta, Sym) or issubclass(tb, Sym)):
        if ta in (tuple, list) or isinstance(a, dict):
            return deep_eq(a, b)
        return a == b
    r = (a == b)
    return r


def deep_eq(a, b):
    ta = type(a)
    if type(b) is SymUnion:
        return V.eq(a, b)
    if isinstance(a, (tuple, list)):
        if isinstance(a, list) and not isinstance(b, list) or isinstance(a, tuple) and not isinstance(b, tuple):
            return False
        if isinstance(a, list):
            resolve_opts(a)
            resolve_opts(b)
        if len(a) != len(b):
            return False
        return mkbool(z_and(*[boolcond(cond(eq(x, y))) for x, y in zip(a, b)]))
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return False
        resolve_opts(a)
        resolve_opts(b)
        if has_sym_keys(a) or has_sym_keys(b):
            if len(a) != len(b):
                return False
            return mkbool(z_and(*[boolcond(cond(and_(lambda: contains(b, unkey(k)), lambda: eq(v, dict_get(b, unkey(k))))))
                                  for k, v in dict.items(a)]))
        if set(dict.keys(a)) != set(dict.keys(b)):
            return False
        return mkbool(z_and(*[boolcond(cond(eq(dict.__getitem__(a, k), dict.__getitem__(b, k)))) for k in dict.keys(a)]))
    return a == b


def ne(a, b):
    if type(a) is SymUnion or type(b) is SymUnion:
        return V.not_(V.eq(a, b))
    if isinstance_sym(a) or isinstance_sym(b):
        return a != b
    if isinstance(a, (tuple, list, dict)):
        return V.not_(deep_eq(a, b))
    return a != b


def _ord(op):
    f = getattr(operator, op)

    def g(a, b):
        if type(a) in (tuple, list) and type(b) is type(a) and (V.deep_sym(a) or V.deep_sym(b)):
            # lexicographic
            strictly = g if op in ('lt', 'gt') else _CMP['lt' if op == 'le' else 'gt']
            conds = []
            last = None
            for x, y in zip(a, b):
                e = eq(x, y)
                if type(e) is not bool and (type(x) is SymUnion or type(y) is SymUnion):
                    # what is equal is not compared: it may have no order
                    e = truth(e)
                if e is True:
                    continue
                if e is False:
                    last = strictly(x, y)
                    break
                conds.append((boolcond(cond(e)), strictly(x, y)))
            res = f(len(a), len(b)) if last is None else last
            for e, strict in reversed(conds):
                res = mkbool(z_or(boolcond(cond(strict)), z_and(e, boolcond(cond(res)))))
            return res
        if isinstance(a, decimal.Decimal) and not isinstance_sym(a) and isinstance_sym(b):
            # Decimal takes what looks like an int for a Rational
            return mirror(b, a)
        return f(a, b)
    mirror = getattr(operator, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[op])
    return g


_CMP = {'eq': eq, 'ne': ne, 'lt': _ord('lt'), 'le': _ord('le'), 'gt': _ord('gt'), 'ge': _ord('ge'), 'is': is_,
        'isnot': isnot, 'in': lambda a, b: contains(b, a), 'notin': lambda a, b: not_(contains(b, a))}


def cmp(a, op, b):
    return _CMP[op](a, b)


def cmps(a, *rest):
    """chained comparison: op, lambda: operand, ..."""
    ops = rest[0::2]
    fs = rest[1::2]

    def step(a, i):
        b = fs[i]()
        r = _CMP[ops[i]](a, b)
        if i + 1 == len(ops):
            return r
        return and_(lambda: r, lambda: step(b, i + 1))
    return step(a, 0)


def has_opt(x):
    if isinstance(x, dict):
        return any(type(v) is Opt for v in dict.values(x))
    if isinstance(x, (list, collections.deque)):
        return any(type(v) is Opt for v in x)
    return False


def resolve_opts(x):
    """Forks until every element is either there or not."""
    if isinstance(x, dict):
        if has_opt(x):
            ENG.touch(x)
            for k, v in list(dict.items(x)):
                if type(v) is Opt:
                    if ENG.branch(v.cond):
                        dict.__setitem__(x, k, v.v)
                    else:
                        dict.__delitem__(x, k)
    elif isinstance(x, (list, collections.deque)):
        if has_opt(x):
            ENG.touch(x)
            new = []
            for v in x:
                if type(v) is Opt:
                    if ENG.branch(v.cond):
                        new.append(v.v)
                else:
                    new.append(v)
            if isinstance(x, list):
                x[:] = new
            else:
                x.clear()
                x.extend(new)
    return x


def contains(c, x):
    if type(c) is OptSet:
        c = c.d
    if type(c) is SymUnion:
        return lift(lambda o: contains(o, x), c)
    if type(x) is SymUnion and not isinstance(c, dict):
        return mkbool(z_or(*[z_and(k, boolcond(cond(contains(c, v)))) for k, v in x.alts]))
    if isinstance(c, dict):
        f = type(c).__contains__
        if getattr(f, '__sx_fn__', False):
            return cond(f(c, x))
        if isinstance_sym(x):
            return mkbool(z_or(*[z_and(boolcond(cond(eq(x, unkey(k)))), v.cond if type(v) is Opt else TRUE)
                                 for k, v in dict.items(c)]))
        if V.deep_sym(x) or has_sym_keys(c):
            return mkbool(z_or(*[z_and(boolcond(cond(eq(x, unkey(k)))), v.cond if type(v) is Opt else TRUE)
                                 for k, v in dict.items(c)]))
        if dict.__contains__(c, x):
            v = dict.__getitem__(c, x)
            if type(v) is Opt:
                return mkbool(v.cond)
            return True
        return False
    if isinstance(c, (list, tuple, set, frozenset, collections.deque, range)) and not isinstance_sym(c):
        if type(c) is SSet:
            c = c.elements()
        if isinstance(c, range) and type(x) is V.SymInt:
            if c.step == 1:
                return mkbool(z_and(boolcond(x >= c.start), boolcond(x < c.stop)))
        if V.deep_sym(x) or any(V.deep_sym(y) or type(y) is Opt for y in c):
            cs = []
            for y in c:
                if type(y) is Opt:
                    cs.append(z_and(y.cond, boolcond(cond(eq(x, y.v)))))
                else:
                    cs.append(boolcond(cond(eq(x, y))))
            return mkbool(z_or(*cs))
        return x in c
    if isinstance(c, str) and (type(x) is V.SymStr or type(c) is V.SymStr):
        a, b = V.SymStr.of(c), V.SymStr.of(x)
        nc = b.need_chars()
        hc = a.atoms() if all(type(p) is int and chr(p) not in V.NUMERIC for p in nc) else None
        if hc is None:
            hc = a.need_chars()
        hc = [None if type(p) is tuple else p for p in hc]
        cs = []
        for i in range(len(hc) - len(nc) + 1):
            cs.append(z_and(*[V.FALSE if p is None else boolcond(V.eq(p, q)) for p, q in zip(hc[i:], nc)]))
        return mkbool(z_or(*cs))
    if isinstance(c, bytes) and (type(c) is V.SymBytes or isinstance_sym(x)):
        a = V.SymBytes.of(c)
        if isinstance(x, int):
            return mkbool(z_or(*[boolcond(V.eq(p, x)) for p in a.b]))
        b = V.SymBytes.of(x)
        cs = []
        for i in range(len(a.b) - len(b.b) + 1):
            cs.append(z_and(*[boolcond(V.eq(p, q)) for p, q in zip(a.b[i:], b.b)]))
        return mkbool(z_or(*cs))
    f = getattr(type(c), '__contains__', None)
    if f is not None and getattr(f, '__sx_fn__', False):
        return cond(f(c, x))
    return x in c


# -- symbolic keys ------------------------------------------------------------------------------------------------------

class SKey(object):
    """A symbolic key of a dict, or element of a set, known to differ from all others of it on this path"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __deepcopy__(self, memo):
        return self


def unkey(k):
    return k.v if type(k) is SKey else k


def has_sym_keys(d):
    return any(type(k) is SKey for k in (dict.keys(d) if isinstance(d, dict) else d))


def span(x):
    """How many values a key may have, at least"""
    t = type(x)
    if t is tuple:
        n = 1
        for y in x:
            n *= span(y)
        return n
    if t is V.SymInt:
        return x.hi - x.lo + 1 if x.lo is not None and x.hi is not None else 1000
    if t is SymBool:
        return 2
    if issubclass(t, Sym):
        return 1000 if t in (V.SymDec, V.SymTab) or t.__module__.endswith('dates') else 1
    return 1


def as_key(x, limit=64):
    """(x or its concrete version, is it still symbolic)"""
    if type(x) is SymUnion:
        x = force(x)
    if type(x) is tuple and any(type(y) is SymUnion for y in x):
        x = tuple(force(y) if type(y) is SymUnion else y for y in x)
    if not V.deep_sym(x):
        return x, False
    if span(x) > limit:
        return x, True
    return V_concrete(x), False


def find_key(o, x):
    """The key of a dict, or element of a set, that equals x, or what x is stored as if there is none"""
    x, symbolic = as_key(x, 2 if type(o) is SSet else 64)
    if not symbolic and not has_sym_keys(o):
        return x
    if isinstance(o, dict):
        resolve_opts(o)
        keys = list(dict.keys(o))
    else:
        keys = list(set.__iter__(o))
        keys.sort(key=lambda k: (1, '') if type(k) is SKey else (0, repr(k)))
    if not symbolic and x in keys:
        return x
    for k in keys:
        if ENG.branch(boolcond(cond(eq(unkey(k), x)))):
            return k
    return SKey(x) if symbolic else x


class SSet(set):
    """set, whose elements may be symbolic"""
    __slots__ = ()

    def __class_getitem__(cls, k):
        return set[k]

    def elements(self):
        return [unkey(k) for k in set.__iter__(self)]

    def __or__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return sset(list(iter_(self)) + list(iter_(o)))

    __ror__ = __or__

    def __and__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return sset([x for x in iter_(self) if truth(contains(o, x))])

    __rand__ = __and__

    def __sub__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return sset([x for x in iter_(self) if not truth(contains(o, x))])

    def __rsub__(self, o):
        return sset([x for x in iter_(o) if not truth(contains(self, x))])

    def __xor__(self, o):
        return (self - o) | (sset(iter_(o)) - self)

    __rxor__ = __xor__

    def __ior__(self, o):
        for x in list(iter_(o)):
            set_add(self, x)
        return self

    def __isub__(self, o):
        for x in list(iter_(o)):
            set_discard(self, x)
        return self

    def __iand__(self, o):
        keep = self & o
        set.clear(self)
        return self.__ior__(keep)

    def __le__(self, o):
        return all(truth(contains(o, x)) for x in iter_(self))

    def __ge__(self, o):
        return all(truth(contains(self, x)) for x in iter_(o))

    def __eq__(self, o):
        return isinstance(o, (set, frozenset)) and len(self) == len(o) and self.__le__(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.__le__(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.__ge__(o)

    __hash__ = None


def sset(elements):
    out = SSet()
    for x in elements:
        set_add(out, x)
    return out


def set_add(s, x):
    if type(s) is not SSet and V.deep_sym(x):
        x = V_concrete(x)
    k = find_key(s, x)
    ENG.touch(s)
    set.add(s, k)


def set_discard(s, x):
    k = find_key(s, x)
    ENG.touch(s)
    if set.__contains__(s, k):
        set.remove(s, k)
        return True
    return False


def new_set(elements):
    """A set of elements that may be missing"""
    if not any(type(x) is Opt for x in elements) or any(V.deep_sym(x.v if type(x) is Opt else x) for x in elements):
        out = SSet()
        for x in elements:
            if type(x) is not Opt:
                set_add(out, x)
            elif ENG.branch(x.cond):
                set_add(out, x.v)
        return out
    return OptSet.of(elements)


class OptSet(Sym):
    """A set, or the keys of a dict, of known elements, each of which may be missing"""

    def __init__(self, d):
        self.d = d

    @staticmethod
    def of(x):
        if type(x) is OptSet:
            return x
        d = {}
        for e in iter_(x):
            c, v = (e.cond, e.v) if type(e) is Opt else (TRUE, e)
            v = find_key(d, v)
            if v in d:
                c = z_or(c, presence(d, v))
            d[v] = True if z3.is_true(c) else Opt(c, True)
        return OptSet(d)

    def __iter__(self):
        return iter_(self.d)

    def sym_truth(self):
        return cond(self.d)

    def __contains__(self, x):
        return bool(contains(self.d, x))

    def __len__(self):
        from symx import models
        return V.concretize(models.m_len(self.d))

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def _combine(self, o, f, both=False):
        if not isinstance(o, (OptSet, set, frozenset, dict, list, tuple, LazyGen, *VIEWS)):
            return NotImplemented
        o = OptSet.of(o).d
        out = {}
        for k in list(self.d) + [k for k in o if k not in self.d]:
            if type(k) is SKey:
                V.unsupported('sets of symbolic elements that may be missing')
            c = f(presence(self.d, k), presence(o, k))
            if z3.is_true(c):
                out[k] = True
            elif not z3.is_false(c):
                out[k] = Opt(c, True)
        return OptSet(out)

    def __and__(self, o):
        return self._combine(o, z_and)

    __rand__ = __and__

    def __or__(self, o):
        return self._combine(o, z_or)

    __ror__ = __or__

    def __sub__(self, o):
        return self._combine(o, lambda a, b: z_and(a, z_not(b)))

    def __rsub__(self, o):
        return self._combine(o, lambda a, b: z_and(b, z_not(a)))

    def __xor__(self, o):
        return self._combine(o, lambda a, b: z_or(z_and(a, z_not(b)), z_and(b, z_not(a))))

    __rxor__ = __xor__

    def _every(self, o, f):
        r = self._combine(o, lambda a, b: z_not(f(a, b)))
        return r if r is NotImplemented else mkbool(z_not(boolcond(cond(r.d))))

    def __le__(self, o):
        return self._every(o, lambda a, b: z_or(z_not(a), b))

    def __ge__(self, o):
        return self._every(o, lambda a, b: z_or(a, z_not(b)))

    def __eq__(self, o):
        r = self._every(o, lambda a, b: z_and(z_or(z_not(a), b), z_or(a, z_not(b))))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return V.not_(self == o)

    def __lt__(self, o):
        return mkbool(z_and(boolcond(self <= o), boolcond(self != o)))

    def __gt__(self, o):
        return mkbool(z_and(boolcond(self >= o), boolcond(self != o)))

    def issubset(self, o):
        return self <= OptSet.of(o)

    def issuperset(self, o):
        return self >= OptSet.of(o)

    def isdisjoint(self, o):
        return V.not_(cond((self & OptSet.of(o)).d))

    def copy(self):
        return OptSet(dict(self.d))

    def intersection(self, *os):
        r = self.copy()
        for o in os:
            r = r & OptSet.of(o)
        return r

    def difference(self, *os):
        r = self.copy()
        for o in os:
            r = r - OptSet.of(o)
        return r

    def union(self, *os):
        r = self.copy()
        for o in os:
            r = r | OptSet.of(o)
        return r

    def symmetric_difference(self, o):
        return self ^ OptSet.of(o)

    def add(self, x):
        setitem(self.d, x, True)

    def update(self, *os):
        for o in os:
            for x in plain_elems(o):
                self.add(x)

    def discard(self, x):
        from symx import models
        models.dict_call(None, self.d, 'pop', (x, None), {})

    def remove(self, x):
        from symx import models
        models.dict_call(None, self.d, 'pop', (x,), {})

    def __getattr__(self, name):
        V.unsupported('set.%s of elements that may be missing' % name)


VIEWS = (type({}.keys()), type({}.items()), type(collections.OrderedDict().keys()))


def presence(d, k):
    if k not in d:
        return FALSE
    v = dict.__getitem__(d, k)
    return v.cond if type(v) is Opt else TRUE


_SETOPS = {'and': operator.and_, 'or': operator.or_, 'sub': operator.sub, 'xor': operator.xor}


def setop(op, a, b):
    """a & b and the like"""
    if isinstance(a, VIEWS) and (type(b) is OptSet or isinstance(b, (list, dict)) and has_opt(b) or type(b) is LazyGen):
        a = OptSet.of(a)
    elif op == 'or' and isinstance(a, dict) and isinstance(b, dict):
        from symx import models
        r = type(a)() if type(a) is not collections.defaultdict else collections.defaultdict(a.default_factory)
        models.dict_call(None, r, 'update', (a,), {})
        models.dict_call(None, r, 'update', (b,), {})
        return r
    return _SETOPS[op](a, b)


def set_call(f, s, name, a, k):
    """A method of a set"""
    if name == 'add':
        return set_add(s, a[0])
    if name == 'discard':
        set_discard(s, a[0])
        return None
    if name == 'remove':
        if not set_discard(s, a[0]):
            raise KeyError(a[0])
        return None
    if name == '__contains__':
        return contains(s, a[0])
    if name == 'copy':
        return sset(list(iter_(s)))
    if name == 'pop' and has_sym_keys(s):
        ENG.touch(s)
        return unkey(set.pop(s))
    if name in ('update', 'union'):
        out = s if name == 'update' else sset(list(iter_(s)))
        for it in a:
            for x in plain_elems(it):
                set_add(out, x)
        return None if name == 'update' else out
    others = [sset(plain_elems(it)) for it in a]
    if type(s) is SSet and name in ('difference', 'intersection', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference',
                                    'difference_update', 'intersection_update'):
        out = s
        ENG.touch(s)
        for o in others:
            if name == 'difference':
                out = out - o
            elif name == 'intersection':
                out = out & o
            elif name == 'issubset':
                return out <= o
            elif name == 'issuperset':
                return out >= o
            elif name == 'isdisjoint':
                return len(out & o) == 0
            elif name == 'symmetric_difference':
                out = out ^ o
            elif name == 'difference_update':
                out.__isub__(o)
            else:
                out.__iand__(o)
        return None if name.endswith('update') else out
    if name not in ('__len__', '__iter__', '__eq__', '__ne__'):
        ENG.touch(s)
    return f(*[V_concrete(x) if not isinstance(x, (list, dict)) else [V_concrete(y) for y in plain_elems(x)] for x in a], **k)


# -- iteration ---------------------------------------------------------------------------------------------------------

def iter_(x):
    """Python iterable of elements; Opt elements are yielded as such."""
    if type(x) is SymUnion:
        x = force(x)
    t = type(x)
    if isinstance(x, dict) and t.__iter__ is dict.__iter__:
        return iter([Opt(v.cond, unkey(k)) if type(v) is Opt else unkey(k) for k, v in dict.items(x)])
    if t is SSet:
        return iter(x.elements())
    if t is range or t is list or t is tuple:
        return iter(x)
    if t is SymRange:
        return x.__iter__()
    return iter(x)


def next_elem(x):
    """One element taken by a native consumer: forks over its presence."""
    return x


def elems(x):
    """list of all elements (possibly Opt) of any iterable"""
    return list(iter_(x))


def plain_elems(x):
    """list of elements, forking over optional ones"""
    out = []
    for v in iter_(x):
        if type(v) is Opt:
            if ENG.branch(v.cond):
                out.append(v.v)
        else:
            out.append(v)
    return out


class SymRange(object):
    """range() with a symbolic bound; the end of the iteration is a decision."""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    @property
    def __class__(self):
        return range

    def __iter__(self):
        i = self.start
        n = 0
        while True:
            c = (i < self.stop) if self.step > 0 else (i > self.stop)
            if not truth(c):
                return
            yield i
            i = i + self.step
            n += 1
            if n > MAX_ITER:
                ENG.note_incomplete('range bound')
                raise Abort('range bound')

    def __len__(self):
        return V.concretize(self.length())

    def length(self):
        if self.step > 0:
            n = (self.stop - self.start + self.step - 1) // self.step
        else:
            n = (self.start - self.stop - self.step - 1) // -self.step
        return V.ite(boolcond(n > 0), n, 0)


def bind(frame, names, v):
    """assignment to a nested tuple of names of a frame"""
    if isinstance(names, str):
        frame[names] = v
        return
    vals = unpack(v, len(names))
    for n, x in zip(names, vals):
        bind(frame, n, x)


def unpack(v, n, star=None):
    if type(v) is SymUnion:
        if star is None and all(isinstance(x, (tuple, list)) and not has_opt(x) and len(x) == n for _, x in v.alts):
            return tuple(merge([(c, x[i]) for c, x in v.alts]) for i in range(n))
        v = force(v)
    vals = plain_elems(v)
    if star is None:
        if len(vals) > n:
            raise ValueError('too many values to unpack (expected %d)' % n)
        if len(vals) < n:
            raise ValueError('not enough values to unpack (expected %d, got %d)' % (n, len(vals)))
        return vals
    after = n - star - 1
    if len(vals) < n - 1:
        raise ValueError('not enough values to unpack')
    return vals[:star] + [vals[star:len(vals) - after]] + (vals[len(vals) - after:] if after else [])


def comp(kind, gens, elt):
    out = {} if kind == 'dict' else []

    def level(i):
        if i == len(gens):
            e = elt()
            if kind == 'dict':
                setitem(out, e[0], e[1])
            else:
                ENG.touch(out)
                out.append(e)
            return None
        it, binder, conds = gens[i]

        def body(x):
            binder(x)

            def rest(j):
                if j == len(conds):
                    return level(i + 1)
                return if_(conds[j](), lambda: rest(j + 1), None)
            return rest(0)
        return for_(it(), body, None)
    level(0)
    if kind == 'set':
        return new_set(out)
    if kind == 'gen':
        return LazyGen(out)
    return out


class LazyGen(object):
    """An iterator whose elements are known"""

    def __init__(self, items):
        self.items = items
        self.pos = 0

    def place(self):
        if type(self.pos) is not int:
            ENG.touch(self)
            self.pos = V_concrete(self.pos)
        return self.pos

    def __iter__(self):
        pos = self.place()
        while pos < len(self.items):
            ENG.touch(self)
            self.pos = pos + 1
            yield self.items[pos]
            pos = self.place()

    def __next__(self):
        for v in self.__iter__():
            if type(v) is not Opt:
                return v
            if ENG.branch(v.cond):
                return v.v
        raise StopIteration()


def V_concrete(x):
    """Concrete version of a symbolic value, by forking"""
    t = type(x)
    if t is SymUnion:
        return V_concrete(force(x))
    if t is tuple:
        return tuple(V_concrete(y) for y in x)
    if t is V.SymInt:
        return V.concretize(x)
    if t is SymBool:
        return bool(x)
    if t is V.SymFloat:
        return float(x)
    if t is V.SymBytes:
        return bytes(x)
    if t is V.SymStr:
        return x.concrete()
    if t is V.SymReal:
        V.unsupported('concrete real')
    if issubclass(t, Sym):
        if t in (V.SymDec, V.SymTab, V.SymDT, V.SymDate):
            return x.concrete()
        return x
    return x


# -- items and attributes ----------------------------------------------------------------------------------------------

def table_lookup(seq, keys, x):
    """merge of seq[i] over x == keys[i], grouping runs of keys with one value"""
    from symx import models
    return models.table_lookup(seq, keys, x)


def getitem(o, k):
    t = type(o)
    if t is Frame:
        return o[k]
    if t is SymUnion:
        return lift(lambda x: getitem(x, k), o)
    if type(k) is SymUnion and not (isinstance(o, dict) and getattr(type(o).__getitem__, '__sx_fn__', False)):
        return lift(lambda x: getitem(o, x), k)
    if isinstance(o, dict):
        g = type(o).__getitem__
        if getattr(g, '__sx_fn__', False):
            return g(o, k)
        return dict_get(o, k)
    if type(k) is slice:
        if isinstance(o, (list,)):
            resolve_opts(o)
        k = slice(*[V_concrete(x) for x in (k.start, k.stop, k.step)])
        return o[k]
    if type(k) is V.SymInt or type(k) is SymBool:
        if isinstance(o, (list, tuple, bytes, str, range)) and t not in (V.SymStr,):
            if isinstance(o, list):
                resolve_opts(o)
            n = len(o)
            k = V.as_int(k)
            lo, hi = k.lo, k.hi
            ok = z_and(boolcond(k >= -n), boolcond(k < n))
            if not ENG.branch(ok):
                raise IndexError('%s index out of range' % t.__name__)
            if lo is None or lo < 0:
                if ENG.branch(boolcond(k < 0)):
                    k = k + n
            seq = [o[i] for i in range(n)]
            return table_lookup(seq, list(range(n)), k)
    if isinstance(o, list) and has_opt(o):
        resolve_opts(o)
    g = getattr(t, '__getitem__', None)
    return o[k]


def dict_get(o, k):
    t = type(o)
    if V.deep_sym(k) or has_sym_keys(o):
        keys = list(dict.keys(o))
        conds = [z_and(boolcond(cond(eq(k, unkey(kk)))), v.cond if type(v) is Opt else TRUE) for kk, v in dict.items(o)]
        if not ENG.branch(z_or(*conds)):
            m = getattr(t, '__missing__', None)
            if m is not None and t is collections.defaultdict and o.default_factory is not None:
                v = o.default_factory()
                setitem(o, k, v)
                return v
            if issubclass(t, collections.Counter):
                return 0
            if m is not None:
                return call(m, o, k if getattr(m, '__sx_fn__', False) else V_concrete(k))
            raise KeyError('symbolic key')
        vals = [v.v if type(v) is Opt else v for v in dict.values(o)]
        if type(k) is V.SymInt and all(type(x) is int for x in keys) and not has_opt(o):
            return table_lookup(vals, keys, k)
        return merge([(c, v) for c, v in zip(conds, vals)])
    if dict.__contains__(o, k):
        v = dict.__getitem__(o, k)
        if type(v) is Opt:
            if ENG.branch(v.cond):
                return v.v
            m = getattr(t, '__missing__', None)
            if m is not None:
                if issubclass(t, collections.Counter):
                    return 0
                ENG.touch(o)
                dict.__delitem__(o, k)
                return o[k]
            raise KeyError(k)
        return v
    m = getattr(t, '__missing__', None)
    if m is not None:
        ENG.touch(o)
    return dict.__getitem__(o, k) if m is None else m(o, k)


def setitem(o, k, v):
    if type(o) is SymUnion:
        def run():
            setitem(force(o), k, v)
        ENG.region(run, 'setitem')
        return
    if type(o) is Frame:
        o[k] = v
        return
    s = getattr(type(o), '__setitem__', None)
    if s is not None and getattr(s, '__sx_fn__', False):
        s(o, k, v)
        return
    if type(k) is slice:
        k = slice(*[V_concrete(x) for x in (k.start, k.stop, k.step)])
        resolve_opts(o)
        ENG.touch(o)
        o[k] = plain_elems(v)
        return
    if isinstance(o, dict):
        if type(k) is SymUnion or V.deep_sym(k) or has_sym_keys(o):
            k = find_key(o, k)
    elif type(k) is SymUnion or V.deep_sym(k):
        k = V_concrete(k)
    if isinstance(o, list):
        resolve_opts(o)
    if isinstance(o, (list, dict, bytearray, collections.deque)):
        ENG.touch(o)
        if isinstance(o, bytearray):
            v = V_concrete(v)
    if isinstance(o, dict):
        put(o, k, v)
    else:
        o[k] = v


def is_last(o, k):
    return next(iter(reversed(o))) == k


def put(o, k, v):
    """o[k] = v; an entry that is missing comes last"""
    old = dict.get(o, k)
    if type(old) is Opt and not is_last(o, k) and not ENG.branch(old.cond):
        dict.__delitem__(o, k)
    if type(o) in (dict, collections.defaultdict, collections.Counter):
        dict.__setitem__(o, k, v)
    else:
        o[k] = v


def delitem(o, k):
    if type(o) is SymUnion:
        ENG.region(lambda: delitem(force(o), k), 'delitem')
        return
    s = getattr(type(o), '__delitem__', None)
    if s is not None and getattr(s, '__sx_fn__', False):
        s(o, k)
        return
    if isinstance(o, dict):
        k = find_key(o, k)
    elif V.deep_sym(k):
        k = V_concrete(k)
    resolve_opts(o)
    if isinstance(o, (list, dict, bytearray, collections.deque)):
        ENG.touch(o)
    del o[k]


def setattr_(o, name, v):
    if type(o) is SymUnion:
        ENG.region(lambda: setattr_(force(o), name, v), 'setattr')
        return
    s = type(o).__setattr__
    if not getattr(s, '__sx_fn__', False):
        p = getattr(type(o), name, None)
        if not isinstance(p, property) and ENG.regions:
            ENG.touch(o)
    setattr(o, name, v)


def delattr_(o, name):
    if type(o) is SymUnion:
        o = force(o)
    if ENG.regions:
        ENG.touch(o)
    delattr(o, name)


def getattr_(o, name):
    v = getattr(o, name)
    if type(v) is SymUnion and any(x is UNBOUND for _, x in v.alts):
        cs = [c for c, x in v.alts if x is UNBOUND]
        if ENG.branch(z_or(*cs)):
            raise AttributeError(name)
        return merge([(c, x) for c, x in v.alts if x is not UNBOUND])
    if v is UNBOUND:
        raise AttributeError(name)
    return v


def load(frame, name):
    """a local variable"""
    v = frame[name]
    if v is UNBOUND:
        raise UnboundLocalError(name)
    if type(v) is SymUnion and any(x is UNBOUND for _, x in v.alts):
        cs = [c for c, x in v.alts if x is UNBOUND]
        if ENG.branch(z_or(*cs)):
            raise UnboundLocalError(name)
        return merge([(c, x) for c, x in v.alts if x is not UNBOUND])
    return v


_IOPS = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'truediv': operator.itruediv,
         'floordiv': operator.ifloordiv, 'mod': operator.imod, 'pow': operator.ipow, 'lshift': operator.ilshift,
         'rshift': operator.irshift, 'and': operator.iand, 'or': operator.ior, 'xor': operator.ixor}


def iop(op, a, b):
    if type(a) is SymUnion:
        return lift(lambda x: iop(op, x, b), a)
    if isinstance(a, (list, set, dict, collections.deque, bytearray)) and not isinstance_sym(a):
        ENG.touch(a)
        if isinstance(a, list):
            if op == 'add':
                a.extend(elems(b))
                return a
        if isinstance(a, dict) and op == 'or':
            from symx import models
            models.dict_call(None, a, 'update', (b,), {})
            return a
        return _IOPS[op](a, b)
    if op == 'mod':
        return mod(a, b)
    if op == 'add':
        return add(a, b)
    return _IOPS[op](a, b)


def add(a, b):
    return a + b if not (isinstance(a, list) and isinstance(b, LazyGen)) else a + b


def iop_item(o, k, op, v):
    setitem(o, k, iop(op, getitem(o, k), v()))


def iop_attr(o, name, op, v):
    setattr_(o, name, iop(op, getattr_(o, name), v()))


# -- strings -----------------------------------------------------------------------------------------------------------

def mod(a, b):
    if type(a) is SymUnion:
        return lift(lambda x: mod(x, b), a)
    if isinstance(a, str):
        if V.deep_sym(b) or type(a) is V.SymStr:
            return percent(a, b)
        return a % b
    return a % b


def percent(fmt, args):
    if type(fmt) is V.SymStr:
        fmt = fmt.concrete()
    if not isinstance(args, tuple) or isinstance_sym(args):
        if type(args) is SymUnion:
            return lift(lambda x: percent(fmt, x), args)
        args = (args,)
    return lift_args(lambda *xs: _percent(fmt, xs), args)


def lift_args(f, args):
    if any(type(x) is SymUnion for x in args):
        return ENG.region(lambda: Ret(f(*[force(x) if type(x) is SymUnion else x for x in args])), 'format').v
    return f(*args)


def _percent(fmt, args):
    import re
    parts = []
    pos = 0
    n = 0
    for m in re.finditer(r'%(\(\w+\))?([-+ #0]*)(\d+|\*)?(\.\d+)?([sdrixXfeEgGcu%])', fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        c = m.group(5)
        if c == '%':
            parts.append('%')
            continue
        if n >= len(args):
            raise TypeError('not enough arguments for format string')
        v = spelled(args[n], c == 'r') if c in 'sr' else args[n]
        n += 1
        if not isinstance_sym(v) and not V.deep_sym(v):
            parts.append(m.group(0) % (v,))
            continue
        if c in 'sd' and not m.group(2) and not m.group(3) and not m.group(4):
            if c == 'd' and isinstance(v, (float,)) or type(v) is V.SymDec and c == 'd':
                v = to_int(v)
            if c == 'd' and isinstance(v, str):
                raise TypeError('%d format: a real number is required, not str')
            s = V.SymStr.of(V.to_str(v) if not (type(v) is SymBool and c == 'd') else V.to_str(V.as_int(v)))
            parts.extend(s.parts)
            continue
        if c == 'd' and m.group(2) == '0' and m.group(3) and type(v) is V.SymInt and v.lo is not None and v.lo >= 0:
            w = int(m.group(3))
            if v.hi is not None and v.hi < 10 ** w:
                from symx import dates
                parts.extend(dates.digits(v, w))
                continue
        if c == 'r' or V.deep_sym(v) and not isinstance_sym(v):
            parts.append(V.SymStr([('opaque', v)]).parts[0])
            continue
        parts.append(m.group(0) % (V_concrete(v),))
    parts.append(fmt[pos:])
    if n < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return V.mkstr(parts)


def to_int(x):
    from symx import models
    return models.m_int(x)


def str_format(fmt, args, kwargs):
    vals = list(args) + list(kwargs.values())
    if not any(V.deep_sym(v) for v in vals):
        return fmt.format(*args, **kwargs)
    import string
    ks = list(kwargs)

    def run(*xs):
        a = xs[:len(args)]
        kw = dict(zip(ks, xs[len(args):]))
        parts = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            parts.append(lit)
            if field is None:
                continue
            if field == '':
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                v, _ = string.Formatter().get_field(field, a, kw)
            parts.extend(fmt_value(v, spec, conv))
        return V.mkstr(parts)
    return lift_args(run, tuple(vals))


def spelled(v, as_repr):
    """the text of an object whose class is encoded"""
    from symx import models
    f = not as_repr and models.own_method(v, '__str__') or models.own_method(v, '__repr__')
    return call(f, v) if f else v


def fmt_value(v, spec, conv):
    v = spelled(v, conv == 'r')
    if conv == 'r':
        return [repr(v)] if not V.deep_sym(v) else [('opaque', v)]
    if not isinstance_sym(v):
        if V.deep_sym(v):
            return [('opaque', v)]
        return [format(str(v) if conv == 's' else v, spec or '')]
    if not spec:
        return V.SymStr.of(V.to_str(v)).parts
    import re
    m = re.match(r'^0(\d+)d?$', spec)
    if m and type(v) is V.SymInt and v.lo is not None and v.lo >= 0 and v.hi is not None and \
            v.hi < 10 ** int(m.group(1)):
        from symx import dates
        return dates.digits(v, int(m.group(1)))
    if isinstance(v, (V.SymDT, V.SymDate)):
        return V.SymStr.of(v.strftime(spec)).parts
    return [format(V_concrete(v), spec)]


def fstr(*parts):
    def run(*vals):
        out = []
        it = iter(vals)
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v = next(it)
                out.extend(fmt_value(v, p[1], p[2]))
        return V.mkstr(out)
    return lift_args(run, tuple(p[0] for p in parts if not isinstance(p, str)))


# -- calls -------------------------------------------------------------------------------------------------------------

_METHOD_TYPES = (types.BuiltinMethodType, type(''.__len__), type([].append))


def call(f, *a, **k):
    from symx import models
    if type(f) is SymUnion:
        return ENG.region(lambda: Ret(call(force(f), *a, **k)), 'call').v
    if k and any(type(v) is Opt for v in k.values()):
        k2 = {}
        for n, v in k.items():
            if type(v) is Opt:
                if ENG.branch(v.cond):
                    k2[n] = v.v
            else:
                k2[n] = v
        k = k2
    return models.dispatch(f, a, k)


def no_encoding(why):
    V.unsupported(why)


def raise_(e):
    if type(e) is SymUnion:
        e = force(e)
    return e


# -- names used by transformed code -----------------------------------------------------------------------------------
STOP = (Control, GeneratorExit)
slice_ = slice


def live():  # noqa: F811
    t = sys.exc_info()[0]
    if t is None:
        return True
    if issubclass(t, Control):
        return False
    return not (t is GeneratorExit and ENG.regions)


def plain_iter(x):
    for v in iter_(x):
        if type(v) is Opt:
            if ENG.branch(v.cond):
                yield v.v
        else:
            yield v


def kwargs(d):
    if type(d) is SymUnion:
        d = force(d)
    if isinstance(d, dict):
        return dict(dict.items(d))
    return d


def mkdict(*items):
    d = {}
    for k, v in items:
        if k is UNBOUND:
            from symx import models
            models.dict_call(None, d, 'update', (v,), {})
            continue
        if V.deep_sym(k) or type(k) is SymUnion:
            setitem(d, k, v)
            continue
        d[k] = v
    return d


def mkset(*items):
    return sset(items)


def walrus(frame, name, v):
    frame[name] = v
    return v
