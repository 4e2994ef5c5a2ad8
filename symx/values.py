"""Symbolic values. Every class mimics the Python value it stands for through __class__, so isinstance() works."""
import datetime
import decimal
import fractions
import operator

import z3

from symx.engine import ENG, FALSE, TRUE, Abort, z_and, z_not, z_or
from symx.merge import UNBOUND, merge

PREC = 28
ENUM_LIMIT = 400


def unsupported(what):
    ENG.note_incomplete('unsupported: ' + what)
    raise Abort(what)


class Sym(object):
    """Base of all symbolic values."""
    __slots__ = ()

    def __reduce__(self):
        unsupported('pickle')


SYM_TYPES = ()


def is_sym(x):
    return isinstance(x, Sym)


def sym_type(x):
    return type(x)


def deep_sym(x, depth=3):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if depth and t in (tuple, list):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(deep_sym(y, depth - 1) for y in x.values())
    return False


# -- unions ------------------------------------------------------------------------------------------------------------

class SymUnion(Sym):
    __slots__ = ('alts',)

    def __init__(self, alts):
        object.__setattr__(self, 'alts', alts)

    def __repr__(self):
        return 'SymUnion(%s)' % ', '.join(repr(v) for _, v in self.alts)

    @property
    def __class__(self):
        # Only reached by native isinstance() calls: all alternatives of one class, or a fork
        ts = {getattr(v, '__class__', type(v)) for _, v in self.alts}
        if len(ts) == 1:
            return ts.pop()
        return force(self).__class__

    def __getattr__(self, name):
        if name.startswith('__') and name not in ('__name__', '__dict__', '__doc__', '__members__', '__getitem__', '__len__',
                                                  '__exit__', '__enter__', '__iter__', '__contains__', '__setitem__'):
            raise AttributeError(name)
        return lift(lambda o: getattr(o, name), self)

    def __setattr__(self, name, value):
        from symx import hooks
        ENG.region(lambda: hooks.setattr_(force(self), name, value))

    def __bool__(self):
        return ENG.branch(truth_cond(self))

    def __iter__(self):
        return iter(force(self))

    def __len__(self):
        return len(force(self))

    def __hash__(self):
        return hash(force(self))

    def __index__(self):
        return force(self).__index__()

    def __int__(self):
        return int(force(self))

    def __str__(self):
        return str(force(self))

    def __call__(self, *a, **k):
        from symx import hooks
        return hooks.call(self, *a, **k)

    def __enter__(self):
        return force(self).__enter__()

    def __exit__(self, *a):
        return force(self).__exit__(*a)

    def __getitem__(self, k):
        from symx import hooks
        return lift(lambda o: hooks.getitem(o, k), self)

    def __setitem__(self, k, v):
        from symx import hooks
        ENG.region(lambda: hooks.setitem(force(self), k, v))

    def __contains__(self, k):
        from symx import hooks
        return bool(hooks.contains(self, k))


def force(u):
    """Forks until the value is not a union."""
    while type(u) is SymUnion:
        i = ENG.decide([c for c, _ in u.alts])
        u = u.alts[i][1]
    if u is UNBOUND:
        raise UnboundLocalError('local variable referenced before assignment')
    return u


def lift(op, *args):
    if any(type(a) is SymUnion for a in args):
        return ENG.region(lambda: op(*[force(a) for a in args]), 'lift')
    return op(*args)


def guarded(cond, v):
    """merge helper used by harnesses"""
    return (cond, v)


# -- booleans ----------------------------------------------------------------------------------------------------------

class SymBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ENG.branch(self.z)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.z == o.z)
        if o is True:
            return self
        if o is False:
            return mkbool(z_not(self.z))
        if type(o) is SymUnion:
            return NotImplemented
        return as_int(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(z_and(self.z, boolcond(o)))
        return as_int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(z_or(self.z, boolcond(o)))
        return as_int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(self.z, boolcond(o)))
        return as_int(self) ^ o

    __rxor__ = __xor__

    def __int__(self):
        return int(as_int(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return 'SymBool'


def _fwd(name):
    def f(self, *a):
        return getattr(as_int(self), name)(*a)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__lt__', '__le__', '__gt__', '__ge__',
           '__floordiv__', '__mod__', '__truediv__', '__neg__', '__abs__'):
    setattr(SymBool, _n, _fwd(_n))


def mkbool(z):
    if z is True or z is False:
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def boolcond(b):
    """z3 condition of a bool or SymBool"""
    if type(b) is SymBool:
        return b.z
    return TRUE if b else FALSE


def not_(b):
    t = type(b)
    if t is SymBool:
        return mkbool(z_not(b.z))
    if isinstance(b, Sym):
        return mkbool(z_not(truth_cond(b)))
    return not b


def truth_cond(x):
    """z3 condition under which x is true."""
    t = type(x)
    if t is SymBool:
        return x.z
    if t is SymInt:
        return boolcond(x != 0)
    if t is SymUnion:
        return z_or(*[z_and(c, truth_cond(v)) for c, v in x.alts])
    if isinstance(x, Sym):
        r = x.sym_truth()
        return boolcond(r)
    if isinstance(x, (list, dict)) and not hasattr(type(x), '__bool__'):
        from symx.merge import Opt
        vals = list.__iter__(x) if isinstance(x, list) else dict.values(x)
        cs = []
        for v in vals:
            if type(v) is Opt:
                cs.append(v.cond)
            else:
                return TRUE
        return z_or(*cs)
    r = x.__bool__() if hasattr(type(x), '__bool__') else x
    if type(r) is SymBool:
        return r.z
    return TRUE if r else FALSE


# -- integers ----------------------------------------------------------------------------------------------------------

_ATOM_IDS = {}
_ATOMS = []


def _atom(b):
    k = b.get_id()
    i = _ATOM_IDS.get(k)
    if i is None:
        i = _ATOM_IDS[k] = len(_ATOMS)
        _ATOMS.append(b)
    return i


ZERO_BIT = (0, 0, None)


def bit_xor(a, b):
    if a[2] is None:
        ex = b[2]
    elif b[2] is None:
        ex = a[2]
    elif a[2].get_id() == b[2].get_id():
        ex = None
    else:
        ex = z3.Xor(a[2], b[2])
    return (a[0] ^ b[0], a[1] ^ b[1], ex)


def reduce_forms(forms):
    """An equivalent system of equations form == 0, in reduced echelon form (equal systems become identical)."""
    if any(f[2] is not None for f in forms):
        return forms
    rows = []       # (pivot, mask, const)
    for mask, const, _ in forms:
        for p, m, c in rows:
            if mask & p:
                mask ^= m
                const ^= c
        if not mask:
            if const:
                return [(0, 1, None)]
            continue
        p = mask & -mask
        rows = [(q, m ^ mask, c ^ const) if m & p else (q, m, c) for q, m, c in rows]
        rows.append((p, mask, const))
    rows.sort()
    return [(m, c, None) for _, m, c in rows]


_BITZ = {}


def bit_z(b):
    """z3 Bool of a bit form"""
    mask, const, ex = b
    key = (mask, const, ex.get_id() if ex is not None else None)
    r = _BITZ.get(key)
    if r is not None:
        return r[0]
    terms = []
    m = mask
    while m:
        low = m & -m
        terms.append(_ATOMS[low.bit_length() - 1])
        m ^= low
    if ex is not None:
        terms.append(ex)
    z = None
    for t in terms:
        z = t if z is None else z3.Xor(z, t)
    if z is None:
        z = TRUE if const else FALSE
    elif const:
        z = z_not(z)
    _BITZ[key] = (z, ex)
    return z


class SymInt(Sym):
    __slots__ = ('_e', 'bits', 'lo', 'hi')

    def __init__(self, e, lo=None, hi=None, bits=None):
        self._e = e
        self.bits = bits
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    @property
    def e(self):
        if self._e is None:
            parts = []
            for i, b in enumerate(self.bits):
                z = bit_z(b)
                if z3.is_false(z):
                    continue
                parts.append(z3.If(z, z3.IntVal(1 << i), z3.IntVal(0)))
            self._e = z3.Sum(parts) if len(parts) > 1 else (parts[0] if parts else z3.IntVal(0))
        return self._e

    def get_bits(self):
        if self.bits is None:
            if self.lo is None or self.hi is None or self.lo < 0 or self.hi >= 1 << 64:
                return None
            n = self.hi.bit_length()
            self.bits = derived_bits(self._e, n)
        return self.bits

    def sym_truth(self):
        return self != 0

    def __repr__(self):
        return 'SymInt[%s..%s]' % (self.lo, self.hi)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        return float(concretize(self))

    def __str__(self):
        return str(concretize(self))

    def __format__(self, spec):
        return format(concretize(self), spec)

    # arithmetic
    def __neg__(self):
        return mkint(-self.e, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        if self.hi is not None and self.hi <= 0:
            return -self
        hi = None
        if self.lo is not None and self.hi is not None:
            hi = max(-self.lo, self.hi)
        return mkint(z3.If(self.e >= 0, self.e, -self.e), 0, hi)

    def __invert__(self):
        return -self - 1

    def __add__(self, o):
        return int_op('add', self, o)

    def __radd__(self, o):
        return int_op('add', o, self)

    def __sub__(self, o):
        return int_op('sub', self, o)

    def __rsub__(self, o):
        return int_op('sub', o, self)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)) and not isinstance(o, Sym):
            return o * concretize(self)
        return int_op('mul', self, o)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)) and not isinstance(o, Sym):
            return o * concretize(self)
        return int_op('mul', o, self)

    def __floordiv__(self, o):
        return int_op('floordiv', self, o)

    def __rfloordiv__(self, o):
        return int_op('floordiv', o, self)

    def __mod__(self, o):
        return int_op('mod', self, o)

    def __rmod__(self, o):
        return int_op('mod', o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        return int_op('truediv', self, o)

    def __rtruediv__(self, o):
        return int_op('truediv', o, self)

    def __and__(self, o):
        return int_op('and', self, o)

    __rand__ = __and__

    def __or__(self, o):
        return int_op('or', self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return int_op('xor', self, o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return int_op('lshift', self, o)

    def __rlshift__(self, o):
        return int_op('lshift', o, self)

    def __rshift__(self, o):
        return int_op('rshift', self, o)

    def __rrshift__(self, o):
        return int_op('rshift', o, self)

    def __pow__(self, o, m=None):
        if type(o) is int and o >= 0 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return int(concretize(self)) ** o

    def __rpow__(self, o):
        return o ** concretize(self)

    def __eq__(self, o):
        return int_cmp('eq', self, o)

    def __ne__(self, o):
        return int_cmp('ne', self, o)

    def __lt__(self, o):
        return int_cmp('lt', self, o)

    def __le__(self, o):
        return int_cmp('le', self, o)

    def __gt__(self, o):
        return int_cmp('gt', self, o)

    def __ge__(self, o):
        return int_cmp('ge', self, o)

    def bit_length(self):
        return concretize(self).bit_length()

    def to_bytes(self, length, byteorder='big', signed=False):
        from symx import models
        return models.int_to_bytes(self, length, byteorder, signed)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    denominator = 1


_INT_BITS = {}


def int_bits(e, n):
    """Bits of a nonnegative z3 Int below 2**n, linked to it by a definitional constraint."""
    k = (e.get_id(), n)
    r = _INT_BITS.get(k)
    if r is not None:
        return r[0]
    name = str(e) if z3.is_const(e) else 'x%d' % e.get_id()
    bs = [z3.Bool('%s#%d' % (name, i)) for i in range(n)]
    ENG.add_side(e == z3.Sum([z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(bs)])
                 if n > 1 else e == z3.If(bs[0], z3.IntVal(1), z3.IntVal(0)) if n else e == 0)
    forms = [(1 << _atom(b), 0, None) for b in bs]
    _INT_BITS[k] = (forms, e)
    return forms


_DERIVED = {}


def derive(r, kind, *args):
    """Notes how the bits of r follow from those of its operands."""
    if type(r) is SymInt and r._e is not None:
        _DERIVED[r._e.get_id()] = (r._e, kind, args)
    return r


def derived_bits(e, n):
    d = _DERIVED.get(e.get_id())
    bits = None
    if d is not None:
        kind, args = d[1], d[2]
        a = args[0]
        A = a.get_bits() if type(a) is SymInt else const_bits(a)
        if A is not None:
            k = args[-1]
            if kind == 'shl':
                bits = [ZERO_BIT] * k + list(A)
            elif kind == 'shr':
                bits = list(A[k:])
            elif kind == 'low':
                bits = list(A[:k])
            elif kind == 'cat':
                b = args[1]
                B = b.get_bits() if type(b) is SymInt else const_bits(b)
                if B is not None and len(B) <= k:
                    bits = list(B) + [ZERO_BIT] * (k - len(B)) + list(A[k:])
    if bits is None:
        return int_bits(e, n)
    return bits


def const_bits(v):
    return [(0, (v >> i) & 1, None) for i in range(v.bit_length())]


def mkint(e, lo=None, hi=None):
    if lo is not None and lo == hi:
        return lo
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, lo, hi)


def from_bits(bits):
    bits = list(bits)
    while bits and bits[-1] == ZERO_BIT:
        bits.pop()
    if all(b[0] == 0 and b[2] is None for b in bits):
        return sum(b[1] << i for i, b in enumerate(bits))
    return SymInt(None, 0, (1 << len(bits)) - 1, bits)


def as_int(x):
    t = type(x)
    if t is SymInt or t is int:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return SymInt(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)), 0, 1)
    return x


def ze(x):
    """z3 expression of an int-like"""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is int or t is bool:
        return z3.IntVal(int(x))
    if t is SymBool:
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    raise TypeError(type(x))


def bounds(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    x = int(x)
    return x, x


def concretize(x, limit=ENUM_LIMIT):
    """Forks over all feasible values of a symbolic int."""
    if type(x) is not SymInt:
        return x
    tried = 0
    lo = x.lo
    if x.lo is not None and x.hi is not None and x.hi - x.lo <= limit:
        vals = list(range(x.lo, x.hi + 1))
        i = ENG.decide([boolcond(x == v) for v in vals])
        return vals[i]
    # find values with the solver
    vals = []
    conds = []
    key = ('concretize', x.e.get_id(), tuple(c.get_id() for c in ENG.pc))
    got = ENG.cache.get(key)
    if got is None:
        extra = []
        while True:
            r, m = ENG.check(None, want_model=True, extra=tuple(extra))
            if r == z3.unsat:
                break
            if r != z3.sat or len(vals) > limit:
                unsupported('concretization of an integer with too many values')
            v = m.eval(x.e, model_completion=True).as_long()
            vals.append(v)
            extra.append(x.e != v)
        vals.sort()
        ENG.cache[key] = vals
        ENG.keep.append((x, list(ENG.pc)))
    else:
        vals = got
    if not vals:
        from symx.engine import Infeasible
        raise Infeasible()
    i = ENG.decide([x.e == v for v in vals])
    return vals[i]


def _minmax(vals):
    return min(vals), max(vals)


def int_op(op, a, b):
    ta, tb = type(a), type(b)
    if ta is bool or ta is SymBool:
        a = as_int(a)
        ta = type(a)
    if tb is bool or tb is SymBool:
        b = as_int(b)
        tb = type(b)
    if not (ta in (SymInt, int) and tb in (SymInt, int)):
        if ta is SymUnion or tb is SymUnion:
            return NotImplemented if ta is SymInt and tb is not SymUnion else lift(lambda x, y: PYOPS[op](x, y), a, b)
        other = b if ta in (SymInt, int) and type(a) is SymInt else a
        if ta is float:
            return float_op(op, SymFloat.of(a), b)
        if tb is float:
            return float_op(op, a, SymFloat.of(b))
        to = type(other)
        if to is decimal.Decimal or to is SymDec or to is SymTab:
            return dec_op(op, a, b)
        if to is SymFloat:
            return float_op(op, a, b)
        if to is fractions.Fraction:
            unsupported('Fraction')
        if to is datetime.timedelta or to is SymTD:
            if op == 'mul':
                return SymTD.of(b if tb is not SymInt else a) * (a if ta is SymInt else b)
        return NotImplemented
    if ta is int and tb is int:
        return PYOPS[op](a, b)
    alo, ahi = bounds(a)
    blo, bhi = bounds(b)
    known = None not in (alo, ahi, blo, bhi)
    if op == 'add':
        if ta is int and a == 0:
            return b
        if tb is int and b == 0:
            return a
        lo = None if alo is None or blo is None else alo + blo
        hi = None if ahi is None or bhi is None else ahi + bhi
        r = mkint(ze(a) + ze(b), lo, hi)
        if known and alo >= 0 and blo >= 0:
            for x, y, yhi in ((a, b, bhi), (b, a, ahi)):
                k = shifted(x)
                if k and yhi < 1 << k:
                    whole = rejoined(x, y, k)
                    if whole is not None:
                        return whole
                    return derive(r, 'cat', x, y, k)
        return r
    if op == 'sub':
        if tb is int and b == 0:
            return a
        if ta is SymInt and tb is SymInt and a._e is not None and b._e is not None and a._e.get_id() == b._e.get_id():
            return 0
        lo = None if alo is None or bhi is None else alo - bhi
        hi = None if ahi is None or blo is None else ahi - blo
        return mkint(ze(a) - ze(b), lo, hi)
    if op == 'mul':
        if ta is int:
            a, b, ta, tb = b, a, tb, ta
            alo, ahi, blo, bhi = blo, bhi, alo, ahi
        if tb is int:
            if b == 0:
                return 0
            if b == 1:
                return a
            if b > 0 and b & (b - 1) == 0 and a.bits is not None:
                return from_bits([ZERO_BIT] * (b.bit_length() - 1) + list(a.bits))
        lo = hi = None
        if known:
            lo, hi = _minmax([alo * blo, alo * bhi, ahi * blo, ahi * bhi])
        r = mkint(ze(a) * ze(b), lo, hi)
        if tb is int and b > 0 and b & (b - 1) == 0 and alo is not None and alo >= 0:
            derive(r, 'shl', a, b.bit_length() - 1)
        return r
    if op in ('floordiv', 'mod', 'truediv'):
        if op == 'truediv':
            if tb is SymInt:
                b = concretize(b)
            if b == 0:
                raise ZeroDivisionError('division by zero')
            return SymFloat.make(a, b)
        if tb is SymInt:
            if bool(b == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            if blo is None or bhi is None or bhi - blo > 64:
                if bool(b > 0):
                    return mkint(ze(a) / ze(b) if op == 'floordiv' else ze(a) % ze(b), None, None)
                return PYOPS[op](-a, -b) if op == 'floordiv' else -((-a) % (-b))
            b = concretize(b)
            return int_op(op, a, b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b < 0:
            return int_op(op, -a, -b) if op == 'floordiv' else -int_op(op, -a, -b)
        pow2 = b & (b - 1) == 0
        if pow2 and a.bits is not None:
            k = b.bit_length() - 1
            return from_bits(a.bits[k:]) if op == 'floordiv' else from_bits(a.bits[:k])
        if b > 1 and a._e is not None:
            parts = divided(a._e, b)
            if parts is not None:
                q, m = parts
                if op == 'floordiv':
                    r = q
                    kind = 'shr'
                else:
                    r = m
                    kind = 'low'
                if type(r) is SymInt:
                    if op == 'floordiv':
                        lo, hi = None if alo is None else alo // b, None if ahi is None else ahi // b
                    else:
                        lo, hi = 0, b - 1
                    lo = r.lo if lo is None or r.lo is not None and r.lo > lo else lo
                    hi = r.hi if hi is None or r.hi is not None and r.hi < hi else hi
                    if lo is not None and lo == hi:
                        return lo
                    r = SymInt(r.e, lo, hi)
                    if pow2 and alo is not None and alo >= 0 and r.e.num_args() and r.e.get_id() not in _DERIVED:
                        derive(r, kind, a, b.bit_length() - 1)
                return r
        if op == 'floordiv':
            if b == 1:
                return a
            lo = None if alo is None else alo // b
            hi = None if ahi is None else ahi // b
            if lo is not None and lo == hi:
                return lo
            r = mkint(a.e / b, lo, hi)
            if pow2 and alo is not None and alo >= 0:
                derive(r, 'shr', a, b.bit_length() - 1)
            return r
        if alo is not None and ahi is not None and alo // b == ahi // b:
            return a - b * (alo // b)
        r = mkint(a.e % b, 0, b - 1)
        if pow2 and alo is not None and alo >= 0 and ahi is not None:
            derive(r, 'low', a, b.bit_length() - 1)
        return r
    if op == 'lshift':
        if tb is SymInt:
            b = concretize(b)
        if b < 0:
            raise ValueError('negative shift count')
        return int_op('mul', a, 1 << b)
    if op == 'rshift':
        if tb is SymInt:
            b = concretize(b)
        if b < 0:
            raise ValueError('negative shift count')
        return int_op('floordiv', a, 1 << b)
    # bitwise
    if op != 'and' and known and alo >= 0 and blo >= 0 and (
            bhi < 1 << shifted(a) or ahi < 1 << shifted(b)):
        return int_op('add', a, b)      # no bit is in both
    if ta is int:
        a, b, ta, tb = b, a, tb, ta
        alo, ahi, blo, bhi = blo, bhi, alo, ahi
    if tb is int and a._e is not None and a.bits is None:
        m = b
        if op == 'and':
            if m >= 0:
                return mask_and(a, m)
            # x & ~k == x - (x & k)
            return a - mask_and(a, ~m)
        if m >= 0:
            if op == 'or':
                return a + m - mask_and(a, m)
            if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < 1 << 64:
                pass
            else:
                return a + m - 2 * mask_and(a, m)
    A = a.get_bits()
    B = const_bits(b) if tb is int and b >= 0 else (b.get_bits() if tb is SymInt else None)
    if A is None or B is None:
        if tb is int and b < 0 and A is not None and op == 'and':
            k = ~b
            return from_bits([x if not (k >> i) & 1 else ZERO_BIT for i, x in enumerate(A)])
        unsupported('bitwise operation on unbounded or negative integers')
    n = max(len(A), len(B))
    A = list(A) + [ZERO_BIT] * (n - len(A))
    B = list(B) + [ZERO_BIT] * (n - len(B))
    out = []
    for x, y in zip(A, B):
        if op == 'xor':
            out.append(bit_xor(x, y))
            continue
        xc = x[1] if x[0] == 0 and x[2] is None else None
        yc = y[1] if y[0] == 0 and y[2] is None else None
        if op == 'and':
            if xc is not None:
                out.append(y if xc else ZERO_BIT)
            elif yc is not None:
                out.append(x if yc else ZERO_BIT)
            elif x == y:
                out.append(x)
            else:
                out.append((0, 0, z_and(bit_z(x), bit_z(y))))
        else:
            if xc is not None:
                out.append((0, 1, None) if xc else y)
            elif yc is not None:
                out.append((0, 1, None) if yc else x)
            elif x == y:
                out.append(x)
            else:
                out.append((0, 0, z_or(bit_z(x), bit_z(y))))
    return from_bits(out)


_LEAVES = {}         # id -> (expression, least, greatest) of inputs
_RANGES = {}
_FORMS = {}
TERMS = 24


def leaf(e, lo, hi):
    """Notes the bounds of an input, which hold on every path"""
    _LEAVES[e.get_id()] = (e, lo, hi)


def form_of(e):
    """(constant, {id: (factor, expression)}) of a sum with constant factors, or None"""
    i = e.get_id()
    got = _FORMS.get(i)
    if got is not None:
        return got[1]
    form = None
    k = e.decl().kind()
    if z3.is_int_value(e):
        form = (e.as_long(), {})
    elif k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB or k == z3.Z3_OP_UMINUS:
        const, terms = 0, {}
        for n, c in enumerate(e.children()):
            f = form_of(c)
            if f is None:
                terms = None
                break
            sign = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and n) else 1
            const += sign * f[0]
            for j, (w, t) in f[1].items():
                w = sign * w + (terms[j][0] if j in terms else 0)
                if w:
                    terms[j] = (w, t)
                else:
                    terms.pop(j, None)
            if len(terms) > TERMS:
                terms = None
                break
        form = None if terms is None else (const, terms)
    elif k == z3.Z3_OP_MUL and e.num_args() == 2 and (z3.is_int_value(e.arg(0)) or z3.is_int_value(e.arg(1))):
        c, t = (e.arg(0), e.arg(1)) if z3.is_int_value(e.arg(0)) else (e.arg(1), e.arg(0))
        c = c.as_long()
        f = form_of(t)
        if f is not None:
            form = (c * f[0], {j: (c * w, x) for j, (w, x) in f[1].items()} if c else {})
    else:
        form = (0, {i: (1, e)})
    _FORMS[i] = (e, form)
    return form


def range_of(e):
    """(least, greatest) that follow from the bounds of the inputs, or None"""
    i = e.get_id()
    got = _RANGES.get(i)
    if got is not None:
        return got[1]
    r = None
    k = e.decl().kind()
    if i in _LEAVES:
        r = _LEAVES[i][1:]
    elif z3.is_int_value(e):
        r = (e.as_long(), e.as_long())
    elif k == z3.Z3_OP_ITE:
        x, y = range_of(e.arg(1)), range_of(e.arg(2))
        if x is not None and y is not None:
            r = (min(x[0], y[0]), max(x[1], y[1]))
    elif (k == z3.Z3_OP_IDIV or k == z3.Z3_OP_MOD) and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
        x, b = range_of(e.arg(0)), e.arg(1).as_long()
        if k == z3.Z3_OP_MOD:
            r = (0, b - 1)
            if x is not None and x[0] // b == x[1] // b:
                r = (x[0] % b, x[1] % b)
        elif x is not None:
            r = (x[0] // b, x[1] // b)
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
        f = form_of(e)
        if f is not None and not (len(f[1]) == 1 and i in f[1]):
            r = range_form(f[0], f[1])
    _RANGES[i] = (e, r)
    return r


def range_form(const, terms):
    lo = hi = const
    for w, t in terms.values():
        r = range_of(t)
        if r is None:
            return None
        lo += w * (r[0] if w > 0 else r[1])
        hi += w * (r[1] if w > 0 else r[0])
    return lo, hi


def sum_of(const, terms):
    parts = [t if w == 1 else t * w for w, t in terms]
    if const or not parts:
        parts.append(z3.IntVal(const))
    e = parts[0]
    for p in parts[1:]:
        e = e + p
    r = range_form(const, dict(enumerate(terms)))
    return mkint(e, *(r or (None, None)))


def divided(e, k):
    """(e // k, e % k) if a part of the sum e can be divided by k, or else None"""
    form = form_of(e)
    if form is None:
        return None
    const, terms = form
    whole = [(w // k, t) for w, t in terms.values() if w % k == 0]
    rest = [(w, t) for w, t in terms.values() if w % k]
    if not whole and rest and 0 <= const < k:
        return None
    q, c = divmod(const, k)
    r = range_form(c, dict(enumerate(rest)))
    if r is not None and r[0] // k == r[1] // k:
        n = r[0] // k
        return sum_of(q + n, whole), sum_of(c - n * k, rest)
    if not whole:
        return None
    x = sum_of(c, rest)
    part = SymInt(x.e / k, None if r is None else r[0] // k, None if r is None else r[1] // k)
    return sum_of(q, whole + [(1, part.e)]), SymInt(x.e % k, 0, k - 1)


def how(x):
    if type(x) is SymInt and x._e is not None:
        d = _DERIVED.get(x._e.get_id())
        if d is not None:
            return d[1], d[2]
    return None, None


def rejoined(x, y, k):
    """a if x == (a >> k) << k and y == a & (2**k - 1)"""
    kx, ax = how(x)
    ky, ay = how(y)
    if kx == 'shl' and ky == 'low' and ax[1] == k and ay[1] == k:
        ks, as_ = how(ax[0])
        if ks == 'shr' and as_[1] == k and as_[0].e.get_id() == ay[0].e.get_id():
            return ay[0]
    return None


def shifted(x):
    if type(x) is SymInt:
        if x._e is not None:
            d = _DERIVED.get(x._e.get_id())
            if d is not None:
                if d[1] == 'shl':
                    return d[2][1]
                if d[1] == 'cat':
                    return 0
        if x.bits is not None:
            k = 0
            while k < len(x.bits) and x.bits[k] == ZERO_BIT:
                k += 1
            return k
    elif type(x) is int and x > 0:
        return (x & -x).bit_length() - 1
    return 0


def mask_and(a, m):
    """a & m for a constant nonnegative mask, by div and mod."""
    if type(a) is int:
        return a & m
    if a.bits is not None:
        return from_bits([x if (m >> i) & 1 else ZERO_BIT for i, x in enumerate(a.bits)])
    res = 0
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            part = int_op('mod', int_op('floordiv', a, 1 << i), 1 << (j - i)) if i else int_op('mod', a, 1 << j)
            res = res + part * (1 << i)
            i = j
        else:
            i += 1
    return res


def int_cmp(op, a, b):
    tb = type(b)
    if tb is bool or tb is SymBool:
        b = as_int(b)
        tb = type(b)
    if tb is not int and tb is not SymInt:
        if tb is SymUnion:
            return lift(lambda x, y: PYOPS[op](x, y), a, b)
        if tb is float:
            return float_cmp(op, a, SymFloat.of(b))
        if tb is SymFloat:
            return float_cmp(op, a, b)
        if tb is decimal.Decimal or tb is SymDec or tb is SymTab:
            return dec_cmp(op, a, b)
        if op == 'eq':
            return NotImplemented if isinstance(b, Sym) else False
        if op == 'ne':
            return NotImplemented if isinstance(b, Sym) else True
        return NotImplemented
    alo, ahi = a.lo, a.hi
    blo, bhi = bounds(b)
    if op in ('eq', 'ne'):
        if (ahi is not None and blo is not None and ahi < blo) or (alo is not None and bhi is not None and alo > bhi):
            return op == 'ne'
        if a.bits is not None and (tb is int or b.bits is not None) or a._e is None or (tb is SymInt and b._e is None):
            A = a.get_bits()
            B = const_bits(b) if tb is int else b.get_bits()
            if A is not None and B is not None:
                n = max(len(A), len(B))
                A = list(A) + [ZERO_BIT] * (n - len(A))
                B = list(B) + [ZERO_BIT] * (n - len(B))
                cs = [z_not(bit_z(f)) for f in reduce_forms([bit_xor(x, y) for x, y in zip(A, B)])]
                r = mkbool(z_and(*cs))
                return r if op == 'eq' else not_(r)
        if tb is SymInt and a.e.get_id() == b.e.get_id():
            return op == 'eq'
        r = mkbool(a.e == ze(b))
        return r if op == 'eq' else not_(r)
    if op == 'lt':
        if ahi is not None and blo is not None and ahi < blo:
            return True
        if alo is not None and bhi is not None and alo >= bhi:
            return False
        return mkbool(a.e < ze(b))
    if op == 'le':
        if ahi is not None and blo is not None and ahi <= blo:
            return True
        if alo is not None and bhi is not None and alo > bhi:
            return False
        return mkbool(a.e <= ze(b))
    if op == 'gt':
        r = int_cmp('le', a, b)
    else:
        r = int_cmp('lt', a, b)
    return not_(r)


import operator as _op

PYOPS = {
    'add': _op.add, 'sub': _op.sub, 'mul': _op.mul, 'floordiv': _op.floordiv, 'mod': _op.mod, 'truediv': _op.truediv,
    'and': _op.and_, 'or': _op.or_, 'xor': _op.xor, 'lshift': _op.lshift, 'rshift': _op.rshift, 'pow': _op.pow,
    'eq': _op.eq, 'ne': _op.ne, 'lt': _op.lt, 'le': _op.le, 'gt': _op.gt, 'ge': _op.ge,
}


def _union_op(op, swap=False):
    f = PYOPS[op]
    if swap:
        return lambda self, o: lift(lambda x, y: f(y, x), self, o)
    return lambda self, o: lift(f, self, o)


for _n, _d in (('add', '__add__'), ('sub', '__sub__'), ('mul', '__mul__'), ('floordiv', '__floordiv__'), ('mod', '__mod__'),
               ('truediv', '__truediv__'), ('and', '__and__'), ('or', '__or__'), ('xor', '__xor__'), ('pow', '__pow__'),
               ('lshift', '__lshift__'), ('rshift', '__rshift__')):
    setattr(SymUnion, _d, _union_op(_n))
    setattr(SymUnion, '__r' + _d[2:], _union_op(_n, True))
for _n in ('lt', 'le', 'gt', 'ge'):
    setattr(SymUnion, '__%s__' % _n, _union_op(_n))


def _union_eq(self, o):
    return eq(self, o)


def _union_ne(self, o):
    return not_(eq(self, o))


SymUnion.__eq__ = _union_eq
SymUnion.__ne__ = _union_ne
SymUnion.__neg__ = lambda self: lift(_op.neg, self)
SymUnion.__abs__ = lambda self: lift(abs, self)


def eq(a, b):
    """a == b without forking; distributes over unions without regions (equality has no effects here)."""
    if type(a) is SymUnion:
        return mkbool(z_or(*[z_and(c, boolcond(eq(v, b))) for c, v in a.alts]))
    if type(b) is SymUnion:
        return mkbool(z_or(*[z_and(c, boolcond(eq(a, v))) for c, v in b.alts]))
    if a is UNBOUND or b is UNBOUND:
        return False
    if type(a) in (tuple, list) and type(b) is type(a):
        if len(a) != len(b):
            return False
        return mkbool(z_and(*[boolcond(eq(x, y)) for x, y in zip(a, b)]))
    r = (b == a) if type(a) is decimal.Decimal else (a == b)
    if type(r) is SymBool or r is True or r is False:
        return r
    return bool(r)


# -- floats ------------------------------------------------------------------------------------------------------------

class SymFloat(Sym):
    """A float that is an exact quotient num / den of moderate size."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num = num
        self.den = den

    @property
    def __class__(self):
        return float

    @staticmethod
    def make(num, den):
        if type(num) is SymFloat:
            return SymFloat.make(num.num, den * num.den)
        if den < 0:
            num, den = -num, -den
        lo, hi = bounds(num)
        if lo is None or hi is None or max(abs(lo), abs(hi)) >= 1 << 46 or den >= 1 << 20:
            unsupported('floating point beyond the exact range')
        if type(num) is int:
            return num / den
        return SymFloat(num, den)

    @staticmethod
    def of(x):
        if type(x) is SymFloat:
            return x
        if type(x) in (int, SymInt):
            return SymFloat(x, 1)
        if type(x) is float:
            f = fractions.Fraction(x)
            return SymFloat(f.numerator, f.denominator)
        raise TypeError(type(x))

    def sym_truth(self):
        return self.num != 0

    def __bool__(self):
        return bool(self.num != 0)

    def trunc(self):
        n, d = self.num, self.den
        lo, hi = bounds(n)
        if lo is not None and lo >= 0:
            return n // d
        q = n // d
        r = n % d
        return ite(z_and(boolcond(n < 0), boolcond(r != 0)), q + 1, q)

    def is_integer(self):
        return self.num % self.den == 0

    def __int__(self):
        return int(self.trunc())

    def __hash__(self):
        return hash(self.__float__())

    def __float__(self):
        return concretize(self.num) / self.den

    def __str__(self):
        return str(float(self))

    def __repr__(self):
        return 'SymFloat(/%d)' % self.den

    def __neg__(self):
        return SymFloat(-self.num, self.den)

    def __abs__(self):
        return SymFloat(abs(self.num), self.den)


def float_op(op, a, b):
    if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return NotImplemented
    if type(a) is SymUnion or type(b) is SymUnion:
        return lift(PYOPS[op], a, b)
    a, b = SymFloat.of(as_int(a)), SymFloat.of(as_int(b))
    if op == 'add':
        return SymFloat.make(a.num * b.den + b.num * a.den, a.den * b.den) if a.den != b.den else \
            SymFloat.make(a.num + b.num, a.den)
    if op == 'sub':
        return SymFloat.make(a.num * b.den - b.num * a.den, a.den * b.den) if a.den != b.den else \
            SymFloat.make(a.num - b.num, a.den)
    if op == 'mul':
        return SymFloat.make(a.num * b.num, a.den * b.den)
    if op == 'truediv':
        n = b.num
        if type(n) is SymInt:
            n = concretize(n)
        if n == 0:
            raise ZeroDivisionError('float division by zero')
        return SymFloat.make(a.num * b.den, a.den * n)
    if op == 'floordiv':
        n = b.num
        if type(n) is SymInt:
            n = concretize(n)
        if n == 0:
            raise ZeroDivisionError('float division by zero')
        x, y = a.num * b.den, a.den * n
        if y < 0:
            x, y = -x, -y
        return SymFloat.make(x // y, 1)
    if op == 'mod':
        q = float_op('floordiv', a, b)
        return float_op('sub', a, float_op('mul', q, b))
    unsupported('float ' + op)


def float_cmp(op, a, b):
    if type(b) is SymUnion:
        return lift(PYOPS[op], a, b)
    if isinstance(b, (decimal.Decimal,)):
        return dec_cmp(op, SymDec.of_float(a), b)
    if not isinstance(b, (int, float)):
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    a, b = SymFloat.of(as_int(a)), SymFloat.of(as_int(b))
    return PYOPS[op](a.num * b.den, b.num * a.den)


for _n, _d in (('add', '__add__'), ('sub', '__sub__'), ('mul', '__mul__'), ('truediv', '__truediv__'),
               ('floordiv', '__floordiv__'), ('mod', '__mod__')):
    setattr(SymFloat, _d, (lambda n: lambda self, o: float_op(n, self, o))(_n))
    setattr(SymFloat, '__r' + _d[2:], (lambda n: lambda self, o: float_op(n, o, self))(_n))
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(SymFloat, '__%s__' % _n, (lambda n: lambda self, o: float_cmp(n, self, o))(_n))


# -- if-then-else ------------------------------------------------------------------------------------------------------

def ite(cond, a, b):
    """cond: z3 Bool"""
    if z3.is_true(cond):
        return a
    if z3.is_false(cond):
        return b
    return merge([(cond, a), (z_not(cond), b)])


def merge_key(x):
    t = type(x)
    if t is int or t is SymInt:
        return 'int'
    if t is bool or t is SymBool:
        return 'bool'
    if t is decimal.Decimal:
        if not x.is_finite():
            return None
        return ('dec', x.as_tuple().exponent)
    if t is SymDec:
        return ('dec', x.e, x.loose) if x.loose else ('dec', x.e)
    if t is SymFloat:
        return ('float', x.den)
    if t is tuple:
        return ('tuple', len(x))
    if t is datetime.datetime or t is SymDT:
        return ('dt', id(x.tzinfo) if x.tzinfo is not None else None)
    if t is datetime.date or t is SymDate:
        return 'date'
    if t is datetime.timedelta or t is SymTD:
        return 'td'
    if t is datetime.time or t is SymTime:
        return 'time'
    if t is SymBytes or t is bytes:
        return ('bytes', len(x)) if len(x) else None
    if t is SymReal:
        return 'real'
    return None


def merge_same(key, members):
    """members: [(cond, value)] of one merge key"""
    if key == 'int':
        lo = hi = 0
        los = [bounds(x)[0] for _, x in members]
        his = [bounds(x)[1] for _, x in members]
        lo = None if None in los else min(los)
        hi = None if None in his else max(his)
        if any(type(x) is SymInt and x._e is None for _, x in members) and lo is not None and lo >= 0:
            bl = [const_bits(x) if type(x) is int else x.get_bits() for _, x in members]
            if all(b is not None for b in bl):
                n = max(len(b) for b in bl)
                bl = [list(b) + [ZERO_BIT] * (n - len(b)) for b in bl]
                out = []
                for i in range(n):
                    if all(b[i] == bl[0][i] for b in bl):
                        out.append(bl[0][i])
                    else:
                        z = bit_z(bl[-1][i])
                        for (c, _), b in list(zip(members, bl))[-2::-1]:
                            z = z3.If(c, bit_z(b[i]), z)
                        out.append((0, 0, z))
                return from_bits(out)
        e = ze(members[-1][1])
        for c, x in members[-2::-1]:
            e = z3.If(c, ze(x), e)
        return mkint(e, lo, hi)
    if key == 'bool':
        z = boolcond(members[-1][1])
        for c, x in members[-2::-1]:
            xz = boolcond(x)
            if z3.is_true(xz):
                z = z_or(c, z)
            elif z3.is_false(xz):
                z = z_and(z_not(c), z)
            elif z3.is_false(z):
                z = z_and(c, xz)
            else:
                z = z3.If(c, xz, z)
        return mkbool(z)
    if key[0] == 'dec':
        cs = []
        for c, x in members:
            if type(x) is SymDec:
                cs.append((c, x.c))
            else:
                cs.append((c, dec_parts(x)[0]))
        r = mkdec(merge(cs), key[1])
        if len(key) > 2 and type(r) is SymDec:
            r.loose = key[2]
        return r
    if key[0] == 'float':
        return SymFloat(merge([(c, x.num) for c, x in members]), key[1])
    if key[0] == 'tuple':
        return tuple(merge([(c, x[i]) for c, x in members]) for i in range(key[1]))
    if key[0] == 'bytes':
        return SymBytes([merge([(c, x[i]) for c, x in members]) for i in range(key[1])])
    if key[0] == 'dt':
        return merge_dt([(c, SymDT.of(x)) for c, x in members])
    if key == 'date':
        return SymDate(merge([(c, SymDate.of(x).ordinal) for c, x in members]))
    if key == 'td':
        return SymTD(merge([(c, SymTD.of(x).us) for c, x in members]))
    if key == 'time':
        ts = [(c, SymTime.of(x)) for c, x in members]
        return SymTime(*[merge([(c, getattr(x, f)) for c, x in ts]) for f in ('hour', 'minute', 'second', 'microsecond')])
    if key == 'real':
        e = members[-1][1].r
        for c, x in members[-2::-1]:
            e = z3.If(c, x.r, e)
        return SymReal(e)
    raise Abort('merge_same %r' % (key,))


# -- decimals ----------------------------------------------------------------------------------------------------------

def dec_parts(d):
    t = d.as_tuple()
    if not isinstance(t.exponent, int):
        unsupported('special decimal value')
    c = 0
    for x in t.digits:
        c = c * 10 + x
    return (-c if t.sign else c), t.exponent


def rhe_div(c, k):
    """c / k rounded half to even (k a positive int)."""
    if type(c) is int:
        q, r = divmod(c, k)
        if 2 * r > k or (2 * r == k and q & 1):
            q += 1
        return q
    if k == 1:
        return c
    q = c // k
    r = c - q * k if type(q) is int else mkint(c.e % k, 0, k - 1)
    up = z_or(boolcond(2 * r > k), z_and(boolcond(2 * r == k), boolcond(q % 2 == 1)))
    lo, hi = bounds(c)
    e = z3.If(up, ze(q) + 1, ze(q))
    return mkint(e, None if lo is None else rhe_div(lo, k), None if hi is None else rhe_div(hi, k))


def ceil_div(c, k):
    return -((-c) // k)


def round_div(c, k, rounding):
    if k == 1:
        return c
    if rounding == decimal.ROUND_HALF_EVEN:
        return rhe_div(c, k)
    if rounding == decimal.ROUND_CEILING:
        return ceil_div(c, k)
    if rounding == decimal.ROUND_FLOOR:
        return c // k
    neg = boolcond(c < 0)
    if rounding == decimal.ROUND_DOWN:
        return ite(neg, ceil_div(c, k), c // k)
    if rounding == decimal.ROUND_UP:
        return ite(neg, c // k, ceil_div(c, k))
    # half-up / half-down / 05up
    q = c // k
    r = c % k
    if rounding == decimal.ROUND_HALF_UP:
        up = ite(neg, 2 * r > k, 2 * r >= k)
        return ite(boolcond(up), q + 1, q)
    if rounding == decimal.ROUND_HALF_DOWN:
        up = ite(neg, 2 * r >= k, 2 * r > k)
        return ite(boolcond(up), q + 1, q)
    unsupported('rounding mode %s' % rounding)


LIMIT28 = 10 ** PREC


def mkdec(c, e):
    if type(c) is SymUnion:
        return lift(lambda x: mkdec(x, e), c)
    if type(c) is int or type(c) is bool:
        c = int(c)
        sign = 1 if c < 0 else 0
        return decimal.Decimal((sign, tuple(int(x) for x in str(abs(c))), e))
    return SymDec(c, e)


def dec_round(c, e):
    """Rounds coefficient c (times 10**e) to 28 significant digits as the default context does."""
    if type(c) is int:
        n = abs(c)
        if n < LIMIT28:
            return mkdec(c, e)
        k = len(str(n)) - PREC
        return dec_round(rhe_div(c, 10 ** k), e + k)
    lo, hi = c.lo, c.hi
    if lo is None or hi is None:
        unsupported('decimal without bounds')
    m = max(abs(lo), abs(hi))
    if m < LIMIT28:
        return SymDec(c, e)
    got = table_var((c,))
    if got is not None:
        return mktab(got[0], {v: dec_round(n, e) for v, n in values_of(c, *got).items()})
    mind = 0
    if lo > 0 or hi < 0:
        mind = len(str(min(abs(lo), abs(hi))))
    alts = []
    absc = abs(c)
    maxd = len(str(m))
    for d in range(max(mind, PREC), maxd + 1):
        k = d - PREC
        conds = []
        lo_d = 10 ** (d - 1)
        if k == 0:
            cond = boolcond(absc < LIMIT28)
            r = c
        else:
            cond = z_and(boolcond(absc >= lo_d), boolcond(absc < 10 ** d))
            # restrict the bounds of this case
            blo = max(lo, -(10 ** d - 1))
            bhi = min(hi, 10 ** d - 1)
            r = rhe_div(SymInt(c.e, blo, bhi), 10 ** k)
        if z3.is_false(cond):
            continue
        if not ENG.feasible(cond):
            continue
        if k == 0 and type(r) is SymInt:
            r = SymInt(r.e, max(lo, 1 - LIMIT28), min(hi, LIMIT28 - 1), r.bits)
        alts.append((cond, mkdec(r, e + k)))
    if not alts:
        from symx.engine import Infeasible
        raise Infeasible()
    return merge(alts)


class SymDec(Sym):
    """c * 10**e; loose: the real value has a larger exponent where its last digits are zero (an exact quotient)"""
    __slots__ = ('c', 'e', 'loose')

    def __init__(self, c, e, loose=0):
        self.c = c
        self.e = e
        self.loose = loose

    @property
    def __class__(self):
        return decimal.Decimal

    @staticmethod
    def of(x):
        t = type(x)
        if t is SymDec:
            return x
        if t is decimal.Decimal:
            return SymDec(*dec_parts(x))
        if t in (int, SymInt, bool, SymBool):
            return SymDec(as_int(x), 0)
        return None

    @staticmethod
    def of_float(x):
        x = SymFloat.of(x)
        d = x.den
        k = 0
        while d % 2 == 0:
            d //= 2
            k += 1
        if d != 1:
            unsupported('float to decimal')
        return SymDec(x.num * 5 ** k, -k)

    def sym_truth(self):
        return self.c != 0

    def __bool__(self):
        return bool(self.c != 0)

    def __repr__(self):
        return 'SymDec(%r, %d)' % (self.c, self.e)

    def concrete(self):
        c, e = concretize(self.c), self.e
        for _ in range(self.loose):
            if c % 10:
                break
            c, e = c // 10, e + 1
        return mkdec(c, e)

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        if self.loose < 0:
            unsupported('text of a decimal of unknown exponent')
        return str(self.concrete())

    def __format__(self, spec):
        if self.loose < 0:
            unsupported('text of a decimal of unknown exponent')
        return format(self.concrete(), spec)

    def __float__(self):
        return float(self.concrete())

    def __int__(self):
        return concretize(self.trunc())

    def trunc(self):
        if self.e >= 0:
            return self.c * 10 ** self.e
        return round_div(self.c, 10 ** -self.e, decimal.ROUND_DOWN)

    def __neg__(self):
        return dec_round(-self.c, self.e)

    def __pos__(self):
        return dec_round(self.c, self.e)

    def __abs__(self):
        return dec_round(abs(self.c), self.e)

    def copy_abs(self):
        return mkdec(abs(self.c), self.e)

    def is_zero(self):
        return self.c == 0

    def is_signed(self):
        return self.c < 0

    def is_nan(self):
        return False

    def is_finite(self):
        return True

    def is_infinite(self):
        return False

    def quantize(self, exp, rounding=None, context=None):
        if type(exp) is SymUnion:
            exp = force(exp)
        if type(exp) is int:
            exp = decimal.Decimal(exp)
        x = exp.e if type(exp) is SymDec else exp.as_tuple().exponent
        if rounding is None:
            rounding = decimal.ROUND_HALF_EVEN
        if x <= self.e:
            c = self.c * 10 ** (self.e - x)
        else:
            c = round_div(self.c, 10 ** (x - self.e), rounding)
        if type(c) is not int:
            lo, hi = bounds(c)
            if lo is None or hi is None:
                unsupported('decimal without bounds')
            if max(abs(lo), abs(hi)) >= LIMIT28:
                if not bool(abs(c) < LIMIT28):
                    raise decimal.InvalidOperation('quantize result has too many digits for current context')
        elif abs(c) >= LIMIT28:
            raise decimal.InvalidOperation('quantize result has too many digits for current context')
        return mkdec(c, x)

    def to_integral_value(self, rounding=None, context=None):
        return self.quantize(decimal.Decimal(1), rounding or decimal.ROUND_HALF_EVEN) if self.e < 0 else self

    to_integral = to_integral_value

    def __round__(self, n=None):
        if n is None:
            r = self.quantize(decimal.Decimal(1))
            return r.c if type(r) is SymDec else int(r)
        return self.quantize(decimal.Decimal(1).scaleb(-n))

    def __floor__(self):
        return round_div(self.c, 10 ** -self.e, decimal.ROUND_FLOOR) if self.e < 0 else self.c * 10 ** self.e

    def __ceil__(self):
        return round_div(self.c, 10 ** -self.e, decimal.ROUND_CEILING) if self.e < 0 else self.c * 10 ** self.e

    def max(self, o):
        return ite(boolcond(self >= o), self, o)

    def min(self, o):
        return ite(boolcond(self <= o), self, o)

    def compare(self, o):
        return mkdec(ite(boolcond(self < o), -1, ite(boolcond(self > o), 1, 0)), 0)

    def exp(self, context=None):
        return dec_fun('exp', self, lambda d: d.exp())

    def ln(self, context=None):
        return dec_fun('ln', self, lambda d: d.ln())

    def log10(self, context=None):
        return dec_fun('log10', self, lambda d: d.log10())

    def sqrt(self, context=None):
        return dec_fun('sqrt', self, lambda d: d.sqrt())

    def normalize(self, context=None):
        return self.concrete().normalize()

    def as_tuple(self):
        return self.concrete().as_tuple()

    def fma(self, a, b):
        return self * a + b

    def __pow__(self, o, m=None):
        if type(o) is decimal.Decimal and o == o.to_integral_value() and 0 <= o <= 16:
            o = int(o)
        if type(o) is int and 0 <= o <= 3 and self.e <= 0:
            # Integer powers are exact here as long as they fit the precision
            r = SymDec(1, 0)
            c = 1
            for _ in range(o):
                c = self.c * c
            lo, hi = bounds(c)
            if max(abs(lo), abs(hi)) < LIMIT28:
                return mkdec(c, self.e * o)
        o = force(o)
        if is_sym(o):
            o = concretize(o.c) if type(o) is SymDec else concretize(o)
        return dec_fun('pow', self, lambda d: d ** o)

    def __rpow__(self, o):
        return dec_fun('rpow', self, lambda d: o ** d)


TABLE_LIMIT = 6000
_ROOTS = {}


def root_of(e):
    """The id of the only constant of a term; 0: none; None: several or an uninterpreted function"""
    got = _ROOTS.get(e.get_id())
    if got is not None and got[0] is ENG.side:
        return got[1]
    todo = [e]
    seen = set()
    root = 0
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        known = _ROOTS.get(i)
        if known is not None and known[0] is ENG.side:
            r = known[1]
        elif x.num_args() == 0:
            r = i if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else 0
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = None
        else:
            todo.extend(x.children())
            continue
        if r is None or (r and root and r != root):
            root = None
            break
        root = root or r
    _ROOTS[e.get_id()] = (ENG.side, root, e)
    return root


def table_number(x):
    return type(x) in (SymTab, SymDec, SymInt, int) or type(x) is decimal.Decimal and x.is_finite()


def table_var(syms):
    """The input that all of these depend on, if it is one with few values"""
    root = 0
    for x in syms:
        c = x.c if type(x) is SymDec else x
        if type(x) is SymTab:
            r = x.var.get_id()
        elif type(c) is SymInt:
            r = root_of(c.e)
        else:
            continue
        if r is None or (r and root and r != root):
            return None
        root = root or r
    got = ENG.domains.get(root)
    if got is None or got[2] - got[1] > TABLE_LIMIT:
        return None
    return got


class Same(object):
    """A constant seen as a table"""

    def __init__(self, x):
        self.x = x

    def __getitem__(self, v):
        return self.x


_VALUES = {}


def eval_all(e, var, lo, hi):
    """The values of term e (a function of var) for var = lo..hi, evaluated node by node"""
    memo = _VALUES.get(var.get_id())
    if memo is None or memo[0] is not ENG.side:
        memo = _VALUES[var.get_id()] = (ENG.side, {})
    memo = memo[1]
    n = hi - lo + 1
    todo = [e]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in memo:
            todo.pop()
            continue
        kids = x.children()
        need = [k for k in kids if k.get_id() not in memo]
        if need:
            todo.extend(need)
            continue
        todo.pop()
        memo[i] = (apply_all(x, [memo[k.get_id()][0] for k in kids], var, lo, n), x)
    return memo[e.get_id()][0]


def remember(val, var, items):
    """val is a decision tree over var with these leaves"""
    got = ENG.domains.get(var.get_id())
    if got is None or type(val) is not SymDec or type(val.c) is not SymInt:
        return
    memo = _VALUES.get(var.get_id())
    if memo is None or memo[0] is not ENG.side:
        memo = _VALUES[var.get_id()] = (ENG.side, {})
    out = [items.get(v) for v in range(got[1], got[2] + 1)]
    if None in out:
        return
    memo[1][val.c.e.get_id()] = (out, val.c.e)


def fold(op, cols):
    out = cols[0]
    for c in cols[1:]:
        out = [op(a, b) for a, b in zip(out, c)]
    return out


def z3_mod(a, b):
    return a % abs(b)


def z3_div(a, b):
    q = a // abs(b)
    return q if b > 0 else -q


def apply_all(x, cols, var, lo, n):
    k = x.decl().kind()
    if z3.is_int_value(x):
        return [x.as_long()] * n
    if x.get_id() == var.get_id():
        return list(range(lo, lo + n))
    if k == z3.Z3_OP_ITE:
        return [a if c else b for c, a, b in zip(*cols)]
    if k in BOOL_CONST:
        return [BOOL_CONST[k]] * n
    if k == z3.Z3_OP_NOT:
        return [not a for a in cols[0]]
    if k == z3.Z3_OP_UMINUS:
        return [-a for a in cols[0]]
    if k == z3.Z3_OP_SUB and len(cols) == 1:
        return [-a for a in cols[0]]
    if k == z3.Z3_OP_DISTINCT:
        return [len(set(t)) == len(t) for t in zip(*cols)]
    op = NODE_OPS.get(k)
    if op is None:
        unsupported('table over %s' % x.decl().name())
    return fold(op, cols)


BOOL_CONST = {z3.Z3_OP_TRUE: True, z3.Z3_OP_FALSE: False}
NODE_OPS = {
    z3.Z3_OP_ADD: operator.add, z3.Z3_OP_SUB: operator.sub, z3.Z3_OP_MUL: operator.mul, z3.Z3_OP_IDIV: z3_div,
    z3.Z3_OP_MOD: z3_mod, z3.Z3_OP_LE: operator.le, z3.Z3_OP_LT: operator.lt, z3.Z3_OP_GE: operator.ge,
    z3.Z3_OP_GT: operator.gt, z3.Z3_OP_EQ: operator.eq, z3.Z3_OP_AND: lambda a, b: a and b,
    z3.Z3_OP_OR: lambda a, b: a or b, z3.Z3_OP_IMPLIES: lambda a, b: not a or b, z3.Z3_OP_XOR: operator.ne,
}


def values_of(x, var, lo, hi):
    """x (a function of var) for each value of var"""
    if type(x) is SymTab:
        return x.table
    c = x.c if type(x) is SymDec else x
    if type(c) is not SymInt:
        return Same(mkdec(c, x.e) if type(x) is SymDec else x)
    got = dict(enumerate(eval_all(c.e, var, lo, hi), lo))
    if type(x) is SymDec:
        return {v: mkdec(n, x.e) for v, n in got.items()}
    return got


_HOLDS = {}


def holds(c, var, lo, hi):
    """the values of var for which condition c holds"""
    got = _HOLDS.get(c.get_id())
    if got is None or got[0] is not ENG.side:
        vs = {n for n, h in enumerate(eval_all(c, var, lo, hi), lo) if h}
        got = _HOLDS[c.get_id()] = (ENG.side, vs, c)
    return got[1]


def table_tree(var, items):
    """items: sorted [(v, c)]"""
    if len(items) == 1 or items[0][1] == items[-1][1] and all(c == items[0][1] for _, c in items):
        return z3.IntVal(items[0][1])
    m = len(items) // 2
    return z3.If(var <= items[m - 1][0], table_tree(var, items[:m]), table_tree(var, items[m:]))


def among(var, vs):
    """var is one of the sorted values vs"""
    cs = []
    i = 0
    while i < len(vs):
        j = i
        while j + 1 < len(vs) and vs[j + 1] == vs[j] + 1:
            j += 1
        cs.append(var == vs[i] if i == j else z3.And(var >= vs[i], var <= vs[j]))
        i = j + 1
    return z_or(*cs)


def tabulate(f, *syms):
    """f of decimals that depend on one input with few values, as a table over that input; None if not applicable"""
    got = table_var(syms)
    if got is None:
        return None
    var, lo, hi = got
    table = {}
    errors = {}
    special = {}
    vals = [values_of(x, var, lo, hi) for x in syms]
    for v in range(lo, hi + 1):
        try:
            args = [x[v] for x in vals]
        except KeyError:
            continue
        try:
            r = f(*args)
        except (ArithmeticError, ValueError) as e:
            errors.setdefault(type(e), []).append(v)
            continue
        if not isinstance(r, decimal.Decimal):
            return None
        if not r.is_finite():
            special.setdefault(str(r), (r, []))[1].append(v)
            continue
        table[v] = r
    for t, vs in sorted(errors.items(), key=lambda x: x[0].__name__):
        if ENG.branch(among(var, vs)):
            raise t()
    rest = sorted(special.items())
    while rest:
        r, vs = rest.pop()[1]
        if not table and not rest or ENG.branch(among(var, vs)):
            return r
    if not table:
        return None
    return mktab(var, table)


def dec_fun(name, x, f):
    """A function of a finite-domain decimal: a table, or forks over its values."""
    r = tabulate(f, x)
    if r is not None:
        return r
    return f(mkdec(concretize(x.c, 2500), x.e))


def mktab(var, table):
    first = next(iter(table.values()))
    t = first.as_tuple()
    if all(x == first and x.as_tuple() == t for x in table.values()):
        return first
    return SymTab(var, table)


class SymTab(Sym):
    """A decimal that is a function of one input, given by its value for each value of that input"""
    __slots__ = ('var', 'table', '_dec')

    def __init__(self, var, table):
        self.var = var
        self.table = table
        self._dec = None

    @property
    def __class__(self):
        return decimal.Decimal

    def dec(self):
        """as SymDec (or a union of them): decision trees over the input"""
        if self._dec is None:
            groups = {}
            for v, r in self.table.items():
                c, e = dec_parts(r)
                groups.setdefault(e, []).append((v, c))
            out = []
            for e, items in sorted(groups.items()):
                cs = [c for _, c in items]
                val = mkdec(mkint(table_tree(self.var, items), min(cs), max(cs)), e)
                remember(val, self.var, dict(items))
                out.append((among(self.var, [v for v, _ in items]) if len(groups) > 1 else TRUE, val))
            self._dec = out
        out = self._dec
        if len(out) == 1:
            return out[0][1]
        live = [(c, v) for c, v in out if ENG.feasible(c)]
        return merge(live) if len(live) > 1 else live[0][1]

    def map(self, f):
        return tabulate(f, self)

    def where(self, f):
        return mkbool(among(self.var, [v for v, r in self.table.items() if f(r)]))

    def sym_truth(self):
        return self.where(lambda r: r != 0)

    def __bool__(self):
        return bool(self.sym_truth())

    def concrete(self):
        return force(self.dec()).concrete() if is_sym(force(self.dec())) else force(self.dec())

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __float__(self):
        return float(self.concrete())

    def trunc(self):
        ints = sorted((v, int(r)) for v, r in self.table.items())
        return mkint(table_tree(self.var, ints), min(n for _, n in ints), max(n for _, n in ints))

    def __neg__(self):
        return self.map(lambda r: -r)

    def __pos__(self):
        return self.map(lambda r: +r)

    def __abs__(self):
        return self.map(abs)

    def quantize(self, exp, rounding=None, context=None):
        exp = force(exp)
        exp = exp.concrete() if is_sym(exp) else decimal.Decimal(exp)
        return self.map(lambda r: r.quantize(exp, rounding=rounding))

    def __round__(self, n=None):
        if n is None:
            ints = sorted((v, round(r)) for v, r in self.table.items())
            return mkint(table_tree(self.var, ints), min(n for _, n in ints), max(n for _, n in ints))
        return self.map(lambda r: round(r, n))

    def __pow__(self, o, m=None):
        return tabulate(lambda a, b: a ** b, self, o) if table_var((self, o)) else dec_pow(self.dec(), o)

    def __rpow__(self, o):
        return tabulate(lambda a, b: b ** a, self, o) if table_var((self, o)) else dec_pow(o, self.dec())

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('exp', 'ln', 'log10', 'sqrt', 'normalize', 'copy_abs', 'copy_negate', 'to_integral_value'):
            return lambda *a, **k: self.map(lambda r: getattr(r, name)(*a, **k))
        d = force(self.dec())
        return getattr(d, name)


def dec_pow(a, b):
    return lift(lambda x, y: x ** y, a, b)


def dec_op(op, a, b):
    if type(a) is SymTab or type(b) is SymTab:
        if table_number(a) and table_number(b):
            r = tabulate(PYOPS[op], a, b)
            if r is not None:
                return r
        a = a.dec() if type(a) is SymTab else a
        b = b.dec() if type(b) is SymTab else b
        return PYOPS[op](a, b)
    if type(a) is SymUnion or type(b) is SymUnion:
        return lift(PYOPS[op], a, b)
    if type(a) is SymReal or type(b) is SymReal:
        return real_op(op, a, b)
    x, y = SymDec.of(a), SymDec.of(b)
    if x is None or y is None:
        return NotImplemented
    if (x.loose or y.loose) and op != 'floordiv':
        x, y = SymDec(x.c, x.e), SymDec(y.c, y.e)
        r = dec_op(op, x, y)
        if type(r) is SymDec:
            r.loose = -1
        return r
    if op in ('add', 'sub'):
        # A Decimal operation rounds ints operands exactly, so only the result is rounded
        e = min(x.e, y.e)
        ca = x.c * 10 ** (x.e - e)
        cb = y.c * 10 ** (y.e - e)
        return dec_round(ca + cb if op == 'add' else ca - cb, e)
    if op == 'mul':
        return dec_round(x.c * y.c, x.e + y.e)
    if op == 'truediv':
        return dec_div(x, y)
    if op == 'floordiv' or op == 'mod':
        if type(y.c) is SymInt:
            y = SymDec(concretize(y.c), y.e)
        if y.c == 0:
            raise decimal.DivisionByZero() if op == 'floordiv' else decimal.InvalidOperation()
        e = min(x.e, y.e)
        ca = x.c * 10 ** (x.e - e)
        cb = y.c * 10 ** (y.e - e)
        sign = 1 if cb > 0 else -1
        q = round_div(ca * sign, abs(cb), decimal.ROUND_DOWN)
        if op == 'floordiv':
            return dec_round(q, 0)
        return dec_round(ca - q * cb, e)
    unsupported('decimal ' + op)


def dec_div(x, y):
    if type(y.c) is SymInt:
        lo, hi = bounds(y.c)
        r = tabulate(lambda a, b: a / b, x, y)
        if r is not None:
            return r
        if lo is not None and hi is not None and hi - lo <= ENUM_LIMIT:
            y = SymDec(concretize(y.c), y.e)
        else:
            return real_op('truediv', x, y)
    if y.c == 0:
        if type(x.c) is int:
            raise (decimal.DivisionByZero if x.c else decimal.InvalidOperation)()
        if bool(x.c == 0):
            raise decimal.InvalidOperation()
        raise decimal.DivisionByZero()
    n, d = x.c, y.c
    e = x.e - y.e
    if d < 0:
        n, d = -n, -d
    if type(n) is int:
        return mkdec(n, x.e) / mkdec(y.c, y.e)
    # Exactly representable quotients: d divides a power of ten
    k = 0
    p = 1
    while p % d and k <= 30:
        k += 1
        p *= 10
    if p % d == 0:
        r = dec_round(n * (p // d), e - k)
        if k and type(r) is SymDec:
            r.loose = k
        return r
    r = tabulate(lambda a, b: a / b, x, y)
    if r is not None:
        return r
    # Otherwise round to 28 digits; the scaling depends on the magnitude of the quotient
    lo, hi = bounds(n)
    if lo is None or hi is None:
        unsupported('decimal without bounds')
    m = max(abs(lo), abs(hi))
    absn = abs(n)
    alts = []
    z = boolcond(n == 0)
    if not z3.is_false(z) and ENG.feasible(z):
        alts.append((z, mkdec(0, e)))
    # |n| / d in [10**(j-1), 10**j)
    maxj = len(str(m // d)) if m // d else 0
    j = maxj
    while True:
        # smallest |n| in this class
        if j >= 1:
            a0 = d * 10 ** (j - 1)
        else:
            a0 = -(-d // 10 ** (1 - j))
        b0 = d * 10 ** j if j >= 0 else -(-d // 10 ** (-j))
        cond = z_and(boolcond(absn >= a0), boolcond(absn < b0), boolcond(n != 0))
        if not z3.is_false(cond) and ENG.feasible(cond):
            s = PREC - j
            r = rhe_div(SymInt(n.e, max(lo, -b0), min(hi, b0)) * 10 ** s, d)
            alts.append((cond, mkdec(r, e - s)))
        if a0 <= 1:
            break
        j -= 1
    return merge(alts)


def dec_cmp(op, a, b):
    if type(a) is SymTab or type(b) is SymTab:
        if table_number(a) and table_number(b):
            got = table_var((a, b))
            if got is not None:
                var, lo, hi = got
                x, y = values_of(a, var, lo, hi), values_of(b, var, lo, hi)
                keys = [v for v in range(lo, hi + 1) if all(v in t.table for t in (a, b) if type(t) is SymTab)]
                return mkbool(among(var, [v for v in keys if PYOPS[op](x[v], y[v])]))
        a = a.dec() if type(a) is SymTab else a
        b = b.dec() if type(b) is SymTab else b
        return PYOPS[op](a, b)
    if type(a) is SymUnion or type(b) is SymUnion:
        return lift(PYOPS[op], a, b)
    if type(b) is SymReal or type(a) is SymReal:
        return real_cmp(op, a, b)
    if isinstance(b, float):
        b = SymDec.of_float(b)
    if type(b) is decimal.Decimal and not b.is_finite():
        if b.is_infinite():
            s = 1 if b > 0 else -1
            return {'eq': False, 'ne': True, 'lt': s > 0, 'le': s > 0, 'gt': s < 0, 'ge': s < 0}[op]
        return op == 'ne'
    x, y = SymDec.of(a), SymDec.of(b)
    if x is None or y is None:
        if op == 'eq':
            return NotImplemented if isinstance(b, Sym) else False
        if op == 'ne':
            return NotImplemented if isinstance(b, Sym) else True
        return NotImplemented
    e = min(x.e, y.e)
    return PYOPS[op](x.c * 10 ** (x.e - e), y.c * 10 ** (y.e - e))


for _n, _d in (('add', '__add__'), ('sub', '__sub__'), ('mul', '__mul__'), ('truediv', '__truediv__'),
               ('floordiv', '__floordiv__'), ('mod', '__mod__')):
    setattr(SymTab, _d, (lambda n: lambda self, o: dec_op(n, self, o))(_n))
    setattr(SymTab, '__r' + _d[2:], (lambda n: lambda self, o: dec_op(n, o, self))(_n))
    setattr(SymDec, _d, (lambda n: lambda self, o: dec_op(n, self, o))(_n))
    setattr(SymDec, '__r' + _d[2:], (lambda n: lambda self, o: dec_op(n, o, self))(_n))
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(SymDec, '__%s__' % _n, (lambda n: lambda self, o: dec_cmp(n, self, o))(_n))
    setattr(SymTab, '__%s__' % _n, (lambda n: lambda self, o: dec_cmp(n, self, o))(_n))


# -- reals (decimals whose 28-digit rounding is abstracted) --------------------------------------------------------------

class SymReal(Sym):
    """A Decimal computed in ideal real arithmetic: the rounding to 28 digits is abstracted (stated in the evidence)."""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r

    @property
    def __class__(self):
        return decimal.Decimal

    def sym_truth(self):
        return mkbool(self.r != 0)

    def __bool__(self):
        return ENG.branch(self.r != 0)

    def __hash__(self):
        unsupported('hash of a real')

    def __neg__(self):
        return SymReal(-self.r)

    def __abs__(self):
        return SymReal(z3.If(self.r >= 0, self.r, -self.r))

    def quantize(self, exp, rounding=None, context=None):
        x = exp.e if type(exp) is SymDec else exp.as_tuple().exponent
        rounding = rounding or decimal.ROUND_HALF_EVEN
        scaled = self.r * z3.RealVal(fractions.Fraction(10) ** -x)
        fl = z3.ToInt(scaled)
        if rounding == decimal.ROUND_FLOOR:
            c = fl
        elif rounding == decimal.ROUND_CEILING:
            c = -z3.ToInt(-scaled)
        elif rounding == decimal.ROUND_HALF_EVEN:
            frac2 = 2 * (scaled - z3.ToReal(fl))
            c = z3.If(z3.Or(frac2 > 1, z3.And(frac2 == 1, fl % 2 == 1)), fl + 1, fl)
        else:
            unsupported('rounding of a real')
        return SymDec(SymInt(c, -10 ** 27, 10 ** 27), x)

    def exp(self, context=None):
        return real_fun('exp', self)

    def ln(self, context=None):
        return real_fun('ln', self)

    def sqrt(self, context=None):
        return real_fun('sqrt', self)

    def __pow__(self, o, m=None):
        if type(o) is decimal.Decimal and o == int(o):
            o = int(o)
        if type(o) is int and 0 <= o <= 20:
            r = z3.RealVal(1)
            for _ in range(o):
                r = r * self.r
            return SymReal(r)
        return real_fun2('pow', self, o)

    def __rpow__(self, o):
        return real_fun2('pow', o, self)


REAL_FUNS = {}


def real_of(x):
    t = type(x)
    if t is SymTab:
        x = force(x.dec())
        t = type(x)
    if t is SymReal:
        return x.r
    if t is SymDec:
        r = z3.ToReal(ze(x.c))
        f = fractions.Fraction(10) ** x.e
        return r * z3.RealVal(f)
    if t is decimal.Decimal:
        c, e = dec_parts(x)
        return z3.RealVal(c * fractions.Fraction(10) ** e)
    if t is SymInt:
        return z3.ToReal(x.e)
    if t is int:
        return z3.RealVal(x)
    raise TypeError(t)


def real_fun(name, x):
    f = REAL_FUNS.get(name)
    if f is None:
        f = REAL_FUNS[name] = z3.Function('real_' + name, z3.RealSort(), z3.RealSort())
    return SymReal(f(canon_real(real_of(x))))


def real_fun2(name, x, y):
    f = REAL_FUNS.get((name, 2))
    if f is None:
        f = REAL_FUNS[(name, 2)] = z3.Function('real2_' + name, z3.RealSort(), z3.RealSort(), z3.RealSort())
    return SymReal(f(canon_real(real_of(x)), canon_real(real_of(y))))


def canon_real(e):
    return z3.simplify(e, som=True, sort_sums=True)


def real_op(op, a, b):
    if type(a) is SymUnion or type(b) is SymUnion:
        return lift(PYOPS[op], a, b)
    try:
        x, y = real_of(a), real_of(b)
    except TypeError:
        return NotImplemented
    if op == 'add':
        return SymReal(x + y)
    if op == 'sub':
        return SymReal(x - y)
    if op == 'mul':
        return SymReal(x * y)
    if op == 'truediv':
        if ENG.branch(y == 0):
            raise decimal.DivisionByZero()
        return SymReal(x / y)
    unsupported('real ' + op)


def real_cmp(op, a, b):
    try:
        x, y = real_of(a), real_of(b)
    except TypeError:
        return op == 'ne' if op in ('eq', 'ne') else NotImplemented
    return mkbool(PYOPS[op](x, y))


for _n, _d in (('add', '__add__'), ('sub', '__sub__'), ('mul', '__mul__'), ('truediv', '__truediv__')):
    setattr(SymReal, _d, (lambda n: lambda self, o: real_op(n, self, o))(_n))
    setattr(SymReal, '__r' + _d[2:], (lambda n: lambda self, o: real_op(n, o, self))(_n))
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(SymReal, '__%s__' % _n, (lambda n: lambda self, o: real_cmp(n, self, o))(_n))


# -- bytes -------------------------------------------------------------------------------------------------------------

class SymBytes(Sym):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b  # list of int / SymInt

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def of(x):
        if type(x) is SymBytes:
            return x
        if isinstance(x, (bytes, bytearray)):
            return SymBytes(list(x))
        return None

    def simplify(self):
        if all(type(x) is int for x in self.b):
            return bytes(self.b)
        return self

    def sym_truth(self):
        return len(self.b) > 0

    def __bool__(self):
        return len(self.b) > 0

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(self.b)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBytes(self.b[k]).simplify()
        return self.b[k]

    def __add__(self, o):
        o = SymBytes.of(o)
        if o is None:
            return NotImplemented
        return SymBytes(self.b + o.b).simplify()

    def __radd__(self, o):
        o = SymBytes.of(o)
        if o is None:
            return NotImplemented
        return SymBytes(o.b + self.b).simplify()

    def __mul__(self, n):
        return SymBytes(self.b * n)

    def __eq__(self, o):
        o = SymBytes.of(o) if not isinstance(o, SymUnion) else o
        if o is None:
            return False
        if type(o) is SymUnion:
            return eq(self, o)
        if len(o.b) != len(self.b):
            return False
        return mkbool(z_and(*[boolcond(eq(x, y)) for x, y in zip(self.b, o.b)]))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        return hash(bytes(concretize(x) for x in self.b))

    def __bytes__(self):
        return bytes(concretize(x) for x in self.b)

    def __repr__(self):
        return 'SymBytes(%d)' % len(self.b)

    def __contains__(self, x):
        if isinstance(x, int):
            return bool(mkbool(z_or(*[boolcond(eq(y, x)) for y in self.b])))
        unsupported('bytes in')

    def startswith(self, p):
        return SymBytes(self.b[:len(p)]) == p

    def endswith(self, p):
        return SymBytes(self.b[-len(p):]) == p if p else True

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        chars = []
        for x in self.b:
            if enc in ('ascii', 'us-ascii', 'utf-8', 'utf8') and not bool(x < 128):
                if enc.startswith('utf'):
                    unsupported('utf-8 decoding of symbolic bytes')
                raise UnicodeDecodeError(encoding, b'?', 0, 1, 'ordinal not in range')
            chars.append(x)
        return mkstr([('char', c) for c in chars])

    def hex(self):
        return bytes(self).hex()

    def find(self, sub, start=0):
        return bytes(self).find(sub, start)


# -- strings -----------------------------------------------------------------------------------------------------------

def mkstr(parts):
    out = []
    for p in parts:
        if type(p) is str:
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        elif type(p) is SymUnion:
            out.extend(SymStr.of(force(p)).parts)
        elif p[0] == 'char' and type(p[1]) is int:
            if out and isinstance(out[-1], str):
                out[-1] += chr(p[1])
            else:
                out.append(chr(p[1]))
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


class SymStr(Sym):
    """A string made of literal text, ('char', code), ('text', value) [str() of a symbolic number], ('quoted', SymStr)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    @property
    def __class__(self):
        return str

    @staticmethod
    def of(x):
        if type(x) is SymStr:
            return x
        if type(x) is SymUnion:
            x = force(x)
            if type(x) is SymStr:
                return x
        if isinstance(x, str):
            return SymStr([x] if x else [])
        return None

    def chars(self):
        """list of int/SymInt code points, or None if some part has no fixed length"""
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.extend(ord(c) for c in p)
            elif p[0] == 'char':
                out.append(p[1])
            else:
                return None
        return out

    @staticmethod
    def from_chars(cs):
        return mkstr([('char', c) for c in cs])

    def atoms(self):
        """characters (int/SymInt) and numbers of unknown length (parts)"""
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.extend(ord(c) for c in p)
            elif p[0] == 'char':
                out.append(p[1])
            elif p[0] == 'text':
                out.append(p)
            else:
                return None
        return out

    @staticmethod
    def from_atoms(cs):
        return mkstr([c if type(c) is tuple else ('char', c) for c in cs])

    def need_chars(self):
        c = self.chars()
        if c is None:
            # Make symbolic numbers concrete by forking
            parts = []
            for p in self.parts:
                if not isinstance(p, str) and p[0] == 'text':
                    parts.append(str_of_number(p[1]))
                elif not isinstance(p, str) and p[0] == 'quoted':
                    import urllib.parse
                    inner = p[1].need_chars() if type(p[1]) is SymStr else p[1]
                    s = ''.join(chr(concretize(x)) for x in inner) if not isinstance(inner, str) else inner
                    parts.append(urllib.parse.quote(s, safe=p[2]))
                else:
                    parts.append(p)
            c = SymStr.of(mkstr(parts)).chars()
            if c is None:
                unsupported('text of unknown length')
        return c

    def sym_truth(self):
        return self.__bool__()

    def __bool__(self):
        return any(True for p in self.parts)

    def __len__(self):
        return len(self.need_chars())

    def __iter__(self):
        return iter([SymStr.from_chars([c]) for c in self.need_chars()])

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and self.chars() is None:
            a = self.atoms()
            if a is not None:
                lo, hi = k.start or 0, k.stop
                opaque = [i for i, c in enumerate(a) if type(c) is tuple]
                if type(lo) is int and 0 <= lo <= opaque[0]:
                    if hi is None:
                        return SymStr.from_atoms(a[lo:])
                    if type(hi) is int and 0 <= hi <= opaque[0]:
                        return SymStr.from_atoms(a[lo:hi])
                    if type(hi) is int and hi < 0 and len(a) + hi > opaque[-1]:
                        return SymStr.from_atoms(a[lo:hi])
        c = self.need_chars()
        if isinstance(k, slice):
            return SymStr.from_chars(c[k])
        return SymStr.from_chars([c[k]])

    def __add__(self, o):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        return mkstr(self.parts + o.parts)

    def __radd__(self, o):
        o = SymStr.of(o)
        if o is None:
            return NotImplemented
        return mkstr(o.parts + self.parts)

    def __mul__(self, n):
        return mkstr(self.parts * n)

    def __eq__(self, o):
        if type(o) is SymUnion:
            return eq(self, o)
        o = SymStr.of(o)
        if o is None:
            return False
        a, b = self.chars(), o.chars()
        if a is None or b is None:
            if len(self.parts) == len(o.parts) and all(part_same(x, y) for x, y in zip(self.parts, o.parts)):
                return True
            r = texts_equal(self, o)
            if r is not None:
                return r
            a, b = self.need_chars(), o.need_chars()
        if len(a) != len(b):
            return False
        return mkbool(z_and(*[boolcond(eq(x, y)) for x, y in zip(a, b)]))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def concrete(self):
        return ''.join(chr(concretize(c)) for c in self.need_chars())

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return 'SymStr(%r)' % (self.parts,)

    def __lt__(self, o):
        return self.concrete() < o

    def __gt__(self, o):
        return self.concrete() > o

    def __mod__(self, o):
        return self.concrete() % o

    def __contains__(self, o):
        if type(o) is str and o:
            return len(self.split(o, 1)) > 1
        return self.find(o) >= 0

    def encode(self, encoding='utf-8', errors='strict'):
        out = []
        enc = encoding.lower().replace('_', '-')
        for c in self.need_chars():
            if enc in ('utf-8', 'utf8', 'ascii', 'us-ascii'):
                if not bool(c < 128):
                    if enc.startswith('utf'):
                        out.extend(chr(concretize(c)).encode('utf-8'))
                        continue
                    raise UnicodeEncodeError(encoding, '?', 0, 1, 'ordinal not in range(128)')
            elif enc in ('latin-1', 'iso-8859-1', 'latin1'):
                if not bool(c < 256):
                    raise UnicodeEncodeError(encoding, '?', 0, 1, 'ordinal not in range(256)')
            out.append(c)
        return SymBytes(out).simplify()

    def _at(self, chars, i, sub):
        if i + len(sub) > len(chars):
            return False
        if any(type(c) is tuple for c in chars[i:i + len(sub)]):
            return False
        return bool(mkbool(z_and(*[boolcond(eq(chars[i + j], ord(s))) for j, s in enumerate(sub)])))

    def find(self, sub, start=0):
        sub = str(sub)
        cs = self.need_chars()
        for i in range(start, len(cs) - len(sub) + 1):
            if self._at(cs, i, sub):
                return i
        return -1

    def index(self, sub):
        i = self.find(sub)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rfind(self, sub):
        sub = str(sub)
        cs = self.need_chars()
        for i in range(len(cs) - len(sub), -1, -1):
            if self._at(cs, i, sub):
                return i
        return -1

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(bool(self.startswith(x)) for x in p)
        a = self.atoms()
        if a is not None and self.chars() is None and type(p) is str:
            head = a[:len(p)]
            n = len([c for c in head if type(c) is not tuple])
            if n == len(head) == len(p):
                return self._at(a, 0, p)
        return SymStr.of(self[:len(p)]) == p

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(bool(self.endswith(x)) for x in p)
        return SymStr.of(self[-len(p):]) == p if p else True

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concrete().split(None, maxsplit)
        cs = self.chars()
        if cs is None and not NUMERIC & set(sep):
            cs = self.atoms()
        if cs is None:
            cs = self.need_chars()
        out = []
        cur = []
        i = 0
        while i < len(cs):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(cs, i, sep):
                out.append(SymStr.from_atoms(cur))
                cur = []
                i += len(sep)
            else:
                cur.append(cs[i])
                i += 1
        out.append(SymStr.from_atoms(cur))
        return out

    def partition(self, sep):
        r = self.split(sep, 1)
        if len(r) == 1:
            return (self, '', '')
        return (r[0], sep, r[1])

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        return self.concrete().rsplit(sep, maxsplit)

    def splitlines(self, keepends=False):
        cs = self.need_chars()
        out = []
        cur = []
        i = 0
        while i < len(cs):
            c = cs[i]
            if type(c) is int and c not in (10, 13, 11, 12, 28, 29, 30, 133, 8232, 8233):
                cur.append(c)
                i += 1
                continue
            nl = mkbool(z_or(*[boolcond(eq(c, k)) for k in (10, 13, 11, 12, 28, 29, 30, 133, 8232, 8233)]))
            if bool(nl):
                end = [c]
                if bool(eq(c, 13)) and i + 1 < len(cs) and bool(eq(cs[i + 1], 10)):
                    end.append(cs[i + 1])
                    i += 1
                out.append(SymStr.from_chars(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(SymStr.from_chars(cur))
        return out

    def _strip(self, left, right, what):
        cs = list(self.need_chars())

        def hit(c):
            if what is None:
                if type(c) is int:
                    return chr(c).isspace()
                return bool(mkbool(z_or(z_and(boolcond(c >= 9), boolcond(c <= 13)), boolcond(eq(c, 32)),
                                        z_and(boolcond(c >= 28), boolcond(c <= 31)), boolcond(eq(c, 133)),
                                        boolcond(eq(c, 160)))))
            return bool(mkbool(z_or(*[boolcond(eq(c, ord(k))) for k in what])))
        while left and cs and hit(cs[0]):
            cs.pop(0)
        while right and cs and hit(cs[-1]):
            cs.pop()
        return SymStr.from_chars(cs)

    def strip(self, what=None):
        return self._strip(True, True, what)

    def lstrip(self, what=None):
        return self._strip(True, False, what)

    def rstrip(self, what=None):
        return self._strip(False, True, what)

    def lower(self):
        return SymStr.from_chars([ord(chr(c).lower()) if type(c) is int else
                                  ite(z_and(boolcond(c >= 65), boolcond(c <= 90)), c + 32, c) for c in self.need_chars()])

    def upper(self):
        return SymStr.from_chars([ord(chr(c).upper()) if type(c) is int else
                                  ite(z_and(boolcond(c >= 97), boolcond(c <= 122)), c - 32, c) for c in self.need_chars()])

    def isdigit(self):
        cs = self.need_chars()
        return len(cs) > 0 and bool(mkbool(z_and(*[z_and(boolcond(c >= 48), boolcond(c <= 57)) for c in cs])))

    def replace(self, a, b):
        return mkstr([p for i, s in enumerate(self.split(a)) for p in (([b] if i else []) + SymStr.of(s).parts)])

    def join(self, it):
        unsupported('join with a symbolic separator')

    def format(self, *a, **k):
        from symx import hooks
        return hooks.str_format(self.concrete(), a, k)

    def zfill(self, n):
        return mkstr(['0' * max(0, n - len(self))] + self.parts)

    def to_int(self, base=10):
        if base == 10 and len(self.parts) == 1 and self.parts[0][0] == 'text' and type(self.parts[0][1]) is SymInt:
            return self.parts[0][1]
        cs = list(self.need_chars())
        s = self._strip(True, True, None)
        s = SymStr.of(s)
        cs = s.chars()
        if not cs:
            raise ValueError('invalid literal for int()')
        neg = False
        if len(cs) > 1 and bool(mkbool(z_or(boolcond(eq(cs[0], 45)), boolcond(eq(cs[0], 43))))):
            neg = bool(eq(cs[0], 45))
            cs = cs[1:]
        v = 0
        for c in cs:
            d = None
            if base == 16:
                isd = z_and(boolcond(c >= 48), boolcond(c <= 57))
                isu = z_and(boolcond(c >= 65), boolcond(c <= 70))
                isl = z_and(boolcond(c >= 97), boolcond(c <= 102))
                if not ENG.branch(z_or(isd, isu, isl)):
                    raise ValueError('invalid literal for int() with base 16')
                d = ite(isd, c - 48, ite(isu, c - 55, c - 87))
            else:
                if not ENG.branch(z_and(boolcond(c >= 48), boolcond(c <= 47 + base))):
                    raise ValueError('invalid literal for int() with base %d' % base)
                d = c - 48
            if type(d) is SymInt:
                d = SymInt(d.e, 0, base - 1)
            v = v * base + d
        return -v if neg else v


NUMERIC = set('0123456789.+-Ee')


def texts_equal(a, b):
    """The condition for two texts with numbers in them to be equal if they have the same structure; None: unknown"""
    if len(a.parts) == 1 and isinstance(b.parts[0] if len(b.parts) == 1 else None, str):
        return text_is(a.parts[0], b.parts[0])
    if len(b.parts) == 1 and isinstance(a.parts[0] if len(a.parts) == 1 else None, str):
        return text_is(b.parts[0], a.parts[0])
    x, y = a.atoms(), b.atoms()
    if x is None or y is None or len(x) != len(y):
        return None
    cs = []
    for i, (p, q) in enumerate(zip(x, y)):
        if (type(p) is tuple) != (type(q) is tuple):
            return None
        if type(p) is tuple:
            for z in (x, y):
                for j in (i - 1, i + 1):
                    if 0 <= j < len(z) and (type(z[j]) is not int or chr(z[j]) in NUMERIC):
                        return None
            v, w = p[1], q[1]
            if type(v) is not type(w) or type(v) not in (SymInt, SymDec):
                return None
            if type(v) is SymDec and v.e != w.e:
                return False
            cs.append(boolcond(v == w))
        else:
            cs.append(boolcond(eq(p, q)))
    return mkbool(z_and(*cs))


def text_is(part, s):
    """The condition for a number to be written as s"""
    if isinstance(part, str):
        return part == s
    if part[0] != 'text':
        return None
    v = part[1]
    if type(v) is SymInt:
        try:
            n = int(s)
        except ValueError:
            return False
        return v == n if str(n) == s else False
    if type(v) is SymDec:
        if v.loose:
            unsupported('text of a decimal of unknown exponent')
        try:
            n = decimal.Decimal(s)
        except decimal.InvalidOperation:
            return False
        if not n.is_finite() or str(n) != s or n.as_tuple().exponent != v.e:
            return False
        return v == n
    return None


def part_same(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return isinstance(x, str) and isinstance(y, str) and x == y
    if x[0] != y[0]:
        return False
    if x[0] == 'char':
        return type(x[1]) is SymInt and type(y[1]) is SymInt and x[1].e.get_id() == y[1].e.get_id()
    if x[0] == 'text':
        return text_same(x[1], y[1])
    if x[0] == 'quoted':
        a, b = SymStr.of(x[1]), SymStr.of(y[1])
        return x[2] == y[2] and len(a.parts) == len(b.parts) and all(part_same(p, q) for p, q in zip(a.parts, b.parts))
    return x is y


def text_same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is SymInt:
        return ENG.must(boolcond(a == b))
    if type(a) is SymDec:
        if a.loose or b.loose:
            if a is b:
                return True
            unsupported('text of a decimal of unknown exponent')
        return a.e == b.e and ENG.must(boolcond(a.c == b.c))
    if type(a) is SymFloat:
        return ENG.must(boolcond(a == b))
    if type(a) is SymDT:
        return ENG.must(boolcond(a == b))
    return a is b


def str_of_number(x):
    if type(x) is SymUnion:
        x = force(x)
    if type(x) is SymInt:
        return str(concretize(x))
    if type(x) is SymDec:
        return str(x.concrete())
    if type(x) is SymFloat:
        return str(float(x))
    return str(x)


def stripped(x):
    """The exact exponents of a quotient"""
    if x.loose < 0:
        unsupported('text of a decimal of unknown exponent')
    out = []
    c = x.c
    for k in range(x.loose + 1):
        cond = TRUE if not k else boolcond(c % 10 ** k == 0)
        if k < x.loose:
            cond = z_and(cond, boolcond(c % 10 ** (k + 1) != 0))
        out.append((cond, mkdec(c // 10 ** k, x.e + k)))
    return merge([(c, v) for c, v in out if ENG.feasible(c)])


def to_str(x):
    """str(x)"""
    if type(x) is SymTab:
        x = x.dec()
    if type(x) is SymDec and x.loose > 0:
        return to_str(stripped(x))
    if type(x) is SymUnion:
        return lift(to_str, x)
    if type(x) is SymStr:
        return x
    if type(x) in (SymInt, SymDec, SymFloat):
        return SymStr([('text', x)])
    if type(x) is SymBool:
        return ite(x.z, 'True', 'False')
    if type(x) is SymBytes:
        return SymStr([('opaque', x)])
    if isinstance(x, Sym):
        return SymStr([('opaque', x)])
    return str(x)


from symx.dates import SymDT, SymDate, SymTD, SymTime, merge_dt  # noqa: E402  (mutually dependent)
