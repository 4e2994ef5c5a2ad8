"""Models of builtins and library functions for symbolic arguments."""
import builtins
import collections
import copy
import datetime
import decimal
import enum
import functools
import io
import itertools
import math
import operator
import statistics
import struct
import sys
import threading
import types
import urllib.parse

import z3

from symx import dates, hooks
from symx import values as V
from symx.engine import ENG, FALSE, TRUE, Abort, Control, Infeasible, z_and, z_not, z_or
from symx.merge import UNBOUND, Frame, Opt, Ret, merge
from symx.values import Sym, SymBool, SymBytes, SymDec, SymFloat, SymInt, SymStr, SymUnion, boolcond, force, lift, mkbool

MODELS = {}
ALWAYS = {}      # called even when no argument is symbolic


def model(*fs, **kw):
    def deco(g):
        for f in fs:
            (ALWAYS if kw.get('always') else MODELS)[id(f)] = (f, g)
        return g
    return deco


def any_sym(a, k):
    for x in a:
        if _deepish(x):
            return True
    for x in k.values():
        if _deepish(x):
            return True
    return False


def _deepish(x):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if t is tuple or isinstance(x, list):
        for y in x:
            ty = type(y)
            if issubclass(ty, Sym) or ty is Opt:
                return True
            if (ty is tuple or ty is list) and _deepish(y):
                return True
    elif isinstance(x, dict):
        for y in dict.values(x):
            ty = type(y)
            if issubclass(ty, Sym) or ty is Opt:
                return True
        for y in dict.keys(x):
            if V.deep_sym(y):
                return True
    elif t is hooks.LazyGen:
        return True
    elif isinstance(x, collections.deque):
        return any(issubclass(type(y), Sym) or type(y) is Opt or V.deep_sym(y) for y in x)
    elif t is hooks.SymRange:
        return True
    elif t is hooks.SSet:
        return hooks.has_sym_keys(x)
    return False


def dispatch(f, a, k):
    m = ALWAYS.get(id(f))
    if m is not None and m[0] is f:
        return m[1](*a, **k)
    if getattr(f, '__sx_fn__', False):
        return f(*a, **k)
    t = type(f)
    if t is types.MethodType:
        return native_method(f, a, k)
    s = getattr(f, '__self__', None)
    if s is not None and t in (types.BuiltinMethodType, types.MethodWrapperType):
        if isinstance(s, types.ModuleType):
            s = None
        elif isinstance(s, type):
            m = CLASS_METHODS.get((s, f.__name__))
            if any_sym(a, k):
                if m is not None:
                    return m(*a, **k)
                return f(*[hooks.V_concrete(settled(x)) for x in a], **{n: hooks.V_concrete(x) for n, x in k.items()})
            return f(*a, **k)
        else:
            return container_call(f, s, f.__name__, a, k)
    m = MODELS.get(id(f))
    if m is not None and m[0] is f and any_sym(a, k):
        return m[1](*a, **k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        # dict.get(d, k) and the like
        if a and isinstance(a[0], (dict, list, set, collections.deque, str, bytes)):
            return container_call(lambda *b, **kk: f(a[0], *b, **kk), a[0], f.__name__, a[1:], k)
        return f(*a, **k)
    if isinstance(f, enum.EnumMeta) and len(a) == 1 and not k:
        if isinstance(a[0], Sym):
            return enum_call(f, a[0])
        return f(a[0])
    if t is struct.Struct:
        return f(*a, **k)
    if t is functools.partial:
        return hooks.call(f.func, *(f.args + a), **dict(f.keywords, **k))
    if t is operator.itemgetter:
        keys = f.__reduce__()[1]
        return hooks.getitem(a[0], keys[0]) if len(keys) == 1 else tuple([hooks.getitem(a[0], x) for x in keys])
    if t is operator.attrgetter:
        def attr(name):
            o = a[0]
            for part in name.split('.'):
                o = hooks.getattr_(o, part)
            return o
        names = f.__reduce__()[1]
        return attr(names[0]) if len(names) == 1 else tuple([attr(n) for n in names])
    if t is operator.methodcaller:
        r = f.__reduce__()
        if isinstance(r[0], functools.partial):
            name, rest, kw = r[0].args[0], r[1], r[0].keywords
        else:
            name, rest, kw = r[1][0], r[1][1:], {}
        return hooks.call(hooks.getattr_(a[0], name), *rest, **kw)
    if not (isinstance(f, types.FunctionType) or isinstance(f, type) and (
            isinstance(f.__init__, types.FunctionType) or isinstance(f.__new__, types.FunctionType))):
        # implemented in C: it must not see elements that may be missing
        a = [settled(x) for x in a]
    if any(type(x) is SymUnion for x in a) and stdlib(f):
        a = [force(x) if type(x) is SymUnion else x for x in a]
    return f(*a, **k)


def stdlib(f):
    return (getattr(f, '__module__', None) or 'builtins').split('.')[0] in sys.stdlib_module_names


def settled(x):
    if type(x) is hooks.LazyGen:
        return hooks.plain_iter(x)
    if type(x) is hooks.OptSet:
        return set(hooks.plain_elems(x))
    if isinstance(x, (list, dict, collections.deque)) and hooks.has_opt(x):
        ENG.touch(x)
        hooks.resolve_opts(x)
    return x


def native_method(f, a, k):
    """a method of an object whose class is not transformed"""
    s = f.__self__
    c = type(s)
    if issubclass(c, Sym):
        return f(*a, **k)
    if c is threading.Event:
        if f.__name__ in ('set', 'clear'):
            ENG.touch(s)
        elif f.__name__ == 'wait':
            return hooks.getattr_(s, '_flag')
    elif f.__name__ in ('localize', 'normalize') and isinstance(s, datetime.tzinfo) and a and any_sym(a, k):
        if f.__name__ == 'localize':
            return dates.localize(s, *a, **k)
        return a[0].astimezone(s)
    elif isinstance(s, collections.Counter):
        return counter_call(f, s, f.__name__, a, k)
    return f(*a, **k)


def counter_call(f, s, name, a, k):
    if not any_sym(a, k) and not any(type(v) is Opt or isinstance(v, Sym) for v in dict.values(s)):
        return f(*a, **k)
    if name in ('most_common', 'elements', 'total'):
        items = hooks.plain_elems(dict_call(None, s, 'items', (), {}))
        if name == 'total':
            return m_sum([n for _, n in items])
        if name == 'elements':
            return m_chain(*[hooks.elems(m_repeat(x, n)) for x, n in items])
        items = hooks.plain_elems(m_sorted(items, key=lambda p: p[1], reverse=True))
        n = a[0] if a else k.get('n')
        return items if n is None else items[:hooks.V_concrete(n)]
    if name in ('update', 'subtract'):
        for other in a:
            more = isinstance(other, dict)
            for x in hooks.plain_elems(dict_call(None, other, 'items', (), {}) if more else other):
                key, n = x if more else (x, 1)
                old = dict_call(None, s, 'get', (key, 0), {})
                hooks.setitem(s, key, old + n if name == 'update' else old - n)
        return None
    V.unsupported('Counter.%s' % name)


# -- containers --------------------------------------------------------------------------------------------------------

_READ_ONLY = {'get', 'items', 'keys', 'values', 'copy', 'index', 'count', '__len__', '__contains__', '__getitem__',
              '__iter__', '__eq__', '__ne__', 'issubset', 'issuperset', 'union', 'intersection', 'difference',
              'isdisjoint'}


def container_call(f, s, name, a, k):
    if isinstance(s, (str, bytes)) and not isinstance(s, Sym):
        if any_sym(a, k):
            return text_call(f, s, name, a, k)
        return f(*a, **k)
    if isinstance(s, dict):
        return dict_call(f, s, name, a, k)
    if isinstance(s, (list, collections.deque)):
        return list_call(f, s, name, a, k)
    if isinstance(s, set):
        return hooks.set_call(f, s, name, a, k)
    if isinstance(s, bytearray):
        ENG.touch(s)
        return f(*[hooks.V_concrete(x) for x in a], **k)
    if isinstance(s, (decimal.Decimal, int, float)):
        m = NUM_METHODS.get(name)
        if any_sym(a, k):
            x = lift_num(s)
            return getattr(x, name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, (datetime.datetime, datetime.date, datetime.time)) and any_sym(a, k):
        if isinstance(s, datetime.datetime):
            return getattr(dates.SymDT.of(s), name)(*a, **k)
        if isinstance(s, datetime.date):
            return getattr(dates.SymDate.of(s), name)(*a, **k)
    if isinstance(s, struct.Struct):
        fmt = s.format
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        if name == 'unpack':
            return m_unpack(fmt, *a)
        if name == 'unpack_from':
            return m_unpack_from(fmt, *a, **k)
        if name == 'iter_unpack':
            return m_iter_unpack(fmt, *a)
        if name == 'pack':
            return m_pack(fmt, *a)
    if isinstance(s, io.IOBase):
        return f(*[hooks.V_concrete(x) for x in a], **k)
    return f(*a, **k)


NUM_METHODS = {}


def lift_num(s):
    if isinstance(s, decimal.Decimal):
        return SymDec.of(s)
    if isinstance(s, float):
        return SymFloat.of(s)
    return s


def dict_call(f, s, name, a, k):
    if name == 'get':
        d = a[1] if len(a) > 1 else k.get('default')
        key = a[0]
        if type(key) is SymUnion:
            return lift(lambda x: dict_call(f, s, name, (x,) + tuple(a[1:]), k), key)
        if not V.deep_sym(key):
            if hooks.has_sym_keys(s):
                pass
            elif not dict.__contains__(s, key):
                return d
            else:
                v = dict.__getitem__(s, key)
                if type(v) is Opt:
                    return V.ite(v.cond, v.v, d)
                return v
        c = boolcond(hooks.cond(hooks.contains(s, key)))
        return ENG.region(lambda: Ret(hooks.dict_get(s, key) if ENG.branch(c) else d), 'get').v
    if name in ('__getitem__',):
        return hooks.dict_get(s, a[0])
    if name == '__contains__':
        return hooks.contains(s, a[0])
    if name in ('items', 'keys', 'values'):
        if hooks.has_opt(s):
            if name == 'keys':
                return hooks.OptSet.of(s)
            out = []
            for kk, v in dict.items(s):
                o = v if type(v) is Opt else None
                val = v.v if o else v
                kk = hooks.unkey(kk)
                e = (kk, val) if name == 'items' else kk if name == 'keys' else val
                out.append(Opt(o.cond, e) if o else e)
            return out
        if name == 'items':
            return [(hooks.unkey(kk), v) for kk, v in dict.items(s)]
        if name == 'keys' and hooks.has_sym_keys(s):
            return [hooks.unkey(kk) for kk in dict.keys(s)]
        return f()
    if name == 'copy':
        return f()
    if name == '__len__':
        return m_len(s)
    if name not in _READ_ONLY:
        ENG.touch(s)
    if name == '__setitem__':
        key, v = a
        hooks.put(s, hooks.find_key(s, key), v)
        return None
    if name in ('update', '__init__'):
        for other in a:
            if type(other) is SymUnion:
                other = force(other)
            if isinstance(other, dict):
                for kk, v in dict.items(other):
                    if type(v) is Opt:
                        if dict.__contains__(s, kk):
                            old = dict.__getitem__(s, kk)
                            if type(old) is Opt and not hooks.is_last(s, kk):
                                if ENG.branch(v.cond):
                                    hooks.put(s, kk, v.v)
                            elif type(old) is Opt:
                                dict.__setitem__(s, kk, Opt(z_or(v.cond, old.cond),
                                                            merge([(v.cond, v.v), (z_and(old.cond, z_not(v.cond)), old.v)])))
                            else:
                                dict.__setitem__(s, kk, V.ite(v.cond, v.v, old))
                        else:
                            dict.__setitem__(s, kk, v)
                    else:
                        hooks.put(s, kk, v)
            else:
                for e in hooks.plain_elems(other):
                    kk, v = hooks.unpack(e, 2)
                    hooks.put(s, hooks.find_key(s, kk), v)
        for kk, v in k.items():
            hooks.put(s, kk, v)
        return None
    if name == 'setdefault':
        key = hooks.find_key(s, a[0])
        if bool(hooks.contains(s, hooks.unkey(key))):
            return hooks.dict_get(s, hooks.unkey(key))
        v = a[1] if len(a) > 1 else None
        hooks.put(s, key, v)
        return v
    if name == 'pop':
        key = hooks.find_key(s, a[0])
        if dict.__contains__(s, key):
            v = hooks.dict_get(s, hooks.unkey(key))
            dict.__delitem__(s, key)
            return v
        if len(a) > 1:
            return a[1]
        raise KeyError(key)
    hooks.resolve_opts(s)
    return f(*[hooks.V_concrete(x) for x in a], **k)


def list_call(f, s, name, a, k):
    if name == 'append':
        ENG.touch(s)
        return f(a[0])
    if name in ('extend', 'extendleft'):
        es = hooks.elems(a[0])
        ENG.touch(s)
        if isinstance(s, collections.deque) and any(type(e) is Opt for e in es):
            es = hooks.plain_elems(es)
        return f(es)
    if name == '__init__':
        ENG.touch(s)
        return f(*a)
    if name in ('copy', 'clear'):
        if name == 'clear':
            ENG.touch(s)
        return f()
    if name == '__len__':
        return m_len(s)
    if name == '__getitem__':
        return hooks.getitem(s, a[0])
    if name == '__contains__':
        return hooks.contains(s, a[0])
    hooks.resolve_opts(s)
    ENG.touch(s)
    if name == 'index' and (any_sym(a, k) or V.deep_sym(s) or any(V.deep_sym(x) for x in s)):
        for i, x in enumerate(s):
            if hooks.truth(hooks.eq(x, a[0])):
                return i
        raise ValueError('not in list')
    if name == 'count' and (any_sym(a, k) or any(V.deep_sym(x) for x in s)):
        n = 0
        for x in s:
            n = n + V.as_int(V.mkbool(boolcond(hooks.cond(hooks.eq(x, a[0])))))
        return n
    if name == 'remove' and any_sym(a, k):
        for i, x in enumerate(s):
            if hooks.truth(hooks.eq(x, a[0])):
                del s[i]
                return None
        raise ValueError('not in list')
    if name == 'sort':
        s[:] = m_sorted(list(s), **k)
        return None
    if name in ('insert', 'pop', 'rotate'):
        a = (hooks.V_concrete(a[0]),) + tuple(a[1:]) if a else a
    return f(*a, **k)


def text_call(f, s, name, a, k):
    if any(type(x) is SymUnion for x in a) or any(type(x) is SymUnion for x in k.values()):
        ks = list(k)
        return hooks.lift_args(lambda *xs: text_call(f, s, name, xs[:len(a)], dict(zip(ks, xs[len(a):]))),
                               tuple(a) + tuple(k.values()))
    if isinstance(s, str):
        if name == 'format':
            return hooks.str_format(s, a, k)
        if name == 'join':
            items = hooks.plain_elems(a[0])
            parts = []
            for i, x in enumerate(items):
                if type(x) is SymUnion:
                    x = force(x)
                if i:
                    parts.append(s)
                sx = SymStr.of(x)
                if sx is None:
                    raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
                parts.extend(sx.parts)
            return V.mkstr(parts)
        if name == '__mod__':
            return hooks.mod(s, a[0])
        x = SymStr.of(s)
        if name in ('startswith', 'endswith', 'find', 'index', 'count', 'split', 'replace', 'strip'):
            return f(*[hooks.V_concrete(y) for y in a], **k)
        return f(*[hooks.V_concrete(y) for y in a], **k)
    if name == 'join':
        out = []
        for i, x in enumerate(hooks.plain_elems(a[0])):
            if i:
                out.extend(s)
            out.extend(SymBytes.of(force(x)).b)
        return SymBytes(out).simplify()
    if name in ('startswith', 'endswith', '__add__', '__eq__'):
        return getattr(SymBytes(list(s)), name)(*a)
    return f(*[hooks.V_concrete(y) for y in a], **k)


# -- tables ------------------------------------------------------------------------------------------------------------

_LINEAR = {}


def table_lookup(seq, keys, x):
    """seq[i] where keys[i] == x; x is known to be one of the keys."""
    x = V.as_int(x)
    if all(type(v) is int and v >= 0 for v in seq) and keys == list(range(len(keys))) and len(keys) >= 16 and \
            len(keys) & (len(keys) - 1) == 0 and x.get_bits() is not None:
        r = linear_lookup(tuple(seq), x)
        if r is not None:
            return r
    if len(seq) == 1:
        return seq[0]
    # runs of equal values over sorted keys
    order = sorted(range(len(keys)), key=lambda i: keys[i])
    groups = []
    from symx.merge import same
    runs = []
    for i in order:
        kk, v = keys[i], seq[i]
        if x.lo is not None and kk < x.lo or x.hi is not None and kk > x.hi:
            continue
        if runs and runs[-1][1] == kk - 1 and same(runs[-1][2], v):
            runs[-1][1] = kk
        else:
            runs.append([kk, kk, v])
    if not runs:
        raise Infeasible()
    for lo, hi, v in runs:
        c = boolcond(V.eq(x, lo)) if lo == hi else z_and(boolcond(x >= lo), boolcond(x <= hi))
        for g in groups:
            if same(g[0], v):
                g[1].append(c)
                break
        else:
            groups.append((v, [c]))
    if len(groups) == 1:
        return groups[0][0]
    return merge([(z_or(*cs), v) for v, cs in groups])


def linear_lookup(seq, x):
    """A table that is linear over GF(2) up to a few entries"""
    got = _LINEAR.get(seq)
    if got is None:
        n = len(seq)
        nb = n.bit_length() - 1
        basis = []
        for b in range(nb):
            cnt = collections.Counter(seq[i] ^ seq[i ^ (1 << b)] for i in range(n))
            basis.append(cnt.most_common(1)[0][0])

        def lin(c, i):
            for b in range(nb):
                if (i >> b) & 1:
                    c ^= basis[b]
            return c
        cnt = collections.Counter(seq[i] ^ lin(0, i) for i in range(n))
        const = cnt.most_common(1)[0][0]
        exc = [i for i in range(n) if seq[i] != lin(const, i)]
        got = _LINEAR[seq] = (basis, const, exc) if len(exc) <= 8 else ()
    if not got:
        return None
    basis, const, exc = got
    bits = list(x.get_bits())
    width = max([const.bit_length()] + [b.bit_length() for b in basis] + [1])
    out = []
    for j in range(width):
        f = (0, (const >> j) & 1, None)
        for b, m in enumerate(basis):
            if (m >> j) & 1 and b < len(bits):
                f = V.bit_xor(f, bits[b])
        out.append(f)
    r = V.from_bits(out)
    if exc:
        alts = []
        rest = []
        for i in exc:
            c = boolcond(V.eq(x, i))
            alts.append((c, seq[i]))
            rest.append(z_not(c))
        r = merge(alts + [(z_and(*rest), r)])
    return r


def enum_call(cls, v):
    if type(v) is SymUnion:
        return lift(lambda x: cls(x) if not isinstance(x, Sym) else enum_call(cls, x), v)
    alts = []
    for m in cls:
        c = hooks.eq(v, m.value)
        c = boolcond(hooks.cond(c))
        if not z3.is_false(c):
            alts.append((c, m))
    ok = z_or(*[c for c, _ in alts]) if alts else FALSE
    if not ENG.branch(ok):
        m = getattr(cls, '_missing_', None)
        raise ValueError('value is not a valid %s' % cls.__name__)
    alts = [(c, m) for c, m in alts]
    return merge(alts)


# -- struct ------------------------------------------------------------------------------------------------------------

_SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8,
          'f': 4, 'd': 8, 'e': 2}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    struct.calcsize(fmt)
    order = '@'
    if fmt and fmt[0] in '@=<>!':
        order = fmt[0]
        fmt = fmt[1:]
    native = order == '@'
    big = order in '>!' or (order in '@=' and sys.byteorder == 'big')
    items = []
    n = ''
    pos = 0
    for ch in fmt:
        if ch.isspace():
            continue
        if ch.isdigit():
            n += ch
            continue
        cnt = int(n) if n else 1
        has = bool(n)
        n = ''
        if ch in 'sp':
            items.append((ch, pos, cnt))
            pos += cnt
            continue
        size = struct.calcsize('@' + ch) if native else _SIZES[ch]
        for _ in range(cnt):
            if native and size:
                pos = (pos + size - 1) // size * size
            if ch != 'x':
                items.append((ch, pos, size))
            pos += size
    return items, pos, big


def bytes_to_int(bs, big, signed):
    if big:
        bs = bs[::-1]
    if all(type(b) is int for b in bs):
        return int.from_bytes(bytes(bs), 'little', signed=signed)
    n = len(bs)
    if any(type(b) is SymInt and b._e is None for b in bs):
        bits = []
        for b in bs:
            f = V.const_bits(b) if type(b) is int else list(b.get_bits())
            bits.extend(list(f) + [V.ZERO_BIT] * (8 - len(f)))
        v = V.from_bits(bits)
    else:
        v = 0
        for i, b in enumerate(bs):
            v = v + b * (1 << (8 * i))
    if not signed or type(v) is int and v < 1 << (8 * n - 1):
        return v
    if type(v) is int:
        return v - (1 << 8 * n)
    half = 1 << (8 * n - 1)
    top = bs[-1]
    if V.bounds(top)[1] < 128:
        return v
    neg = boolcond(top >= 128)
    e = z3.If(neg, V.ze(v) - (1 << 8 * n), V.ze(v))
    lo, hi = -half, half - 1
    if type(top) is int:
        lo = v.lo - (1 << 8 * n) if top >= 128 else v.lo
        hi = v.hi - (1 << 8 * n) if top >= 128 else v.hi
        return V.mkint(V.ze(v) - (1 << 8 * n) if top >= 128 else V.ze(v), lo, hi)
    return V.mkint(e, lo, hi)


def unpack_bytes(fmt, bs, exact, offset=0):
    items, size, big = parse_fmt(fmt)
    if exact and len(bs) != size:
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    if len(bs) - offset < size:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % size)
    out = []
    for ch, pos, n in items:
        part = bs[offset + pos:offset + pos + n]
        if ch in 's':
            out.append(SymBytes(part).simplify())
        elif ch == 'c':
            out.append(SymBytes(part).simplify())
        elif ch == '?':
            out.append(hooks.V.not_(V.eq(part[0], 0)))
        elif ch in 'fdep':
            V.unsupported('struct format %s' % ch)
        else:
            out.append(bytes_to_int(part, big, ch.islower()))
    return tuple(out)


def _bytes_of(b):
    if type(b) is SymUnion:
        b = force(b)
    x = SymBytes.of(b)
    if x is None:
        if isinstance(b, memoryview):
            return list(bytes(b))
        raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
    return x.b


@model(struct.unpack)
def m_unpack(fmt, buf):
    if type(buf) is SymUnion:
        return lift(lambda b: m_unpack(fmt, b), buf)
    return unpack_bytes(fmt, _bytes_of(buf), True)


@model(struct.unpack_from)
def m_unpack_from(fmt, buffer, offset=0):
    if type(buffer) is SymUnion:
        return lift(lambda b: m_unpack_from(fmt, b, offset), buffer)
    offset = hooks.V_concrete(offset)
    return unpack_bytes(fmt, _bytes_of(buffer), False, offset)


@model(struct.iter_unpack)
def m_iter_unpack(fmt, buffer):
    if type(buffer) is SymUnion:
        buffer = force(buffer)
    bs = _bytes_of(buffer)
    size = parse_fmt(fmt)[1]
    if not size or len(bs) % size:
        raise struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % size)
    return iter([unpack_bytes(fmt, bs, False, i) for i in range(0, len(bs), size)])


@model(struct.pack)
def m_pack(fmt, *args):
    items, size, big = parse_fmt(fmt)
    args = [force(x) if type(x) is SymUnion else x for x in args]
    if len(args) != len(items):
        raise struct.error('pack expected %d items for packing (got %d)' % (len(items), len(args)))
    out = [0] * size
    for (ch, pos, n), v in zip(items, args):
        if ch == 's':
            b = list(SymBytes.of(v).b)[:n]
            out[pos:pos + n] = b + [0] * (n - len(b))
        elif ch == 'c':
            out[pos] = SymBytes.of(v).b[0]
        elif ch in 'fdep?':
            V.unsupported('struct format %s' % ch)
        else:
            v = V.as_int(v)
            if not isinstance(v, int):
                raise struct.error('required argument is not an integer')
            lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if ch.islower() else (0, (1 << 8 * n) - 1)
            if not ENG.branch(z_and(boolcond(v >= lo), boolcond(v <= hi))):
                raise struct.error('argument out of range')
            bs = split_bytes(dates.clamp(v, lo, hi), n)
            out[pos:pos + n] = bs[::-1] if big else bs
    return SymBytes(out).simplify()


def split_bytes(v, n):
    """little-endian bytes"""
    if type(v) is int:
        return list((v % (1 << 8 * n)).to_bytes(n, 'little'))
    if v._e is None:
        bits = list(v.bits) + [V.ZERO_BIT] * (8 * n - len(v.bits))
        return [V.from_bits(bits[8 * i:8 * i + 8]) for i in range(n)]
    if v.lo is None or v.lo < 0:
        v = V.mkint(z3.If(v.e < 0, v.e + (1 << 8 * n), v.e), 0, (1 << 8 * n) - 1)
    return [v // (1 << 8 * i) % 256 if i < n - 1 else v // (1 << 8 * i) for i in range(n)] if n > 1 else [v]


def int_to_bytes(v, length, byteorder, signed):
    lo, hi = (-(1 << 8 * length - 1), (1 << 8 * length - 1) - 1) if signed else (0, (1 << 8 * length) - 1)
    if not ENG.branch(z_and(boolcond(v >= lo), boolcond(v <= hi))):
        raise OverflowError('int too big to convert')
    bs = split_bytes(dates.clamp(v, lo, hi), length)
    return SymBytes(bs[::-1] if byteorder == 'big' else bs).simplify()


def m_from_bytes(bs, byteorder='big', signed=False):
    if type(bs) is SymUnion:
        return lift(lambda b: m_from_bytes(b, byteorder, signed), bs)
    x = SymBytes.of(bs)
    b = x.b if x is not None else hooks.plain_elems(bs)
    return bytes_to_int(list(b), byteorder == 'big', signed)


CLASS_METHODS = {}
CLASS_METHODS[(int, 'from_bytes')] = m_from_bytes


def m_combine(d, t, tzinfo=None):
    if type(d) is SymUnion or type(t) is SymUnion:
        return lift(lambda x, y: m_combine(x, y, tzinfo), d, t)
    d = dates.SymDate.of(d.date() if isinstance(d, datetime.datetime) else d)
    t = dates.SymTime.of(t)
    return dates.make_datetime(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond, tzinfo)


CLASS_METHODS[(datetime.datetime, 'combine')] = m_combine
CLASS_METHODS[(datetime.date, 'fromordinal')] = lambda n: dates.SymDate(n)
CLASS_METHODS[(datetime.datetime, 'fromordinal')] = lambda n: dates.SymDT(us=n * dates.DAY_US)


def m_fromisocalendar(year, week, day):
    if hooks.truth(V.lift(lambda y: (y < 1), year)):
        raise ValueError('Invalid year')
    fourth = dates.SymDate.of(dates.make_date(year, 1, 4))
    monday = fourth.toordinal() - fourth.weekday()
    if not hooks.truth(hooks.cmps(0, 'lt', lambda: week, 'lt', lambda: 54)) or not hooks.truth(hooks.cmps(0, 'lt', lambda: day, 'lt', lambda: 8)):
        raise ValueError('Invalid week or day')
    last = hooks.truth(week == 53)
    if last:
        nxt = dates.SymDate.of(dates.make_date(year + 1, 1, 4))
        if hooks.truth(nxt.toordinal() - nxt.weekday() - monday != 371):
            raise ValueError('Invalid week: 53')
    return monday + (week - 1) * 7 + day - 1


CLASS_METHODS[(datetime.date, 'fromisocalendar')] = lambda y, w, d: dates.SymDate(m_fromisocalendar(y, w, d))
CLASS_METHODS[(datetime.datetime, 'fromisocalendar')] = lambda y, w, d: dates.SymDT(us=m_fromisocalendar(y, w, d) * dates.DAY_US)


# -- constructors ------------------------------------------------------------------------------------------------------

@model(decimal.Decimal)
def m_decimal(x=0, context=None):
    if type(x) is SymUnion:
        return lift(m_decimal, x)
    if type(x) in (SymDec, V.SymReal, V.SymTab):
        return x
    if isinstance(x, int):
        return SymDec(V.as_int(x), 0)
    if type(x) is SymFloat:
        return SymDec.of_float(x)
    if type(x) is SymStr:
        if len(x.parts) == 1 and not isinstance(x.parts[0], str) and x.parts[0][0] == 'text':
            v = x.parts[0][1]
            if type(v) is SymFloat and v.den & (v.den - 1):
                V.unsupported('decimal of the text of a float')
            return m_decimal(v)
        return decimal.Decimal(x.concrete())
    return decimal.Decimal(x)


@model(datetime.datetime)
def m_datetime(*a, **k):
    if any(type(x) is SymUnion for x in a) or any(type(x) is SymUnion for x in k.values()):
        ks = list(k)
        return hooks.lift_args(lambda *xs: dates.make_datetime(*xs[:len(a)], **dict(zip(ks, xs[len(a):]))),
                               tuple(a) + tuple(k.values()))
    return dates.make_datetime(*a, **k)


@model(datetime.date)
def m_date(*a, **k):
    if any(type(x) is SymUnion for x in a) or any(type(x) is SymUnion for x in k.values()):
        ks = list(k)
        return hooks.lift_args(lambda *xs: dates.make_date(*xs[:len(a)], **dict(zip(ks, xs[len(a):]))),
                               tuple(a) + tuple(k.values()))
    return dates.make_date(*a, **k)


@model(datetime.time)
def m_time(hour=0, minute=0, second=0, microsecond=0):
    f = [force(x) for x in (hour, minute, second, microsecond)]
    for v, hi in zip(f, (23, 59, 59, 999999)):
        if not ENG.branch(z_and(boolcond(v >= 0), boolcond(v <= hi))):
            raise ValueError('out of range')
    return dates.SymTime(*f).simplify()


@model(datetime.timedelta)
def m_timedelta(*a, **k):
    if any(type(x) is SymUnion for x in a) or any(type(x) is SymUnion for x in k.values()):
        ks = list(k)
        return hooks.lift_args(lambda *xs: dates.make_timedelta(*xs[:len(a)], **dict(zip(ks, xs[len(a):]))),
                               tuple(a) + tuple(k.values()))
    return dates.make_timedelta(*a, **k)


@model(int)
def m_int(x=0, base=None):
    if type(x) is SymUnion:
        return lift(lambda y: m_int(y, base) if isinstance(y, Sym) else (int(y) if base is None else int(y, base)), x)
    if type(x) is SymStr:
        return x.to_int(10 if base is None else base)
    if base is not None:
        return int(x, base)
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return V.as_int(x)
    if type(x) in (SymFloat, SymDec, V.SymTab):
        return x.trunc()
    if type(x) is V.SymReal:
        V.unsupported('int of a real')
    if isinstance(x, (dates.SymDT, dates.SymTD, dates.SymDate, SymBytes)):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number")
    f = getattr(type(x), '__int__', None)
    return int(x)


@model(float)
def m_float(x=0):
    if type(x) is SymUnion:
        return lift(lambda y: m_float(y) if isinstance(y, Sym) else float(y), x)
    if type(x) in (SymInt, SymBool):
        return SymFloat(V.as_int(x), 1)
    if type(x) is SymFloat:
        return x
    if type(x) is SymStr and len(x.parts) == 1 and type(x.parts[0]) is tuple and x.parts[0][0] == 'text' and \
            type(x.parts[0][1]) in (SymInt, SymFloat):
        return m_float(x.parts[0][1])
    return float(hooks.V_concrete(x))


@model(bool)
def m_bool(x=False):
    c = hooks.cond(x)
    return c


@model(str, always=True)
def m_str(x='', *a, **k):
    if a or k:
        return V_decode(x, *a, **k) if isinstance(x, Sym) else str(x, *a, **k)
    if isinstance(x, Sym):
        return V.to_str(x)
    f = own_method(x, '__str__') or own_method(x, '__repr__')
    if f is not None:
        return hooks.call(f, x)
    return SymStr([('opaque', x)]) if V.deep_sym(x) else str(x)


def own_method(x, name):
    """the method of that name if it is defined in encoded code"""
    f = getattr(type(x), name, None)
    return f if getattr(f, '__sx_fn__', False) else None


def V_decode(x, *a):
    return SymBytes.of(x).decode(*a)


@model(repr, always=True)
def m_repr(x):
    if type(x) is SymUnion:
        return lift(m_repr, x)
    f = own_method(x, '__repr__')
    if f is not None:
        return hooks.call(f, x)
    return SymStr([('opaque', x)]) if isinstance(x, Sym) or V.deep_sym(x) else repr(x)


@model(bytes)
def m_bytes(x=b'', *a):
    if type(x) is SymUnion:
        return lift(lambda y: m_bytes(y, *a), x)
    if type(x) is SymStr:
        return x.encode(*a)
    if type(x) is SymBytes:
        return x
    if isinstance(x, int):
        return bytes(hooks.V_concrete(x))
    es = [force(y) for y in hooks.plain_elems(x)]
    for y in es:
        if type(y) is SymInt and not ENG.branch(z_and(boolcond(y >= 0), boolcond(y <= 255))):
            raise ValueError('bytes must be in range(0, 256)')
    return SymBytes([dates.clamp(y, 0, 255) for y in es]).simplify()


@model(bytearray)
def m_bytearray(*a):
    return m_bytes(*a)


@model(memoryview)
def m_memoryview(x):
    return x


@model(list, always=True)
def m_list(x=()):
    if type(x) is SymUnion:
        x = force(x)
    return hooks.elems(x)


@model(tuple, always=True)
def m_tuple(x=()):
    return tuple(hooks.plain_elems(x))


@model(set, always=True)
def m_set(x=()):
    return hooks.new_set(hooks.elems(x))


@model(frozenset)
def m_frozenset(x=()):
    return frozenset(hooks.V_concrete(y) for y in hooks.plain_elems(x))


@model(dict)
def m_dict(*a, **k):
    d = {}
    dict_call(None, d, 'update', a, k)
    return d


@model(collections.deque)
def m_deque(x=(), maxlen=None):
    return collections.deque(hooks.plain_elems(x), hooks.V_concrete(maxlen))


@model(range)
def m_range(*a):
    a = [force(x) if type(x) is SymUnion else x for x in a]
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    for x in (start, stop, step):
        if x is None or not isinstance(x, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    return hooks.SymRange(V.as_int(start), V.as_int(stop), hooks.V_concrete(step))


# -- functions over iterables --------------------------------------------------------------------------------------------

@model(len)
def m_len(x):
    if type(x) is SymUnion:
        return lift(lambda y: m_len(y), x)
    if type(x) is hooks.SymRange:
        return x.length()
    if type(x) in (SymBytes, SymStr):
        return len(x)
    if type(x) is hooks.OptSet:
        return m_len(x.d)
    if isinstance(x, (list, collections.deque)) or isinstance(x, dict) and type(x).__len__ is dict.__len__:
        vals = dict.values(x) if isinstance(x, dict) else x
        n = 0
        extra = 0
        for v in vals:
            if type(v) is Opt:
                extra = extra + V.ite(v.cond, 1, 0)
            else:
                n += 1
        return extra + n
    return len(x)


@model(sum, always=True)
def m_sum(it, start=0):
    r = start
    for v in hooks.iter_(it):
        if type(v) is Opt:
            r0 = r
            r = ENG.region(lambda: Ret(r0 + v.v if ENG.branch(v.cond) else r0), 'sum').v
        else:
            r = r + v
    return r


class Raises(object):
    def __init__(self, e):
        self.e = e


def where(c, f):
    """f() where c holds; its value elsewhere does not matter"""
    if z3.is_true(c):
        return f()
    if not ENG.feasible(c):
        return None

    def run():
        if not ENG.branch(c):
            raise Infeasible()
        try:
            return Ret(f())
        except Control:
            raise
        except Exception as e:
            return Ret(Raises(e))
    return ENG.region(run, 'where').v


def _extreme(name, a, k):
    key = k.get('key')
    keyf = (lambda x: hooks.call(key, x)) if key is not None else (lambda x: x)
    items = list(hooks.iter_(a[0])) if len(a) == 1 else list(a)
    op = 'gt' if name == 'max' else 'lt'
    # best: None or a value, with a condition that there is one; bk: its key
    best = bk = None
    have = FALSE
    for v in items:
        c, x = (v.cond, v.v) if type(v) is Opt else (TRUE, v)
        kx = x if key is None else where(c, lambda: keyf(x))
        if z3.is_false(have):
            best, bk, have = x, kx, c
            continue
        b0, k0, h0 = best, bk, have

        def run(x=x, c=c, kx=kx):
            if not ENG.branch(c):
                return Ret((b0, k0))
            if type(kx) is Raises:
                raise kx.e
            if not ENG.branch(h0):
                return Ret((x, kx))
            if type(k0) is Raises:
                raise k0.e
            if hooks.truth(hooks.cmp(kx, op, k0)):
                return Ret((x, kx))
            return Ret((b0, k0))
        best, bk = ENG.region(run, name).v
        have = z_or(have, c)
    if type(bk) is Raises and ENG.branch(have):
        raise bk.e
    if not z3.is_true(have):
        if not ENG.branch(have):
            if 'default' in k:
                return k['default']
            raise ValueError('%s() arg is an empty sequence' % name)
    return best


@model(max, always=True)
def m_max(*a, **k):
    if len(a) == 1 and type(a[0]) is SymUnion:
        return lift(lambda x: m_max(x, **k), a[0])
    return _extreme('max', a, k)


@model(min, always=True)
def m_min(*a, **k):
    if len(a) == 1 and type(a[0]) is SymUnion:
        return lift(lambda x: m_min(x, **k), a[0])
    return _extreme('min', a, k)


@model(any, always=True)
def m_any(it):
    cs = []
    for v in hooks.iter_(it):
        c, x = (v.cond, v.v) if type(v) is Opt else (TRUE, v)
        t = boolcond(hooks.cond(x))
        cs.append(z_and(c, t))
        if z3.is_true(cs[-1]):
            return True
    return mkbool(z_or(*cs))


@model(all, always=True)
def m_all(it):
    cs = []
    for v in hooks.iter_(it):
        c, x = (v.cond, v.v) if type(v) is Opt else (TRUE, v)
        cs.append(z_or(z_not(c), boolcond(hooks.cond(x))))
        if z3.is_false(cs[-1]):
            return False
    return mkbool(z_and(*cs))


@model(sorted, always=True)
def m_sorted(it, key=None, reverse=False):
    keyf = (lambda x: hooks.call(key, x)) if key is not None else (lambda x: x)
    reverse = bool(reverse)
    items = hooks.elems(it)
    if any(type(x) is Opt for x in items):
        # Elements that may be missing stay so if the order is known
        keys = [where(x.cond, lambda: keyf(x.v)) if type(x) is Opt else keyf(x) for x in items]
        if all(type(x) in (int, str) for x in keys) and len(set(map(type, keys))) == 1:
            return [x for _, x in sorted(zip(keys, items), key=lambda p: p[0], reverse=reverse)]
        items = hooks.plain_elems(items)
    # insertion sort over decisions
    out = []
    for x in items:
        kx = keyf(x)
        i = len(out)
        while i > 0:
            ky = out[i - 1][0]
            if hooks.truth(hooks.cmp(ky, 'lt' if reverse else 'gt', kx)):
                i -= 1
            else:
                break
        out.insert(i, (kx, x))
    return [x for _, x in out]


@model(enumerate)
def m_enumerate(it, start=0):
    if hasattr(it, '__next__'):
        return enumerate(hooks.plain_iter(it), start)
    return hooks.LazyGen(list(enumerate(hooks.plain_elems(it), start)))


@model(zip)
def m_zip(*its):
    xs = zip(*together(its))
    return xs if any(hasattr(i, '__next__') for i in its) else hooks.LazyGen(list(xs))


def together(its):
    """what is iterated in parallel: iterators, which may be endless or the same one, element by element"""
    if any(hasattr(i, '__next__') for i in its):
        return [hooks.plain_iter(i) for i in its]
    return [hooks.plain_elems(i) for i in its]


@model(map, always=True)
def m_map(f, *its):
    return hooks.LazyGen([hooks.call(f, *xs) for xs in zip(*together(its))])


@model(filter, always=True)
def m_filter(f, it):
    return hooks.LazyGen(filtered(it, lambda x: x if f is None else hooks.call(f, x)))


def filtered(it, f):
    out = []
    for e in hooks.elems(it):
        c, x = (e.cond, e.v) if type(e) is Opt else (TRUE, e)
        t = where(c, lambda: hooks.cond(f(x)))
        if type(t) is Raises:
            if ENG.branch(c):
                raise t.e
            continue
        c = z_and(c, boolcond(hooks.cond(t)))
        if z3.is_true(c):
            out.append(x)
        elif not z3.is_false(c):
            out.append(Opt(c, x))
    return out


@model(reversed)
def m_reversed(x):
    if isinstance(x, (list, tuple)):
        return hooks.LazyGen(list(hooks.resolve_opts(x) if isinstance(x, list) else x)[::-1])
    f = own_method(x, '__reversed__')
    return hooks.call(f, x) if f else hooks.LazyGen(list(hooks.plain_elems(x))[::-1])


@model(iter, always=True)
def m_iter(x, *a):
    if a:
        return iter(x, *a)
    if type(x) is SymUnion:
        return lift(m_iter, x)
    if hasattr(x, '__next__'):
        return x
    return hooks.LazyGen(hooks.elems(x))


@model(next, always=True)
def m_next(it, *d):
    if type(it) is SymUnion:
        it = force(it)
    return next(it, *d)


# -- itertools -----------------------------------------------------------------------------------------------------------

@model(itertools.product, always=True)
def m_product(*its, **k):
    lists = [hooks.elems(i) for i in its] * int(k.get('repeat', 1))
    if not any(type(x) is Opt for xs in lists for x in xs):
        return itertools.product(*lists)
    out = []
    for combination in itertools.product(*lists):
        conds = [x.cond for x in combination if type(x) is Opt]
        value = tuple([x.v if type(x) is Opt else x for x in combination])
        out.append(Opt(z_and(*conds), value) if conds else value)
    return hooks.LazyGen(out)


@model(itertools.chain, always=True)
def m_chain(*its):
    if all(type(i) in (list, tuple, range, hooks.LazyGen, SymUnion) or isinstance(i, dict) for i in its):
        return hooks.LazyGen([x for i in its for x in hooks.elems(i)])
    return itertools.chain(*[hooks.plain_iter(i) for i in its])


CLASS_METHODS[(itertools.chain, 'from_iterable')] = lambda it: m_chain(*hooks.plain_elems(it))


@model(itertools.islice, always=True)
def m_islice(it, *a):
    return itertools.islice(hooks.plain_iter(it), *[hooks.V_concrete(x) for x in a])


@model(itertools.groupby, always=True)
def m_groupby(it, key=None):
    return groups(it, key)


def groups(it, key):
    out = []
    for x in hooks.plain_elems(it):
        k = hooks.call(key, x) if key is not None else x
        if out and hooks.truth(hooks.eq(out[-1][0], k)):
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter([(k, iter(xs)) for k, xs in out])


@model(itertools.accumulate, always=True)
def m_accumulate(it, func=operator.add, **k):
    def run():
        started = False
        if k.get('initial') is not None:
            r, started = k['initial'], True
            yield r
        for x in hooks.plain_iter(it):
            r = hooks.call(func, r, x) if started else x
            started = True
            yield r
    return run()


@model(itertools.takewhile, always=True)
def m_takewhile(f, it):
    def run():
        for x in hooks.plain_iter(it):
            if not hooks.truth(hooks.call(f, x)):
                return
            yield x
    return run()


@model(itertools.dropwhile, always=True)
def m_dropwhile(f, it):
    def run():
        dropping = True
        for x in hooks.plain_iter(it):
            dropping = dropping and hooks.truth(hooks.call(f, x))
            if not dropping:
                yield x
    return run()


@model(itertools.filterfalse, always=True)
def m_filterfalse(f, it):
    return hooks.LazyGen(filtered(it, lambda x: V.not_(hooks.cond(x if f is None else hooks.call(f, x)))))


@model(itertools.starmap, always=True)
def m_starmap(f, it):
    return iter([hooks.call(f, *xs) for xs in hooks.plain_elems(it)])


@model(itertools.repeat, always=True)
def m_repeat(x, *n, **k):
    n = [k['times']] if 'times' in k else list(n)
    if n and type(n[0]) is SymUnion:
        n = [force(n[0])]
    if n and isinstance(n[0], SymInt):
        return hooks.LazyGen([x for _ in hooks.SymRange(0, n[0], 1)])
    return itertools.repeat(x, *n)


@model(itertools.compress, always=True)
def m_compress(data, selectors):
    return iter([x for x, s in zip(hooks.plain_elems(data), hooks.plain_elems(selectors)) if hooks.truth(s)])


@model(statistics.mean, statistics.fmean)
def m_mean(data):
    xs = hooks.plain_elems(data)
    if not xs:
        raise statistics.StatisticsError('mean requires at least one data point')
    if any(type(force(x)) is not SymDec and not isinstance(x, decimal.Decimal) for x in xs):
        V.unsupported('statistics.mean of other numbers than decimals')
    return m_sum(xs) / len(xs)


@model(statistics.mode)
def m_mode(data):
    xs = hooks.plain_elems(data)
    if not xs:
        raise statistics.StatisticsError('no mode for empty data')
    c = m_counter(xs)
    return c.most_common(1)[0][0] if isinstance(c, SymCounter) else statistics.mode(xs)


@model(functools.reduce, always=True)
def m_reduce(f, it, *init):
    xs = hooks.plain_elems(it)
    if init:
        r = init[0]
    else:
        if not xs:
            raise TypeError('reduce() of empty iterable')
        r = xs.pop(0)
    for x in xs:
        r = hooks.call(f, r, x)
    return r


@model(abs)
def m_abs(x):
    return lift(abs, x)


@model(round)
def m_round(x, n=None):
    if type(x) is SymUnion:
        return lift(lambda y: m_round(y, n), x)
    if type(x) is SymInt:
        if n is None or n >= 0:
            return x
        return V.rhe_div(x, 10 ** -n) * 10 ** -n
    if type(x) is SymFloat:
        if n is None:
            return V.rhe_div(x.num, x.den) if type(x.den) is int else V.unsupported('round')
        return float(x).__round__(n)
    return round(x) if n is None else round(x, n)


@model(math.floor)
def m_floor(x):
    if type(x) is SymUnion:
        return lift(m_floor, x)
    if type(x) is SymFloat:
        return x.num // x.den
    return math.floor(x)


@model(math.ceil)
def m_ceil(x):
    if type(x) is SymUnion:
        return lift(m_ceil, x)
    if type(x) is SymFloat:
        return -((-x.num) // x.den)
    return math.ceil(x)


@model(divmod)
def m_divmod(a, b):
    return lift(lambda x, y: (x // y, x % y), a, b)


@model(pow)
def m_pow(a, b, m=None):
    return a ** b if m is None else (a ** b) % m


@model(ord)
def m_ord(x):
    if type(x) is SymUnion:
        return lift(m_ord, x)
    if type(x) is SymBytes:
        if len(x.b) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x.b))
        return x.b[0]
    if type(x) is SymStr:
        c = x.need_chars()
        if len(c) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(c))
        return c[0]
    if isinstance(x, Sym):
        raise TypeError('ord() expected string of length 1, but %s found' % x.__class__.__name__)
    return ord(x)


@model(chr)
def m_chr(x):
    return V.mkstr([('char', force(x))])


@model(hex)
def m_hex(x):
    return hex(hooks.V_concrete(x))


@model(hash)
def m_hash(x):
    return hash(hooks.V_concrete(x))


@model(isinstance)
def m_isinstance(x, cls):
    if type(x) is SymUnion:
        return mkbool(z_or(*[z_and(c, boolcond(isinstance(v, cls))) for c, v in x.alts]))
    return isinstance(x, cls)


@model(callable)
def m_callable(x):
    return callable(force(x)) if type(x) is SymUnion else callable(x)


@model(type)
def m_type(x):
    if type(x) is SymUnion:
        x = force(x)
    return x.__class__


@model(print, always=True)
def m_print(*a, **k):
    return None


@model(getattr, always=True)
def m_getattr(o, name, *d):
    if type(name) is not str:
        name = hooks.V_concrete(name)
    if type(o) is SymUnion:
        return lift(lambda x: m_getattr(x, name, *d), o)
    if type(o) is Opt:
        o = o.v
    try:
        return hooks.getattr_(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(setattr, always=True)
def m_setattr(o, name, v):
    hooks.setattr_(o, name, v)


@model(delattr, always=True)
def m_delattr(o, name):
    hooks.delattr_(o, name)


@model(hasattr, always=True)
def m_hasattr(o, name):
    if type(o) is SymUnion:
        return mkbool(z_or(*[z_and(c, boolcond(m_hasattr(v, name))) for c, v in o.alts]))
    try:
        hooks.getattr_(o, name)
    except AttributeError:
        return False
    return True


@model(copy.copy)
def m_copy(x):
    if type(x) is SymUnion:
        return lift(m_copy, x)
    return copy.copy(x)


@model(copy.deepcopy)
def m_deepcopy(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, dict):
        n = copy.copy(x)
        for k, v in dict.items(x):
            dict.__setitem__(n, k, m_deepcopy(v.v) if type(v) is not Opt and False else v)
        return n
    if isinstance(x, list):
        return [y if isinstance(y, Sym) else m_deepcopy(y) for y in x]
    return x


class ODict(dict):
    """collections.OrderedDict: a dictionary, whose entries can be moved"""
    @property
    def __class__(self):
        return collections.OrderedDict

    def move_to_end(self, key, last=True):
        hooks.resolve_opts(self)
        ENG.touch(self)
        v = dict.pop(self, key)
        rest = [] if last else list(dict.items(self))
        for k, _ in rest:
            dict.__delitem__(self, k)
        dict.__setitem__(self, key, v)
        for k, w in rest:
            dict.__setitem__(self, k, w)

    def popitem(self, last=True):
        hooks.resolve_opts(self)
        ENG.touch(self)
        if not last and len(self):
            k = next(dict.__iter__(self))
            return k, dict.pop(self, k)
        return dict.popitem(self)

    def copy(self):
        d = ODict()
        dict.update(d, self)
        return d


@model(collections.OrderedDict, always=True)
def m_ordereddict(*a, **k):
    d = ODict()
    dict_call(None, d, 'update', a, k)
    return d


class SymCounter(object):
    """collections.Counter of symbolic elements: only the order-independent queries used on it"""

    def __init__(self, items):
        self._xs = items

    def counts(self):
        out = []
        n = len(self._xs)
        for i, x in enumerate(self._xs):
            first = z_and(*[z_not(boolcond(hooks.cond(hooks.eq(y, x)))) for y in self._xs[:i]])
            c = 0
            for y in self._xs:
                c = c + V.ite(boolcond(hooks.cond(hooks.eq(x, y))), 1, 0)
            out.append((first, x, c))
        return out

    def most_common(self, n=None):
        return SymMostCommon(self, n)

    def __getitem__(self, x):
        c = 0
        for y in self._xs:
            c = c + V.ite(boolcond(hooks.cond(hooks.eq(x, y))), 1, 0)
        return c

    def __len__(self):
        return V.concretize(sum_ints([V.ite(f, 1, 0) for f, _, _ in self.counts()]))

    def __bool__(self):
        return bool(self._xs)

    def _dict(self):
        return [Opt(f, (x, c)) for f, x, c in self.counts()]

    def get(self, x, d=None):
        c = self[x]
        return V.ite(boolcond(c > 0), c, d)

    def elements_(self):
        return [o.v for o in self._dict() if ENG.branch(o.cond)]

    def __iter__(self):
        return iter([x for x, _ in self.elements_()])

    def items(self):
        return self.elements_()

    def keys(self):
        return [x for x, _ in self.elements_()]

    def values(self):
        return [c for _, c in self.elements_()]

    def __contains__(self, x):
        return bool(self[x] > 0)

    def __getattr__(self, name):
        V.unsupported('Counter.%s' % name)


def sum_ints(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


class SymMostCommon(object):
    def __init__(self, counter, n):
        self.counter = counter
        self.n = n
        self._all = None

    def top(self):
        cs = self.counter.counts()
        if not cs:
            raise IndexError('list index out of range')
        alts = []
        for i, (first, x, c) in enumerate(cs):
            conds = [first]
            for j, (f2, _, c2) in enumerate(cs):
                if j < i:
                    conds.append(boolcond(c2 < c))
                elif j > i:
                    conds.append(boolcond(c2 <= c))
            alts.append((z_and(*conds), (x, c)))
        return merge([a for a in alts if not z3.is_false(a[0])])

    def full(self):
        if self._all is None:
            items = [(c, x) for f, x, c in self.counter.counts() if ENG.branch(f)]
            items = m_sorted(items, key=lambda p: p[0], reverse=True)
            self._all = [(x, c) for c, x in items]
            if self.n is not None:
                self._all = self._all[:self.n]
        return self._all

    def __getitem__(self, i):
        if i == 0 and (self.n is None or self.n >= 1):
            return self.top()
        return self.full()[i]

    def __iter__(self):
        return iter(self.full())

    def __len__(self):
        return len(self.full())

    def __bool__(self):
        return bool(self.counter._xs)


@model(collections.Counter)
def m_counter(it=()):
    if type(it) is SymUnion:
        return lift(m_counter, it)
    items = [x for x in hooks.plain_elems(it)]
    if not any(V.deep_sym(x) for x in items):
        return collections.Counter(items)
    return SymCounter(items)


# -- urllib ------------------------------------------------------------------------------------------------------------

SAFE = {}


def quote_char(c, safe, plus, parts):
    ok = SAFE.get(safe)
    if ok is None:
        ok = SAFE[safe] = [ch for ch in range(128) if urllib.parse.quote(chr(ch), safe=safe) == chr(ch)]
    if c.lo is not None and c.hi is not None and c.hi < 128 and all(v in ok for v in range(c.lo, c.hi + 1)):
        parts.append(('char', c))
        return
    if bool(mkbool(z_or(*[boolcond(V.eq(c, v)) for v in ok]))):
        parts.append(('char', c))
        return
    if plus and bool(V.eq(c, 32)):
        parts.append('+')
        return
    if bool(c < 0x80):
        codes = [c]
    elif bool(c < 0x800):
        codes = [0xC0 + c // 64, 0x80 + c % 64]
    elif bool(c < 0x10000):
        if bool(mkbool(z_and(boolcond(c >= 0xD800), boolcond(c < 0xE000)))):
            raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
        codes = [0xE0 + c // 4096, 0x80 + c // 64 % 64, 0x80 + c % 64]
    else:
        codes = [0xF0 + c // 262144, 0x80 + c // 4096 % 64, 0x80 + c // 64 % 64, 0x80 + c % 64]
    for n in codes:
        parts.append('%')
        for nib in (n // 16 % 16, n % 16):
            parts.append(('char', V.ite(boolcond(nib < 10), nib + 48, nib + 55)))


def sym_quote(s, safe='/', plus=False):
    if type(s) is SymUnion:
        return lift(lambda x: sym_quote(x, safe, plus), s)
    if type(s) is SymBytes:
        s = s.decode('latin-1')
    if not isinstance(s, str):
        raise TypeError('quote_from_bytes() expected bytes')
    if type(s) is not SymStr:
        return urllib.parse.quote(s, safe=safe)
    parts = []
    for p in s.parts:
        if isinstance(p, str):
            parts.append(urllib.parse.quote_plus(p, safe) if plus else urllib.parse.quote(p, safe=safe))
        elif p[0] == 'text' and type(p[1]) in (SymInt, SymDec, SymFloat):
            # digits, '-', '.', 'E', '+': only '+' of an exponent would be changed
            parts.append(p)
        elif p[0] == 'char':
            quote_char(p[1], safe, plus, parts)
        else:
            parts.append(('quoted', SymStr([p]), safe))
    return V.mkstr(parts)


@model(urllib.parse.quote)
def m_quote(string, safe='/', encoding=None, errors=None):
    return sym_quote(string, safe)


@model(urllib.parse.quote_plus)
def m_quote_plus(string, safe='', encoding=None, errors=None):
    return sym_quote(string, safe, True)


@model(urllib.parse.urlencode)
def m_urlencode(query, doseq=False, safe='', **k):
    via = k.get('quote_via', urllib.parse.quote_plus)
    parts = []
    items = query
    if isinstance(query, dict):
        items = dict_call(query.items, query, 'items', (), {})
    for i, e in enumerate(hooks.plain_elems(items)):
        kk, v = e
        if i:
            parts.append('&')
        for j, x in enumerate((kk, v)):
            if j:
                parts.append('=')
            if not isinstance(x, (str, bytes)):
                x = hooks.call(str, x)
            parts.extend(SymStr.of(hooks.call(via, x, safe=safe)).parts)
    return V.mkstr(parts)


# -- operator module ---------------------------------------------------------------------------------------------------
import operator as _op  # noqa: E402

for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'and_', 'or_', 'xor', 'lshift', 'rshift', 'lt', 'le', 'gt', 'ge'):
    _f = getattr(_op, _n)
    MODELS[id(_f)] = (_f, (lambda g: lambda a, b: lift(g, a, b))(_f))
MODELS[id(_op.eq)] = (_op.eq, hooks.eq)
MODELS[id(_op.ne)] = (_op.ne, hooks.ne)
MODELS[id(_op.getitem)] = (_op.getitem, hooks.getitem)
MODELS[id(_op.contains)] = (_op.contains, hooks.contains)
MODELS[id(_op.not_)] = (_op.not_, hooks.not_)
MODELS[id(_op.truth)] = (_op.truth, hooks.cond)
MODELS[id(_op.is_)] = (_op.is_, hooks.is_)
