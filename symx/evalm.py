"""Evaluation of symbolic values under a solver model."""
import datetime
import decimal
import urllib.parse

import z3

from symx import dates, values as V
from symx.merge import UNBOUND, Opt
from vlib.normal import SKIP


class Skip(Exception):
    pass


def z_bool(m, c):
    r = m.eval(c, model_completion=True)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    raise Skip()


def z_int(m, e):
    r = m.eval(e, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    raise Skip()


def num(m, x):
    t = type(x)
    if t is V.SymInt:
        return z_int(m, x.e)
    if t is V.SymBool:
        return z_bool(m, x.z)
    return x


def ev(x, m):
    t = type(x)
    if t is V.SymBool:
        return z_bool(m, x.z)
    if t is V.SymInt:
        return z_int(m, x.e)
    if t is V.SymUnion:
        for c, v in x.alts:
            if z_bool(m, c):
                return ev(v, m)
        raise Skip()
    if t is V.SymTab:
        n = z_int(m, x.var)
        if n not in x.table:
            raise Skip()
        return x.table[n]
    if t is V.SymDec:
        c = num(m, x.c)
        return decimal.Decimal((0 if c >= 0 else 1, tuple(int(d) for d in str(abs(c))), x.e))
    if t is V.SymFloat:
        return num(m, x.num) / x.den
    if t is V.SymReal:
        raise Skip()
    if t is V.SymBytes:
        return bytes(num(m, b) for b in x.b)
    if t is V.SymStr:
        out = []
        for p in x.parts:
            if isinstance(p, str):
                out.append(p)
            elif p[0] == 'char':
                out.append(chr(num(m, p[1])))
            elif p[0] == 'text':
                out.append(str(ev(p[1], m)))
            elif p[0] == 'quoted':
                out.append(urllib.parse.quote(ev(p[1], m), safe=p[2] if len(p) > 2 else '/'))
            else:
                raise Skip()
        return ''.join(out)
    if t is dates.SymDT:
        f = dates.datetime_of(num(m, x.us))
        if x.tzinfo is not None:
            if x.off is None:
                raise Skip()
            return f.replace(tzinfo=datetime.timezone(datetime.timedelta(microseconds=num(m, x.off))))
        return f
    if t is dates.SymDate:
        return datetime.date.fromordinal(num(m, x.ordinal))
    if t is dates.SymTD:
        return datetime.timedelta(microseconds=num(m, x.us))
    if t is dates.SymTime:
        return datetime.time(num(m, x.hour), num(m, x.minute), num(m, x.second), num(m, x.microsecond))
    if t is Opt:
        return ev(x.v, m)
    if t is tuple:
        return tuple(v for v in evs(x, m))
    if t is list:
        return list(evs(x, m))
    if t is Snap:
        return {ev(k, m): ev(v, m) for k, v in ((kk, vv) for kk, vv in x.items if present(vv, m))}
    if isinstance(x, V.Sym) or x is UNBOUND:
        raise Skip()
    return x


def present(v, m):
    if type(v) is Opt:
        return z_bool(m, v.cond)
    return True


def evs(x, m):
    for v in x:
        if type(v) is Opt:
            if z_bool(m, v.cond):
                yield ev(v.v, m)
        else:
            yield ev(v, m)


class Snap(object):
    """Items of a dict at the time of the observation."""

    def __init__(self, items):
        self.items = items


def snap(x, depth=8):
    if depth == 0:
        return SKIP
    if isinstance(x, V.Sym):
        if type(x) is V.SymUnion:
            return V.SymUnion([(c, snap(v, depth - 1)) for c, v in x.alts])
        return x
    if type(x) is Opt:
        return Opt(x.cond, snap(x.v, depth - 1))
    if isinstance(x, dict):
        return Snap([(snap(k), snap(v, depth - 1)) for k, v in dict.items(x)])
    if type(x) is tuple:
        return tuple(snap(v, depth - 1) for v in x)
    if isinstance(x, (list, tuple)) or type(x).__name__ == 'deque':
        return [snap(v, depth - 1) for v in list(x)]
    return x


def observe(x, m):
    """normal form under the model"""
    from vlib import normal
    try:
        v = ev(x, m)
    except Skip:
        return SKIP
    return normal.norm(v)
