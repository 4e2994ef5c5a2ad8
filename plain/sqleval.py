"""Conditions of statements, evaluated over one row.

The structure of a condition is plain; only its values may be symbolic, and whatever looks at those is left to `ops`, a
class of functions that are executed symbolically (see vlib/tables.py)."""
import datetime
import decimal

CONCRETE = frozenset([int, bool, str, float, decimal.Decimal, datetime.date, datetime.datetime, datetime.time, type(None)])


class Missing(Exception):
    """An unknown column"""


class Unknown(Exception):
    """Not understood"""


def moment(a):
    if type(a) is datetime.date:
        return datetime.datetime(a.year, a.month, a.day)
    return a


def less(a, b):
    return moment(a) < moment(b)


def equal(a, b):
    return moment(a) == moment(b)


def compare(op, a, b, ops):
    if type(a) not in CONCRETE or type(b) not in CONCRETE:
        return ops.compare(op, a, b)
    if op == '<=>':
        return equal(a, b) if a is not None and b is not None else a is b
    if a is None or b is None:
        return None
    if op == '=':
        return equal(a, b)
    if op == '<>':
        return not equal(a, b)
    if op == '<':
        return less(a, b)
    if op == '>':
        return less(b, a)
    return not less(b, a) if op == '<=' else not less(a, b)


def negate(v, ops):
    if v is None or v is True or v is False:
        return None if v is None else not v
    return ops.negate(v)


def both(a, b, ops):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is None and b is None:
        return None
    return ops.both(a, b)


def evaluate(e, row, args, ops, new=None):
    kind = e[0]
    if kind == 'col':
        if e[1] not in row:
            raise Missing(e[1])
        return row[e[1]]
    if kind == 'param':
        return args[e[1]]
    if kind == 'lit':
        v = e[1]
        return decimal.Decimal(v[1]) if isinstance(v, tuple) else v
    if kind == 'cmp':
        return compare(e[1], evaluate(e[2], row, args, ops, new), evaluate(e[3], row, args, ops, new), ops)
    if kind == 'and' or kind == 'or':
        out = kind == 'and'
        for x in e[1]:
            v = evaluate(x, row, args, ops, new)
            if kind == 'and':
                out = both(out, v, ops)
                if out is False:
                    return False
            else:
                out = negate(both(negate(out, ops), negate(v, ops), ops), ops)
                if out is True:
                    return True
        return out
    if kind == 'not':
        return negate(evaluate(e[1], row, args, ops, new), ops)
    if kind == 'isnull':
        v = evaluate(e[1], row, args, ops, new)
        return v is None if type(v) in CONCRETE else ops.is_null(v)
    if kind == 'arith':
        return ops.arith(e[1], evaluate(e[2], row, args, ops, new), evaluate(e[3], row, args, ops, new))
    if kind == 'func':
        name = e[1]
        if name == 'VALUES' and new is not None:
            return new[e[2][0][1]]
        if name in ('IFNULL', 'COALESCE'):
            return ops.coalesce([evaluate(a, row, args, ops, new) for a in e[2]])
    raise Unknown(str(kind))


def candidates(rows, where, args, ops):
    """[(condition, row)] of the rows that may satisfy a condition"""
    out = []
    for row in rows:
        if not isinstance(row, dict):
            raise Unknown('a table whose rows are not known')
        c = True if where is None else evaluate(where, row, args, ops)
        if c is None or c is False or type(c) is int and c == 0:
            continue
        out.append((c, row))
    return out


def columns(e, out):
    """The columns an expression names"""
    if e[0] == 'col':
        out.append(e[1])
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            columns(x, out)
        if isinstance(x, list):
            for y in x:
                columns(y, out)
    return out


def unknown_column(s, known):
    """The first column a statement reads that the table does not have"""
    es = list(s.get('columns', [])) if s['kind'] == 'select' else []
    es += [e for e in (s.get('where'),) if e is not None] + list(s.get('group', [])) + [e for e, _ in s.get('order', [])]
    for e in es:
        for c in columns(e, []):
            if c not in known:
                return c
    return None
