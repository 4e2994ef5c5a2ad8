"""Normal form of observed values, the same in the symbolic run (after evaluation under a model) and in the native run."""
import collections
import datetime
import decimal
import enum

WIDE = decimal.Context(prec=100)
SKIP = '<not compared>'


def norm(v, depth=12):
    if depth == 0:
        return SKIP
    if v is None or v is True or v is False:
        return v
    if isinstance(v, enum.Enum):
        return {'enum': '%s.%s' % (type(v).__name__, v.name)}
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (bytes, bytearray)):
        return {'bytes': v.hex()}
    if isinstance(v, float):
        return {'float': repr(v + 0.0 if v else 0.0)}
    if isinstance(v, decimal.Decimal):
        # the exponent of a quotient is not modelled
        return {'dec': '0' if v.is_zero() else format(v.normalize(WIDE), 'f')}
    if isinstance(v, datetime.datetime):
        return {'dt': v.isoformat()}
    if isinstance(v, (datetime.date, datetime.time)):
        return {'date': v.isoformat()}
    if isinstance(v, datetime.timedelta):
        return {'td': [v.days, v.seconds, v.microseconds]}
    if isinstance(v, BaseException):
        return {'exc': type(v).__name__}
    if isinstance(v, dict):
        return {'map': sorted([[norm(k, depth - 1), norm(x, depth - 1)] for k, x in v.items()], key=repr)}
    if isinstance(v, (list, tuple, collections.deque)):
        return [norm(x, depth - 1) for x in v]
    if isinstance(v, (set, frozenset)):
        return {'set': sorted([norm(x, depth - 1) for x in v], key=repr)}
    return SKIP


def same(a, b):
    if a == SKIP or b == SKIP:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b
