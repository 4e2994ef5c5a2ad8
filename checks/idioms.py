"""Not a property: the idioms of Python that the encoding knows, compared with native runs (python3-vt run.py IDIOMS)."""
import bisect
import calendar
import collections
import contextlib
import datetime
import decimal
import functools
import itertools
import math
import operator
import re
import statistics
import struct

from vlib import spec

D = spec.D
BOUNDS = 'small inputs'


def some(ctx, n=4, lo=0, hi=9):
    """a list of up to n numbers, any of which may be missing"""
    xs = []
    for i in range(n):
        x = ctx.int('x%d' % i, lo, hi)
        if x % 3 != 1:
            xs.append(x)
    return xs


def opt(ctx, name='o', lo=0, hi=9):
    x = ctx.int(name, lo, hi)
    return x if x > lo + 2 else None


def product(ctx):
    a, b = some(ctx), [opt(ctx, 'o1'), 7]
    return [sum(x for x in t if x is not None) for t in itertools.product(a, [y for y in b if y], (1, 2))]


def chain(ctx):
    a = some(ctx)
    return list(itertools.chain(a, [5], (x + 1 for x in a))), sum(itertools.chain.from_iterable([a, a]))


def islice(ctx):
    a = some(ctx)
    return list(itertools.islice(a, 2)), list(itertools.islice(iter(a), 1, None, 2)), next(itertools.islice(a, 1, 2), None)


def groupby(ctx):
    return [(k, len(list(g))) for k, g in itertools.groupby(some(ctx), key=lambda x: x > 4)]


def accumulate(ctx):
    return list(itertools.accumulate(some(ctx))), list(itertools.accumulate(some(ctx), max))


def takewhile(ctx):
    a = some(ctx)
    return list(itertools.takewhile(lambda x: x < 6, a)), list(itertools.dropwhile(lambda x: x < 6, a))


def starmap(ctx):
    a = some(ctx)
    return list(itertools.starmap(operator.add, [(x, 2) for x in a])), list(itertools.compress('abc', [x > 4 for x in a]))


def counting(ctx):
    a = some(ctx, 3)
    out = []
    for i, x in zip(itertools.count(1), a):
        out.append(i * x)
    for i, x in enumerate(a, 1):
        out.append(i + x)
    return out, list(itertools.repeat(1, ctx.int('n', 0, 3))), list(zip(a, a[1:]))


def zips(ctx):
    a = some(ctx)
    return list(itertools.zip_longest(a, [1, 2], fillvalue=0)), list(zip(*[(x, -x) for x in a]))


def reducing(ctx):
    a = some(ctx)
    return functools.reduce(lambda x, y: x * 2 + y, a, 1), functools.reduce(operator.xor, [3] + a)


def partials(ctx):
    a = some(ctx)
    add = functools.partial(operator.add, 4)
    return [add(x) for x in a], list(map(add, a)), functools.partial(max, key=lambda x: -x)(a + [4])


def getters(ctx):
    rows = [{'a': x, 'b': i, 'c': (x, i)} for i, x in enumerate(some(ctx))]
    return (sorted(rows, key=operator.itemgetter('a', 'b')), [operator.itemgetter('a')(r) for r in rows],
            [operator.attrgetter('real')(r['a']) for r in rows], max(rows, key=operator.itemgetter('a'), default=None))


def counter(ctx):
    a = some(ctx, 4, 0, 3)
    c = collections.Counter(a)
    return (c.most_common(1), c[2], c.get(3, 0), max(a, key=a.count) if a else None, len(c), sorted(c.items()))


def counter_built(ctx):
    c = collections.Counter()
    d = collections.defaultdict(int)
    e = {}
    for x in some(ctx, 4, 0, 3):
        c[x] += 1
        d[x] += 1
        e[x] = e.get(x, 0) + 1
    return sorted(d.items()), sorted(e.items()), max(e, key=e.get, default=None), c.most_common(1)


def means(ctx):
    a = [D(x) / 4 for x in some(ctx)]
    return (statistics.mean(a + [D(1)]), statistics.mode([x % 3 for x in some(ctx)[:3]] + [1]), math.fsum([0.5, 0.25]))


def extremes(ctx):
    a = some(ctx)
    return (min(a, default=None), max(a, default=-1), max(a + [3], key=lambda x: (x % 4, x)), min(((x % 3, x) for x in a), default=None),
            sorted(a, reverse=True), sorted(a, key=lambda x: -x)[:2])


def lists(ctx):
    a = some(ctx, 3)
    b = list(a)
    b.sort()
    b.reverse()
    c = a + b
    c.extend(x for x in a if x > 3)
    c.insert(0, 9)
    if 5 in a:
        c.remove(5)
    c += [1]
    c[1:2] = [8, 8]
    del c[0]
    return c, a[-1] if a else None, a[::-1], a[1:3], c.count(8), c.index(8), c.pop(), a * 2, a == b, a < b


def dicts(ctx):
    a = some(ctx)
    d = dict(zip('abcd', a))
    d.update(z=1, **{'y': 2})
    d.setdefault('a', 7)
    e = {k: v for k, v in d.items() if v > 2}
    f = dict(d, q=4)
    g = {**e, 'a': 0}
    last = d.pop('b', None)
    return (d, e, sorted(f), g, last, 'c' in e, list(e.values()), {v: k for k, v in [('x', 1), ('y', 2)]},
            dict.fromkeys('ab', 0), [k for k in sorted(d, key=lambda k: (d[k], k))])


def sets(ctx):
    a = set(some(ctx, 3))
    b = {1, 2, 5}
    return sorted(a | b), sorted(a & b), sorted(a - b), sorted(a ^ b), 5 in a, a <= b, len(a), sorted({x // 2 for x in a})


def optional_keys(ctx):
    d = {k: x for k, x in zip('abcde', [ctx.int('x%d' % i, 0, 9) for i in range(5)]) if x % 3 != 1}
    e = {'a': 1, 'c': 2, 'z': 3}
    k = set(d)
    return ([d[x] for x in sorted(d.keys() & e.keys())], sorted(e.keys() & d.keys()), sorted(k - {'a', 'b'}), sorted({'q'} | k), len(d.keys()), len(k),
            'b' in k, k <= {'a', 'b', 'c', 'd'}, sorted({'a', 'q'} ^ k), sorted(e.keys() - d), bool(k & {'c'}), k == {'a'}, k.isdisjoint('ab'),
            sorted(k.intersection(['a', 'e'])), sorted(d | e), [x for x in 'abc' if x in k], sorted({x.upper() for x in d}), frozenset('ab') <= k,
            sum(d[x] for x in set('ab') & set(d)), ','.join(sorted(d)), sorted(d, reverse=True), sorted(d.items()), max(d, default=None))


def unpacking(ctx):
    a = some(ctx) + [1, 2]
    first, *rest = a
    x, (y, z) = a[0], (a[-1], 3)
    *init, last = a
    return first, rest, x, y, z, init, last, (*a, 4), [*rest, *init]


def tuples(ctx):
    a, b = ctx.int('a', 0, 5), ctx.int('b', 0, 5)
    return (a, b) < (b, a), (a, 'x') == (b, 'x'), max((a, 1), (b, 0)), sorted([(a, 'p'), (b, 'q')]), divmod(a * 7 + 3, b + 1)


def loops(ctx):
    a = some(ctx)
    out = []
    i = 0
    while i < len(a):
        if a[i] > 7:
            break
        if a[i] == 3:
            i += 2
            continue
        out.append(a[i])
        i += 1
    else:
        out.append(-1)
    for x in reversed(a):
        if x == 5:
            out.append('five')
            break
    else:
        out.append('none')
    it = iter(a)
    for x in it:
        out.append((x, next(it, None)))
    while a:
        out.append(a.pop(0))
    return out


def nested(ctx):
    a = some(ctx)

    def outer(x):
        total = 0

        def inner(y):
            nonlocal total
            total += y
            return total
        return [inner(x), inner(1)]
    return [outer(x) for x in a], (lambda *p, **k: (p, sorted(k.items())))(*a, z=1)


def generators(ctx):
    def evens(xs):
        for x in xs:
            if x % 2 == 0:
                y = yield x
                if y:
                    yield -1

    def both(xs):
        yield from evens(xs)
        yield 9
    a = some(ctx)
    return list(both(a)), sum(evens(a)), next((x for x in a if x > 5), None), any(x == 3 for x in a), all(x for x in a)


class Thing(object):
    __slots__ = ('value', 'more')

    def __init__(self, value, more=None):
        self.value = value
        self.more = more

    @property
    def double(self):
        return self.value * 2

    @staticmethod
    def half(x):
        return x // 2

    @classmethod
    def of(cls, x):
        return cls(x, more=[x])

    def __eq__(self, o):
        return self.value == o.value

    def __lt__(self, o):
        return self.value < o.value

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'Thing(%s)' % self.value


Pair = collections.namedtuple('Pair', ('left', 'right'))


def classes(ctx):
    a = [Thing.of(x) for x in some(ctx)]
    p = [Pair(t.value, right=t.double) for t in a]
    return ([t.double for t in a], max(a).value if a else None, [repr(t) for t in sorted(a)], Thing(1) in a, p,
            [q._replace(left=0) for q in p], [q.left + q[1] for q in p], Thing.half(7), [getattr(t, n) for t in a for n in ('value', 'double')])


def errors(ctx):
    out = []
    for x in some(ctx):
        try:
            if x > 6:
                raise ValueError('large %d' % x)
            out.append(10 // x)
        except ZeroDivisionError:
            out.append('zero')
            continue
        except (ValueError, KeyError) as e:
            out.append(str(e))
        else:
            out.append('fine')
        finally:
            out.append('.')
    try:
        with contextlib.suppress(IndexError):
            out.append(out[len(out) - 1])
            out.append([][0])
    except Exception:
        out.append('not suppressed')
    return out


@contextlib.contextmanager
def noted(out, name):
    out.append('enter ' + name)
    try:
        yield name
    except ValueError:
        out.append('error')
        raise
    finally:
        out.append('leave ' + name)


class Closes(object):
    def __init__(self, out):
        self.out = out

    def close(self):
        self.out.append('closed')


def contexts(ctx):
    out = []
    x = ctx.int('x', 0, 5)
    try:
        with noted(out, 'a') as n, noted(out, 'b'), contextlib.closing(Closes(out)):
            out.append(n)
            if x > 3:
                raise ValueError(x)
        with contextlib.ExitStack() as stack:
            stack.callback(out.append, 'bye')
            stack.enter_context(noted(out, 'c'))
            if x == 2:
                return out
    except ValueError as e:
        out.append(e.args)
    return out


def integers(ctx):
    x, y = ctx.int('x', 0, 1000), ctx.int('y', 0, 255)
    return (x & 255, x | 16, x ^ y & 15, x >> 3, y << 4, ~y, (x >> 8) & 1, (x << 8) | y, x & ~7, -x // 7, -x % 7, divmod(-x, 60),
            abs(y - 100), (y > 100) + (x > 5), bool(x & 4), y.bit_length() if y < 4 else 0, int(y / 2), x ** 2, pow(3, 2), +x,
            round(y / 4.0) if y % 2 else 0, x.to_bytes(2, 'little'), int.from_bytes(bytes([y, 1]), 'big', signed=True))


def decimals(ctx):
    x = D(ctx.int('x', -500, 500)) / 10
    q = decimal.Decimal('0.1')
    return (x.quantize(D('1')), x.quantize(D('1'), rounding=decimal.ROUND_CEILING), (x * x).quantize(q), abs(x), -x, x // 1, x % 7,
            round(x), round(x, 0), int(x), x == 5, x.is_signed(), max(x, D(3)), min(x, D(3)))


def decimals_more(ctx):
    x = D(ctx.int('x', -500, 500)) / 10
    return (x.copy_abs(), x + 1, 1 - x, sum([x, x]),
            x.to_integral_value(), bool(x), x.compare(D(1)), math.floor(x), math.ceil(x))


def decimals_text(ctx):
    x = D(ctx.int('x', -50, 50)) / 10
    return str(x) if x < 0 else '', x.normalize() + 0


def strings(ctx):
    x = ctx.int('x', 0, 200)
    d = D(x) / 10
    return ('%d %s %05d' % (x, d, x), '{}-{:02d}-{!r}'.format(x, x % 60, x), f'{x:>4}|{d}', '&'.join('%s=%s' % p for p in [('a', x), ('b', d)]),
            str(x).zfill(4), ''.join([str(x), 'q']), 'a=b=c'.partition('='), 'a b'.split(), 'A'.lower() + 'x'.upper(), 'ab'.startswith(('a', 'q')),
            'k = v'.strip().split('=', 1)[1].strip(), ('%x' % (x % 16)), '%s' % None, 'abc'[-2:], 'x,y'.replace(',', ';'), 'ab' * 2, 'a\nb'.splitlines())


def binary(ctx):
    b = ctx.bytes('b', 6)
    return (struct.unpack('<HhBb', b), struct.unpack_from('<H', b, 2), struct.pack('>H', b[0] * 256 + b[1]), b[1:3] + b[5:], b[:2] == b'ab', b[0] in b'ab',
            int.from_bytes(b[:2], 'little'), [x for x in b if x > 250], len(b), bytes(b[::-1]), b.startswith(b'\xff'), bytes([b[0], 3]), bytearray(b)[0],
            struct.Struct('<3H').unpack(b), list(struct.iter_unpack('<H', b)), tuple(memoryview(b)[:2]), b[4] << 8 | b[5])


def times(ctx):
    t = datetime.datetime(2023, 12, 30) + datetime.timedelta(minutes=ctx.int('m', 0, 4000))
    d = t.date()
    return (t.replace(minute=0), d, t.time(), t.isocalendar(), t.weekday(), t.isoweekday(), t - datetime.timedelta(days=d.weekday()), d.toordinal(),
            t.strftime('%Y-%m-%d %H:%M:%S'), t.isoformat(), str(t), (t - datetime.datetime(2023, 12, 31)).total_seconds())


def times_more(ctx):
    t = datetime.datetime(2023, 12, 30) + datetime.timedelta(minutes=ctx.int('m', 0, 4000))
    d = t.date()
    return ((t - datetime.datetime(2023, 12, 31)) > datetime.timedelta(hours=3), datetime.datetime.combine(d, datetime.time.min), d.replace(day=1), '{:%H%M}'.format(t),
            datetime.date.fromisocalendar(d.isocalendar()[0], d.isocalendar()[1], 1), max(t, datetime.datetime(2024, 1, 1)), (t - datetime.datetime(2023, 1, 1)).days,
            (t - datetime.datetime(2023, 12, 31)) // datetime.timedelta(minutes=1), calendar.monthrange(d.year, d.month)[1], sum([datetime.timedelta(1)], datetime.timedelta()))


def times_tuple(ctx):
    t = datetime.datetime(2023, 12, 30) + datetime.timedelta(minutes=ctx.int('m', 0, 4000))
    return tuple(t.timetuple()[:5]), t.timetuple().tm_yday


def deques(ctx):
    q = collections.deque(maxlen=3)
    for x in some(ctx):
        q.append(x)
        q.appendleft(x + 1)
    r = collections.deque(q, 2)
    r.extend([1])
    return list(q), list(r), sum(q), len(q), q[0] if q else None, q[-1] if q else None, list(reversed(q)), (q.pop() if q else 0), 3 in q, q.count(2)


def conditions(ctx):
    x, o = ctx.int('x', 0, 9), opt(ctx)
    return (o or 4, o and o + 1, (x if o is None else o), not o, 0 < x < 5, x in (1, 2, 3), x not in range(3, 7), x in {1: 2}, 'a' if x > 3 and o else 'b',
            None if o is None else o * 2, bool(o), [o, x][x > 4], {True: 1, False: 2}[x > 4], (y := x + 1) and y, o == x, o is not None and o < x, isinstance(o, int),
            x if x else None, (x > 2) is True, len([o] if o else []), all([o is not None, x]), any((o, x)))


def searching(ctx):
    x = ctx.int('x', 0, 20)
    table = [3, 7, 12]
    return (bisect.bisect(table, x), bisect.bisect_left(table, x), [i for i, t in enumerate(table) if t >= x][:1], table[min(x, 2)],
            {3: 'a', 7: 'b'}.get(x, 'c'), ['n', 'e', 's'][x % 3], table.index(7), next(iter([t for t in table if t > x]), None), table[-1 - x % 3])


def patterns(ctx):
    x = ctx.int('x', 0, 3)
    name = ['2024-07.wlk', 'a.txt', '1999-1.wlk', ''][x]
    m = re.match(r'(\d{4})-(\d\d)\.wlk$', name)
    return (m.groups() if m else None, name.endswith('.wlk'), name[:4], name.rsplit('.', 1)[0])


def recursion(ctx):
    x = ctx.int('x', 0, 8)

    def fact(n):
        return 1 if n <= 1 else n * fact(n - 1)

    @functools.lru_cache(None)
    def fib(n):
        return n if n < 2 else fib(n - 1) + fib(n - 2)
    return fact(x % 5), fib(6)


IDIOMS = (product, chain, islice, groupby, accumulate, takewhile, starmap, counting, zips, reducing, partials, getters, counter,
          counter_built, means, extremes, lists, dicts, sets, optional_keys, unpacking, tuples, loops, nested, generators, classes, errors, contexts,
          integers, decimals, decimals_more, decimals_text, strings, binary, times, times_more, times_tuple, deques, conditions, searching, patterns, recursion)


def run(ctx, which):
    got = IDIOMS[which](ctx)
    ctx.observe('result', got)
    ctx.check(got is not None or got is None, 'ran')


def cases(tier):
    return [(f.__name__, run, {'which': i}, 'small inputs') for i, f in enumerate(IDIOMS)]
