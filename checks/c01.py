"""Packed WeatherLink timestamps."""
import datetime

from weatherlink import models

BOUNDS = 'every minute of the years 2000-2127 (the whole range of the 16-bit packed date)'
ASSUMPTIONS = ['timestamps are those of station times, which have no seconds']


def a_datetime(ctx, p, lo, hi):
    y = ctx.int(p + 'year', lo, hi)
    mo = ctx.int(p + 'month', 1, 12)
    d = ctx.int(p + 'day', 1, 31)
    h = ctx.int(p + 'hour', 0, 23)
    mi = ctx.int(p + 'minute', 0, 59)
    leap = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0
    if mo == 2:
        ctx.assume(d <= (29 if leap else 28))
    elif mo == 4 or mo == 6 or mo == 9 or mo == 11:
        ctx.assume(d <= 30)
    return y, mo, d, h, mi, datetime.datetime(y, mo, d, h, mi)


def pack(y, mo, d, h, mi):
    return (d + mo * 32 + (y - 2000) * 512) * 65536 + h * 100 + mi


def encode(ctx):
    y, mo, d, h, mi, dt = a_datetime(ctx, '', 2000, 2127)
    ts = models.convert_datetime_to_timestamp(dt)
    ctx.observe('timestamp', ts)
    ctx.check(ts == pack(y, mo, d, h, mi), 'packed as day + month * 32 + (year - 2000) * 512, hour * 100 + minute')
    ctx.check(models.convert_datetime_to_timestamp(ts) == ts, 'a packed timestamp is returned unchanged')


def decode(ctx):
    y, mo, d, h, mi, dt = a_datetime(ctx, '', 2000, 2127)
    back = models.convert_timestamp_to_datetime(pack(y, mo, d, h, mi))
    ctx.observe('datetime', back)
    ctx.check(back is not None, 'is a time')
    for name, value in (('year', y), ('month', mo), ('day', d), ('hour', h), ('minute', mi), ('second', 0), ('microsecond', 0)):
        ctx.check(getattr(back, name) == value, 'decoded to the same ' + name)


def order(ctx, first):
    """Two times that differ first in the given field"""
    a = a_datetime(ctx, 'a.', 2000, 2127)
    b = a_datetime(ctx, 'b.', 2000, 2127)
    for i in range(first):
        ctx.assume(a[i] == b[i])
    later = list(a[:first]) + list(b[first:5])
    if first < 5:
        ctx.assume(a[first] < b[first])
    x = models.convert_datetime_to_timestamp(a[5])
    y = models.convert_datetime_to_timestamp(datetime.datetime(*later))
    ctx.observe('timestamps', (x, y))
    if first < 5:
        ctx.check(x < y, 'a later time has a larger timestamp')
    else:
        ctx.check(x == y, 'equal times have equal timestamps')


def cases(tier):
    return [
        ('encode', encode, {}, 'one time'),
        ('decode', decode, {}, 'one time'),
    ] + [('order-%s' % name, order, {'first': i}, 'two times that differ first in the ' + name)
         for i, name in enumerate(('year', 'month', 'day', 'hour', 'minute', 'nothing'))]
