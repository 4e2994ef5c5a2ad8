"""Archive records of WLK files (88 bytes)."""
import datetime

from weatherlink import models

from checks import c01
from vlib import fakes, spec

BOUNDS = 'every 88-byte record; any day of the years 2000-2127'
ASSUMPTIONS = ['wind directions are 0-15 or 255, the rain collector is one of the five known types']

L, N = 32767, -32768
TABLE = (
    ('minutes_covered', 1, 'b', 0, None),
    ('minutes_past_midnight', 4, 'h', 0, None),
    ('temperature_outside', 6, 'h', 1, L),
    ('temperature_outside_high', 8, 'h', 1, N),
    ('temperature_outside_low', 10, 'h', 1, L),
    ('temperature_inside', 12, 'h', 1, L),
    ('barometric_pressure', 14, 'h', 3, 0),
    ('humidity_outside', 16, 'h', 1, 255),
    ('humidity_inside', 18, 'h', 1, 255),
    ('rain_rate_clicks', 22, 'h', 0, None),
    ('wind_speed', 24, 'h', 1, 255),
    ('wind_speed_high', 26, 'h', 1, 0),
    ('number_of_wind_samples', 30, 'h', 0, 0),
    ('solar_radiation', 32, 'h', 0, N),
    ('solar_radiation_high', 34, 'h', 0, N),
    ('uv_index', 36, 'B', 1, 255),
    ('uv_index_high', 37, 'B', 1, 255),
)
# code: (inches per click, digits)
COLLECTORS = {0x0: 1000, 0x1: 100, 0x2: None, 0x3: None, 0x6: None}
FACTORS = {0x0: '0.1', 0x1: '0.01', 0x2: '0.00787402', 0x3: '0.0393701', 0x6: '0.00393701'}


def a_record(ctx, minute=600, collectors=(0x1,)):
    body = ctx.bytes('data', 88)
    ctx.assume(body[28] <= 15 or body[28] == 255)
    ctx.assume(body[29] <= 15 or body[29] == 255)
    if len(collectors) == 1:
        code = collectors[0]
    else:
        code = ctx.choice('collector', collectors)
    clicks = ctx.int('clicks', 0, 4095)
    return (b'\x01' + body[1:4] + spec.le16(minute) + body[6:20] + spec.le16(code * 4096 + clicks) + body[22:],
            code, clicks)


def fields(ctx, part):
    data, code, clicks = a_record(ctx, minute=ctx.int('minute', 0, 1440))
    handle = fakes.Handle(data + b'\xff' * 100)
    record = models.ArchiveIntervalRecord.load_from_wlk(handle, 2024, 7, 31)
    ctx.check(handle.pos == 88, 'reads exactly one record')
    ctx.observe('record', record)
    if part == 'numbers':
        spec.check_fields(ctx, record, data, TABLE)
    else:
        spec.check_direction(ctx, record, data, 'wind_direction_speed_high', 29)
        spec.check_direction(ctx, record, data, 'wind_direction_prevailing', 28)


def rain(ctx, negative):
    data, code, clicks = a_record(ctx, collectors=(0x0, 0x1, 0x2, 0x3, 0x6))
    rate = spec.s16(data, 22)
    ctx.assume(rate < 0 if negative else rate >= 0)
    record = models.ArchiveIntervalRecord.load_from_wlk(fakes.Handle(data), 2024, 7, 31)
    ctx.check(record['rain_amount_clicks'] == clicks, 'the low 12 bits of the rain code are the clicks')
    ctx.check(record['rain_collector_type'].value == code * 4096, 'the high 4 bits of the rain code are the collector')
    factor = spec.D(FACTORS[code])
    ctx.check(record['rain_amount'] == factor * clicks, 'the rain amount is in inches')
    ctx.check(record['rain_rate'] == factor * rate, 'the rain rate is in inches per hour')
    ctx.observe('rain', (record['rain_amount'], record['rain_rate'], record['rain_collector_type']))


def times(ctx):
    y = ctx.int('year', 2000, 2127)
    mo = ctx.choice('month', list(range(1, 13)))
    leap = y % 4 == 0 and y != 2100
    d = ctx.int('day', 1, 31)
    if mo == 2:
        ctx.assume(d <= (29 if leap else 28))
    elif mo in (4, 6, 9, 11):
        ctx.assume(d <= 30)
    minute = ctx.int('minute', 0, 1440)
    data = b'\x01\x05\x00\x00' + spec.le16(minute) + b'\x00' * 14 + b'\x00\x10' + b'\x00' * 66
    record = models.ArchiveIntervalRecord.load_from_wlk(fakes.Handle(data), y, mo, d)
    want = datetime.datetime(y, mo, d) + datetime.timedelta(minutes=minute)
    ctx.check(record['date'] == want, 'the time is that many minutes after midnight')
    ctx.check(record['timestamp'] == c01.pack(want.year, want.month, want.day, want.hour, want.minute),
              'the packed time stamp is of the same time')
    ctx.observe('date', record['date'])


def rejects(ctx):
    body = ctx.bytes('data', 88)
    what = ctx.choice('what', ['version', 'direction 1', 'direction 2', 'collector'])
    if what == 'version':
        ctx.assume(body[0] != 1)
        data = body
    else:
        data = b'\x01' + body[1:4] + b'\x0a\x00' + body[6:]
        if what == 'collector':
            high = data[21] // 16
            ctx.assume(high == 4 or high == 5 or high > 6)
        else:
            o = 28 if what == 'direction 1' else 29
            ctx.assume(data[o] > 15 and data[o] != 255)
    try:
        models.ArchiveIntervalRecord.load_from_wlk(fakes.Handle(data), 2024, 7, 31)
    except Exception:
        ctx.check(True, 'rejected')
    else:
        ctx.fail('a record with an unknown code is rejected: ' + what)


def cases(tier):
    return [
        ('numbers', fields, {'part': 'numbers'}, 'all bytes of one record symbolic'),
        ('directions', fields, {'part': 'directions'}, 'all bytes of one record symbolic'),
        ('rain', rain, {'negative': False}, 'every collector, 0-4095 clicks, any rate'),
        ('times', times, {}, 'any minute of any day of 2000-2127'),
        ('rejects', rejects, {}, 'all bytes of one record symbolic'),
    ]
