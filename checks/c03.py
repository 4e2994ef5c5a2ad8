"""Records downloaded from WeatherLink.com (52 bytes, revision B)."""
import datetime

from weatherlink import models

from vlib import fakes, spec

BOUNDS = 'every 52-byte record (revision byte 0 or not, any date stamp of the years 2000-2063, every other byte arbitrary)'
ASSUMPTIONS = ['date and time stamps of nonempty records name an existing minute; wind directions are 0-15 or 255']

L, N = 32767, -32768
TABLE = (
    ('temperature_outside', 4, 'h', 1, L),
    ('temperature_outside_high', 6, 'h', 1, N),
    ('temperature_outside_low', 8, 'h', 1, L),
    ('rain_amount_clicks', 10, 'H', 0, None),
    ('rain_rate_clicks', 12, 'H', 0, None),
    ('rain_amount', 10, 'H', 2, None),
    ('rain_rate', 12, 'H', 2, None),
    ('barometric_pressure', 14, 'H', 3, 0),
    ('solar_radiation', 16, 'h', 0, L),
    ('number_of_wind_samples', 18, 'H', 0, 0),
    ('temperature_inside', 20, 'h', 1, L),
    ('humidity_inside', 22, 'B', 0, 255),
    ('humidity_outside', 23, 'B', 0, 255),
    ('wind_speed', 24, 'B', 0, 255),
    ('wind_speed_high', 25, 'B', 0, 0),
    ('uv_index', 28, 'B', 1, 255),
    ('evapotranspiration', 29, 'B', 3, 0),
    ('solar_radiation_high', 30, 'h', 0, L),
    ('uv_index_high', 32, 'B', 1, 255),
)


def stamp(ctx):
    y = ctx.int('year', 2000, 2063)
    mo = ctx.int('month', 1, 12)
    d = ctx.int('day', 1, 31)
    h = ctx.int('hour', 0, 23)
    mi = ctx.int('minute', 0, 59)
    if mo == 2:
        ctx.assume(d <= (29 if y % 4 == 0 else 28))
    elif mo == 4 or mo == 6 or mo == 9 or mo == 11:
        ctx.assume(d <= 30)
    return (y - 2000) * 512 + mo * 32 + d, h * 100 + mi, datetime.datetime(y, mo, d, h, mi)


def record_bytes(ctx, date, time, version):
    body = ctx.bytes('data', 52)
    ctx.assume(body[26] <= 15 or body[26] == 255)
    ctx.assume(body[27] <= 15 or body[27] == 255)
    return spec.le16(date) + spec.le16(time) + body[4:42] + bytes(bytearray([version])) + body[43:]


def fields(ctx, part):
    body = ctx.bytes('data', 52)
    ctx.assume(body[26] <= 15 or body[26] == 255)
    ctx.assume(body[27] <= 15 or body[27] == 255)
    data = spec.le16(24 * 512 + 7 * 32 + 31) + spec.le16(2355) + body[4:42] + b'\x00' + body[43:]
    minutes = ctx.int('minutes', 1, 120)
    handle = fakes.Handle(data + b'\xff' * 60)
    record = models.ArchiveIntervalRecord.load_from_download(handle, minutes)
    ctx.check(handle.pos == 52, 'reads exactly one record')
    ctx.observe('record', record)
    ctx.check(record['minutes_covered'] == minutes, 'covers the archive interval')
    if part == 'numbers':
        spec.check_fields(ctx, record, data, TABLE)
    else:
        spec.check_direction(ctx, record, data, 'wind_direction_speed_high', 26)
        spec.check_direction(ctx, record, data, 'wind_direction_prevailing', 27)
    ctx.check(record['date'] == datetime.datetime(2024, 7, 31, 23, 55), 'has the time of its stamps')


def times(ctx):
    date, time, dt = stamp(ctx)
    data = spec.le16(date) + spec.le16(time) + b'\x00' * 48
    record = models.ArchiveIntervalRecord.load_from_download(fakes.Handle(data), 5)
    ctx.check(record['date'] == dt, 'has the time of its stamps')
    ctx.check(record['timestamp'] == date * 65536 + time, 'keeps the packed time stamp')
    ctx.observe('date', (record['date'], record['timestamp']))


def empty(ctx):
    date = ctx.int('date', -32768, 0)
    body = ctx.bytes('data', 50)
    data = spec.le16(date) + body
    handle = fakes.Handle(data + b'\xff' * 60)
    try:
        record = models.ArchiveIntervalRecord.load_from_download(handle, 5)
    except Exception:
        # the revision byte of an unused record does not matter
        ctx.fail('an unused record (date stamp below 1) is no error')
        return
    ctx.check(not record, 'an unused record (date stamp below 1) is no record')
    ctx.check(handle.pos == 52, 'reads exactly one record')


def rejects(ctx):
    body = ctx.bytes('data', 52)
    what = ctx.choice('what', ['revision', 'direction 1', 'direction 2'])
    data = spec.le16(24 * 512 + 7 * 32 + 31) + spec.le16(2355) + body[4:]
    if what == 'revision':
        ctx.assume(data[42] != 0)
    else:
        o = 26 if what == 'direction 1' else 27
        ctx.assume(data[o] > 15 and data[o] != 255)
    try:
        models.ArchiveIntervalRecord.load_from_download(fakes.Handle(data), 5)
    except Exception:
        ctx.check(True, 'rejected')
    else:
        ctx.fail('a record of another revision or with an unknown wind direction is rejected: ' + what)


def cases(tier):
    return [
        ('numbers', fields, {'part': 'numbers'}, 'all bytes of one record symbolic'),
        ('directions', fields, {'part': 'directions'}, 'all bytes of one record symbolic'),
        ('times', times, {}, 'any date and time stamp of 2000-2063'),
        ('empty', empty, {}, 'any date stamp below 1, all other bytes symbolic'),
        ('rejects', rejects, {}, 'all bytes of one record symbolic'),
    ]
