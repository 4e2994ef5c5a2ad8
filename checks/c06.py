"""LOOP2 packets (99 bytes)."""
from weatherlink import models

from checks import c02
from vlib import fakes, spec

BOUNDS = 'every 99-byte packet'
ASSUMPTIONS = ['a wind direction above 360 degrees is no direction']

L = 32767
TABLE = (
    ('barometric_pressure', 7, 'H', 3, 0),
    ('temperature_inside', 9, 'h', 1, L),
    ('humidity_inside', 11, 'B', 0, 255),
    ('temperature_outside', 12, 'h', 1, L),
    ('wind_speed', 14, 'B', 0, 255),
    ('wind_direction_degrees', 16, 'H', 0, 0),
    ('wind_speed_10_minute_average', 18, 'H', 1, 0),
    ('wind_speed_2_minute_average', 20, 'H', 1, 0),
    ('wind_speed_10_minute_gust', 22, 'H', 1, 0),
    ('wind_speed_10_minute_gust_direction_degrees', 24, 'H', 0, 0),
    ('dew_point', 30, 'h', 0, 255),
    ('humidity_outside', 33, 'B', 0, 255),
    ('heat_index', 35, 'h', 0, 255),
    ('wind_chill', 37, 'h', 0, 255),
    ('thsw_index', 39, 'h', 0, 255),
    ('rain_rate_clicks', 41, 'H', 0, None),
    ('uv_index', 43, 'B', 1, 255),
    ('solar_radiation', 44, 'H', 0, L),
    ('rain_clicks_this_storm', 46, 'H', 0, None),
    ('rain_clicks_today', 50, 'H', 0, None),
    ('rain_clicks_15_minutes', 52, 'H', 0, None),
    ('rain_clicks_1_hour', 54, 'H', 0, None),
    ('evapotranspiration', 56, 'H', 3, 0),
    ('rain_clicks_24_hours', 58, 'H', 0, None),
    ('minute_in_hour', 79, 'B', 0, 60),
)
RAIN = (('rain_rate', 41), ('rain_amount_this_storm', 46), ('rain_amount_today', 50), ('rain_amount_15_minutes', 52),
        ('rain_amount_1_hour', 54), ('rain_amount_24_hours', 58))
WIND = (('wind_direction', 16), ('wind_speed_10_minute_gust_direction', 24))
TRENDS = {-60: 'falling_rapidly', -20: 'falling_slowly', 0: 'steady', 20: 'rising_slowly', 60: 'rising_rapidly'}



def parts():
    out = []
    for o, b in ((0, b'LOO'), (4, b'\x01'), (5, b'\xff\x7f'), (15, b'\xff'), (26, b'\xff\x7f\xff\x7f'), (32, b'\xff'),
                 (34, b'\xff'), (71, b'\xff'), (83, b'\xff\x7f' * 6), (95, b'\n\r')):
        out.append((o, b))
    return out


def a_packet(ctx):
    data = ctx.bytes('data', 99)
    for o, b in parts():
        data = data[:o] + b + data[o + len(b):]
    return data


def load(data):
    handle = fakes.Handle(data + b'\x00' * 10)
    return handle, models.LoopRecord.load_loop_2_from_connection(handle)


def fields(ctx, half):
    data = a_packet(ctx)
    handle, record = load(data)
    ctx.check(handle.pos == 99, 'reads exactly one packet')
    ctx.check(record['record_type'] == 2, 'is a LOOP2 record')
    spec.check_fields(ctx, record, data, TABLE[half::2])


def derived(ctx, part):
    data = a_packet(ctx)
    handle, record = load(data)
    if part == 'rain':
        for name, o in RAIN:
            clicks = spec.u16(data, o)
            if clicks == 0:
                ctx.check(record[name] is None or record[name] == 0, name + ' without rain')
            else:
                ctx.check(record[name] is not None and record[name] * 100 == clicks, name + ' is a hundredth of an inch per click')
    else:
        for name, o in WIND:
            deg = spec.u16(data, o)
            got = record[name]
            if deg < 1 or deg > 360:
                ctx.check(got is None, name + ' is None without a direction')
            else:
                # twice the distance to the center of the sector, 22.5 degrees wide
                ctx.check(got is not None, name + ' is known')
                if got is not None:
                    off = (2 * deg - 45 * got.value + 360) % 720 - 360     # in half degrees
                    ctx.check(off >= -23 and off <= 23, name + ' is the sector whose center is nearest, to half a degree')
        trend = spec.s8(data, 3)
        got = record['barometric_trend']
        want = None
        for value in TRENDS:
            if trend == value:
                want = models.BarometricTrend[TRENDS[value]]
        ctx.check(spec.same(got, want), 'the barometric trend is the one sent, or None')
    ctx.observe('record', record)


def crc(ctx, n):
    data = a_packet(ctx)
    body = data[:97]
    word = c02.bit_crc(body)
    sent = ctx.int('crc', 0, 65535)
    framed = body + bytes(bytearray([sent // 256, sent % 256]))
    handle, record = load(framed)
    ctx.check(bool_of(record['crc_match']) == (sent == word), 'crc_match tells whether the CRC is right')


def bool_of(x):
    return True if x else False


def rejects(ctx, index):
    o, b = parts()[index]
    data = a_packet(ctx)
    bad = ctx.bytes('bad', len(b))
    ctx.assume(bad != b)
    data = data[:o] + bad + data[o + len(b):]
    try:
        load(data)
    except Exception:
        ctx.check(True, 'rejected')
    else:
        ctx.fail('a packet whose fixed bytes at %d are wrong is rejected' % o)


def short(ctx):
    data = a_packet(ctx)
    n = ctx.choice('length', [0, 1, 2, 50, 94, 97, 98])
    try:
        models.LoopRecord.load_loop_2_from_connection(fakes.Handle(data[:n]))
    except Exception:
        ctx.check(True, 'rejected')
    else:
        ctx.fail('a packet that ends early is rejected')


def cases(tier):
    return [
        ('fields-0', fields, {'half': 0}, 'all data bytes of one packet symbolic'),
        ('fields-1', fields, {'half': 1}, 'all data bytes of one packet symbolic'),
        ('rain', derived, {'part': 'rain'}, 'all data bytes of one packet symbolic'),
        ('wind', derived, {'part': 'wind'}, 'all data bytes of one packet symbolic'),
        ('crc', crc, {'n': 99}, 'all data bytes and the CRC of one packet symbolic'),
        ('short', short, {}, 'packets of 0, 1, 2, 50, 94, 97 and 98 bytes'),
    ] + [('rejects-%d' % i, rejects, {'index': i}, 'all bytes of one packet symbolic') for i in range(len(parts()))]
