"""Daily summaries of WLK files (two blocks of 88 bytes)."""
import datetime

from weatherlink import models

from vlib import fakes, spec

BOUNDS = 'every 176-byte summary of any day of the years 1-9999'
ASSUMPTIONS = ['wind directions are 0-15 or 255']

L, N = 32767, -32768
TABLE = (
    ('minutes', 2, 'h', 0, None),
    ('temperature_outside_high', 4, 'h', 1, N),
    ('temperature_outside_low', 6, 'h', 1, L),
    ('temperature_inside_high', 8, 'h', 1, N),
    ('temperature_inside_low', 10, 'h', 1, L),
    ('temperature_outside_average', 12, 'h', 1, L),
    ('temperature_inside_average', 14, 'h', 1, L),
    ('wind_chill_high', 16, 'h', 1, N),
    ('wind_chill_low', 18, 'h', 1, L),
    ('dew_point_high', 20, 'h', 1, N),
    ('dew_point_low', 22, 'h', 1, L),
    ('wind_chill_average', 24, 'h', 1, L),
    ('dew_point_average', 26, 'h', 1, L),
    ('humidity_outside_high', 28, 'h', 1, 255),
    ('humidity_outside_low', 30, 'h', 1, 255),
    ('humidity_inside_high', 32, 'h', 1, 255),
    ('humidity_inside_low', 34, 'h', 1, 255),
    ('humidity_outside_average', 36, 'h', 1, 255),
    ('barometric_pressure_high', 38, 'h', 3, 0),
    ('barometric_pressure_low', 40, 'h', 3, 0),
    ('barometric_pressure_average', 42, 'h', 3, 0),
    ('wind_speed_high', 44, 'h', 1, 0),
    ('wind_speed_average', 46, 'h', 1, 0),
    ('wind_daily_run', 48, 'h', 1, 0),
    ('wind_speed_high_10_minute_average', 50, 'h', 1, N),
    ('rain_total', 54, 'h', 3, None),
    ('rain_rate_high', 56, 'h', 2, None),
    ('total_wind_packets', 92, 'h', 0, N),
    ('heat_index_high', 102, 'h', 1, N),
    ('heat_index_low', 104, 'h', 1, L),
    ('heat_index_average', 106, 'h', 1, L),
    ('thw_index_high', 112, 'h', 1, N),
    ('thw_index_low', 114, 'h', 1, L),
    ('integrated_heating_degree_days', 116, 'h', 1, 0),
    ('temperature_wet_bulb_high', 118, 'h', 1, N),
    ('temperature_wet_bulb_low', 120, 'h', 1, L),
    ('temperature_wet_bulb_average', 122, 'h', 1, L),
    ('integrated_cooling_degree_days', 163, 'h', 1, 0),
)


def a_summary(ctx):
    body = ctx.bytes('data', 176)
    for o in (52, 53):
        ctx.assume(body[o] <= 15 or body[o] == 255)
    return b'\x02' + body[1:88] + b'\x03' + body[89:]


def fields(ctx, half):
    data = a_summary(ctx)
    handle = fakes.Handle(data + b'\xff' * 100)
    summary = models.DailySummary.load_from_wlk(handle, 2024, 2, 29)
    ctx.check(handle.pos == 176, 'reads exactly one summary')
    ctx.observe('summary', summary)
    spec.check_fields(ctx, summary, data, TABLE[half::2])
    if half == 0:
        for name, o in (('wind_speed_high_direction', 52), ('wind_speed_high_10_minute_average_direction', 53)):
            code = data[o]
            got = summary[name]
            if code == 255:
                ctx.check(got is None, name + ' is None for code 255')
            else:
                ctx.check(got is not None and got.value == code, name + ' is the sector sent')


def day(ctx):
    y = ctx.int('year', 1, 9999)
    mo = ctx.int('month', 1, 12)
    d = ctx.int('day', 1, 28)
    data = b'\x02' + b'\x00' * 87 + b'\x03' + b'\x00' * 87
    summary = models.DailySummary.load_from_wlk(fakes.Handle(data), y, mo, d)
    ctx.check(summary['date'] == datetime.date(y, mo, d), 'belongs to its day')
    ctx.observe('date', summary['date'])


def rejects(ctx):
    body = ctx.bytes('data', 176)
    what = ctx.choice('what', ['first block', 'second block', 'direction 1', 'direction 2'])
    data = body
    if what == 'first block':
        ctx.assume(body[0] != 2)
    elif what == 'second block':
        ctx.assume(body[88] != 3)
        data = b'\x02' + body[1:]
    else:
        o = 52 if what == 'direction 1' else 53
        ctx.assume(body[o] > 15 and body[o] != 255)
        data = b'\x02' + body[1:88] + b'\x03' + body[89:]
    try:
        models.DailySummary.load_from_wlk(fakes.Handle(data), 2024, 2, 29)
    except Exception:
        ctx.check(True, 'rejected')
    else:
        ctx.fail('a summary with an unknown code is rejected: ' + what)


def cases(tier):
    return [
        ('fields-0', fields, {'half': 0}, 'all bytes of one summary symbolic'),
        ('fields-1', fields, {'half': 1}, 'all bytes of one summary symbolic'),
        ('day', day, {}, 'any year and month, days 1-28'),
        ('rejects', rejects, {}, 'all bytes of one summary symbolic'),
    ]
