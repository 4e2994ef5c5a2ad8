"""Exporting a record to the database."""
import datetime

import mysql.connector.errors
import pytz

from weatherlink import utils
from weatherlink.exporter import mysql as mysql_exporter
from weatherlink.models import ArchiveIntervalRecord, WindDirection

from vlib import db, tables
from vlib.spec import D, same

BOUNDS = ('records with any values of all readings, each present or missing; one outside temperature symbolic where derived '
          'values are stored, too; any date of 2000-2037; the default column map and maps that rename or leave out columns')
ASSUMPTIONS = ['the derived values are those of C17, the UTC time is that of C24', 'columns do not round what is stored']

# the documented meaning of each column
READINGS = (
    ('minutes_covered', 'minutes_covered', 'int', 1, 120),
    ('temperature_outside', 'temperature_outside', 'tenths', -600, 1400),
    ('temperature_outside_low', 'temperature_outside_low', 'tenths', -600, 1400),
    ('temperature_outside_high', 'temperature_outside_high', 'tenths', -600, 1400),
    ('temperature_inside', 'temperature_inside', 'tenths', 0, 1400),
    ('humidity_outside', 'humidity_outside', 'int', 0, 100),
    ('humidity_inside', 'humidity_inside', 'int', 0, 100),
    ('barometric_pressure', 'barometric_pressure', 'thousandths', 20000, 32500),
    ('wind_speed', 'wind_speed', 'decimal', 0, 250),
    ('wind_speed_high', 'wind_speed_high', 'decimal', 0, 250),
    ('rain_amount', 'rain_total', 'hundredths', 0, 9999),
    ('rain_rate', 'rain_rate_high', 'hundredths', 0, 9999),
    ('rain_amount_clicks', 'rain_clicks', 'int', 0, 4095),
    ('rain_rate_clicks', 'rain_click_rate_high', 'int', 0, 4095),
    ('solar_radiation', 'solar_radiation', 'int', 0, 1800),
    ('solar_radiation_high', 'solar_radiation_high', 'int', 0, 1800),
    ('uv_index', 'uv_index', 'tenths', 0, 200),
    ('uv_index_high', 'uv_index_high', 'tenths', 0, 200),
    ('evapotranspiration', 'evapotranspiration', 'thousandths', 0, 255),
)
DIRECTIONS = (('wind_direction_prevailing', 'wind_speed_direction'), ('wind_direction_speed_high', 'wind_speed_high_direction'))
DERIVED = ('wind_run_distance_total', 'temperature_wet_bulb', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high',
           'dew_point_outside', 'dew_point_outside_low', 'dew_point_outside_high', 'dew_point_inside', 'heat_index_outside',
           'heat_index_outside_low', 'heat_index_outside_high', 'heat_index_inside', 'wind_chill', 'wind_chill_low',
           'wind_chill_high', 'thw_index', 'thw_index_low', 'thw_index_high', 'thsw_index', 'thsw_index_low', 'thsw_index_high')
NAMES = ('N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW')
FACTOR = {'tenths': '0.1', 'hundredths': '0.01', 'thousandths': '0.001', 'decimal': '1'}
TABLE = 'weather_archive_record'
NOON = datetime.datetime(2016, 7, 9, 12, 5)
IN_UTC = datetime.datetime(2016, 7, 9, 17, 5)


def record_of(ctx, only, missing, date=NOON, stamp='stamp'):
    """A record whose readings `only` have any value, or none if it is missing; those of `missing` are not in it at all"""
    r = ArchiveIntervalRecord(date=date, timestamp=ctx.int(stamp, 0, 2 ** 32 - 1), record_version=0)
    want = {}
    for name, column, kind, lo, hi in READINGS:
        if name in missing:
            continue
        v = None
        if name in only:
            n = ctx.int(stamp + '-' + name, lo, hi)
            v = n if kind == 'int' else D(n) * D(FACTOR[kind])
            if name != 'minutes_covered':
                gone = ctx.bool(stamp + '-no-' + name)
                if gone:
                    v = None
        r[name] = v
        want[column] = v
    return r, want


def complete(want, r, date=NOON, in_utc=IN_UTC):
    want['timestamp_weatherlink'] = r['timestamp']
    want['timestamp_station'] = date
    want['timestamp_utc'] = in_utc
    want['summary_year'] = date.year
    want['summary_month'] = date.month
    want['summary_day'] = date.day


def exported(ctx, r, base=None, **settings):
    base = tables.Database(ctx) if base is None else base
    with db.Installed(base):
        e = mysql_exporter.MySQLExporter('user', 'secret', 'weather')
        for k, v in settings.items():
            setattr(e, k, v)
        with e:
            e.export_record(r)
    return base


def verify(ctx, base, want, table=TABLE, rows=1):
    ctx.check(len(base.tables[table]) == rows, 'one row more')
    ctx.check(all(len(base.tables[t]) == 0 for t in base.tables if t != table), 'no other table is changed')
    ctx.check(base.commits == 1 and base.uncommitted == 0, 'the row is committed')
    if len(base.tables[table]) != rows:
        return
    row = base.tables[table][-1]
    ctx.cover('stored')
    ctx.observe('row', [(column, row[column]) for column in row])
    for column in row:
        if column == 'record_id':
            continue
        if column in want:
            ctx.check(same(row[column], want[column]), column + ' holds the value of the record')
        else:
            ctx.check(row[column] is None, column + ' is not invented')


def readings(ctx, only, missing):
    r, want = record_of(ctx, only, missing)
    complete(want, r)
    for name, column in DIRECTIONS:
        r[name] = None
    verify(ctx, exported(ctx, r), want)


def directions(ctx):
    r, want = record_of(ctx, (), ())
    r['minutes_covered'] = want['minutes_covered'] = 5
    complete(want, r)
    for name, column in DIRECTIONS:
        n = ctx.int(name, 0, 16)
        there = ctx.fork(n < 16)
        r[name] = WindDirection(n) if there else None
        if there:
            want[column] = ctx_name(n)
    verify(ctx, exported(ctx, r), want)


def ctx_name(n):
    out = NAMES[0]
    for i in range(1, 16):
        out = NAMES[i] if n == i else out
    return out


def derived(ctx, flags_list):
    """Derived values go with the readings"""
    flags = ctx.choice('present', flags_list)
    n = ctx.int('temperature', -57, 135)
    t = D(n)
    values = (('temperature_outside', t), ('temperature_outside_low', t - 2), ('temperature_outside_high', t + D('1.5')),
              ('humidity_outside', 72), ('barometric_pressure', D('29.811')), ('wind_speed', D(6)), ('wind_speed_high', D(17)),
              ('solar_radiation', 305), ('solar_radiation_high', 707), ('temperature_inside', D('68.4')), ('humidity_inside', 39))
    r, want = record_of(ctx, (), ())
    r['minutes_covered'] = want['minutes_covered'] = 10
    for (k, v), f in zip(values, flags):
        if f:
            r[k] = v
            want[k] = v
    complete(want, r)
    for name, column in DIRECTIONS:
        r[name] = None
    for k, v in utils.calculate_all_record_values(dict(r)).items():
        ctx.check(k in DERIVED, 'a known derived value')
        want[k] = v
    verify(ctx, exported(ctx, r), want)


def dates(ctx):
    """Any date and time; the station keeps UTC"""
    y = ctx.int('year', 2000, 2037)
    mo = ctx.int('month', 1, 12)
    d = ctx.int('day', 1, 31)
    minutes = ctx.int('minutes', 0, 1439)
    last = 29 if y % 4 == 0 else 28
    ctx.assume(d <= (last if mo == 2 else (30 if mo == 4 or mo == 6 or mo == 9 or mo == 11 else 31)))
    date = datetime.datetime(y, mo, d, minutes // 60, minutes % 60)
    r, want = record_of(ctx, ('minutes_covered',), (), date)
    complete(want, r, date, date)
    base = exported(ctx, r, station_time_zone=ctx.choice('zone', ['UTC', pytz.utc]))
    row = base.tables[TABLE][0]
    ctx.check(row['summary_year'] == y and row['summary_month'] == mo and row['summary_day'] == d, 'the day of the record')
    verify(ctx, base, want)


def renamed(ctx, leave_out):
    """Other tables, with other columns, some of which are left out"""
    names = ['timestamp', 'date', 'timestamp_utc', 'summary_year', 'summary_month', 'summary_day'] + [x[0] for x in READINGS]
    names += [x[0] for x in DIRECTIONS] + list(DERIVED)
    out = ctx.choice('left out', [[n for n in names if n in some] for some in leave_out])
    columns = {}
    for i, n in enumerate(names):
        columns[n] = mysql_exporter.COLUMN_MAP_DO_NOT_INSERT if n in out else 'c%d' % i
    schema = {'mine': {'columns': {'id': ('bigint', False)}, 'primary': 'id', 'unique': []}}
    for n in names:
        if n not in out:
            like = {'timestamp': 'timestamp_weatherlink', 'date': 'timestamp_station'}.get(n, n)
            for have, column in [(x[0], x[1]) for x in READINGS] + list(DIRECTIONS):
                if n == have:
                    like = column
            schema['mine']['columns'][columns[n]] = tables.SCHEMA[TABLE]['columns'][like][:1] + (True,)
    only = ('rain_amount', 'rain_rate', 'solar_radiation', 'uv_index', 'minutes_covered')
    r, want = record_of(ctx, only, ('evapotranspiration',))
    r['humidity_outside'] = want['humidity_outside'] = 55
    r['temperature_outside'] = want['temperature_outside'] = D('71.3')
    r['wind_direction_prevailing'] = WindDirection(3)
    r['wind_direction_speed_high'] = None
    values = {'timestamp': r['timestamp'], 'date': NOON, 'timestamp_utc': IN_UTC, 'summary_year': 2016, 'summary_month': 7,
              'summary_day': 9, 'wind_direction_prevailing': 'ENE'}
    for x in READINGS:
        if x[1] in want:
            values[x[0]] = want[x[1]]
    for k, v in utils.calculate_all_record_values(dict(r)).items():
        values[k] = v
    base = exported(ctx, r, tables.Database(ctx, schema), archive_table_name='mine', archive_table_column_map=columns)
    ctx.check(len(base.tables['mine']) == 1, 'one row in the configured table')
    row = base.tables['mine'][0]
    for n in names:
        if n not in out:
            ctx.check(same(row[columns[n]], values.get(n)), n + ' is in the column configured for it')
    ctx.check(base.commits == 1 and base.uncommitted == 0, 'the row is committed')
    sent = [v[0] for o, v in base.log if o == 'execute']
    ctx.check(all(mysql_exporter.COLUMN_MAP_DO_NOT_INSERT not in s for s in sent), 'no column for what is not to be inserted')
    ctx.cover('renamed')


def statements(ctx, only):
    """The statement does not depend on the values"""
    sent = []
    for stamp in ('one', 'two'):
        r, want = record_of(ctx, only, ('temperature_inside',), NOON, stamp)
        for name, column in DIRECTIONS:
            r[name] = WindDirection(5)
        base = exported(ctx, r)
        sent.append([v for o, v in base.log if o == 'execute'])
    ctx.check(len(sent[0]) == len(sent[1]), 'the same number of statements')
    for a, b in zip(sent[0], sent[1]):
        ctx.check(a[0] == b[0], 'the same statement for any values')
        ctx.check(a[1] is not None and b[1] is not None and len(a[1]) == len(b[1]) and len(a[1]) > 10,
                  'the values are bound as parameters')
    ctx.cover('compared')


def duplicate(ctx):
    """A record that is there already is refused, and nothing is committed"""
    r, want = record_of(ctx, ('minutes_covered', 'rain_amount'), ())
    there = ctx.int('there', 0, 2 ** 32 - 1)
    same_stamp = ctx.fork(r['timestamp'] == there)
    base = tables.Database(ctx)
    base.put(TABLE, timestamp_weatherlink=there, rain_total=D('0.55'))
    error = None
    try:
        exported(ctx, r, base)
    except mysql.connector.errors.IntegrityError as e:
        error = e
    if same_stamp:
        ctx.check(error is not None, 'the error is seen')
        ctx.check(base.commits == 0 and len(base.tables[TABLE]) == 1, 'nothing is committed')
        ctx.check(base.tables[TABLE][0]['rain_total'] == D('0.55'), 'the row is left alone')
        ctx.cover('refused')
    else:
        ctx.check(error is None, 'no error')
        ctx.check(base.commits == 1 and len(base.tables[TABLE]) == 2, 'one row more')
        ctx.cover('stored')


def product(n):
    return [()] if n == 0 else [a + (v,) for a in product(n - 1) for v in (True, False)]


def cases(tier):
    deep = tier == 'thorough'
    outside = ('temperature_outside', 'temperature_outside_low', 'temperature_outside_high', 'temperature_inside',
               'minutes_covered', 'rain_amount', 'rain_rate', 'rain_amount_clicks', 'rain_rate_clicks')
    rest = ('minutes_covered', 'humidity_outside', 'humidity_inside', 'barometric_pressure', 'wind_speed_high',
            'solar_radiation', 'solar_radiation_high', 'uv_index', 'uv_index_high', 'evapotranspiration')
    everything = [x[0] for x in READINGS]
    out = [
        ('temperatures-and-rain', readings, {'only': outside, 'missing': ()}, 'any of nine readings, the others missing'),
        ('others', readings, {'only': rest, 'missing': ()}, 'any of ten readings, the others missing'),
        ('absent', readings, {'only': ('temperature_outside', 'minutes_covered'),
                               'missing': [n for n in everything if n not in ('temperature_outside', 'minutes_covered')]},
         'a record of one temperature only'),
        ('nothing', readings, {'only': ('minutes_covered',), 'missing': everything[1:]}, 'a record without readings'),
        ('wind-directions', directions, {}, 'any two wind directions, or none'),
        ('dates', dates, {}, 'any minute of 2000-2037'),
        ('duplicate', duplicate, {}, 'any two time stamps'),
        ('statements', statements, {'only': outside}, 'any two records'),
        ('statements-others', statements, {'only': rest}, 'any two records'),
    ]
    for i, names in enumerate([(), everything[:7], ('date', 'timestamp', 'timestamp_utc', 'summary_day'),
                               ('rain_amount', 'wind_direction_prevailing', 'dew_point_outside', 'uv_index')]):
        out.append(('renamed-%d' % i, renamed, {'leave_out': [names]}, 'a column map of its own; %d columns left out' % len(names)))
    everywhere = product(11)
    one = [f for f in everywhere if sum(f) in (0, 11, 10)] + [(True, False, False, True) * 2 + (True, True, True)]
    combos = everywhere if deep else one
    step = 32 if deep else 4
    for i in range(0, len(combos), step):
        out.append(('derived-%d' % i, derived, {'flags_list': combos[i:i + step]}, 'any outside temperature; present readings vary', 5))
    return out
