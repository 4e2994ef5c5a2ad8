"""Daily, weekly, monthly and yearly summaries."""
import datetime

from weatherlink import utils
from weatherlink.exporter import mysql as mysql_exporter

from vlib import db, tables
from vlib.spec import D, same

BOUNDS = ('two records of the day (one, and in the deep tier four, of some; 288, three of which have a reading of any value), other records and daily summaries in the same and '
          'other weeks, months and years; any values of one group of readings at a time, each present or missing')
ASSUMPTIONS = ['columns do not round what is stored', 'C15 and C16 decide the degree days and the 10-minute average',
               'the database returns any of the most frequent directions if there are several']

ARCHIVE = 'weather_archive_record'
SUMMARY = 'weather_calculated_summary'
# column of the summary: (aggregate, column of the records), and the column for its time if it has one
STATISTICS = {}
for _name in ('temperature_outside', 'temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index',
              'thsw_index'):
    STATISTICS[_name + '_low'] = ('min', _name + '_low')
    STATISTICS[_name + '_high'] = ('max', _name + '_high')
    STATISTICS[_name + '_average'] = ('avg', _name)
for _name in ('temperature_inside', 'humidity_outside', 'humidity_inside', 'barometric_pressure', 'dew_point_inside',
              'heat_index_inside'):
    STATISTICS[_name + '_low'] = ('min', _name)
    STATISTICS[_name + '_high'] = ('max', _name)
    STATISTICS[_name + '_average'] = ('avg', _name)
for _name in ('solar_radiation', 'uv_index'):
    STATISTICS[_name + '_low'] = ('min', _name)
    STATISTICS[_name + '_high'] = ('max', _name + '_high')
    STATISTICS[_name + '_average'] = ('avg', _name)
STATISTICS['wind_speed_high'] = ('max', 'wind_speed_high')
STATISTICS['wind_speed_average'] = ('avg', 'wind_speed')
STATISTICS['wind_run_distance_total'] = ('sum', 'wind_run_distance_total')
STATISTICS['rain_total'] = ('sum', 'rain_total')
STATISTICS['rain_rate_high'] = ('max', 'rain_rate_high')
STATISTICS['evapotranspiration'] = ('sum', 'evapotranspiration')

TIMES = [c for c in tables.SCHEMA[SUMMARY]['columns'] if c.endswith('_timestamp')]
WIND = ('wind_speed_high_10_minute_average', 'wind_speed_high_10_minute_average_direction',
        'wind_speed_high_10_minute_average_start', 'wind_speed_high_10_minute_average_end')
GROUPS = (
    ('temperature', ('temperature_outside', 'temperature_outside_low', 'temperature_outside_high')),
    ('inside', ('temperature_inside', 'humidity_inside', 'dew_point_inside', 'heat_index_inside')),
    ('humidity', ('humidity_outside', 'barometric_pressure', 'evapotranspiration')),
    ('wind', ('wind_speed', 'wind_speed_high', 'wind_run_distance_total')),
    ('rain', ('rain_total', 'rain_rate_high')),
    ('sun', ('solar_radiation', 'solar_radiation_high', 'uv_index', 'uv_index_high')),
    ('wet_bulb', ('temperature_wet_bulb', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high')),
    ('dew_point', ('dew_point_outside', 'dew_point_outside_low', 'dew_point_outside_high')),
    ('heat_index', ('heat_index_outside', 'heat_index_outside_low', 'heat_index_outside_high')),
    ('wind_chill', ('wind_chill', 'wind_chill_low', 'wind_chill_high')),
    ('thw', ('thw_index', 'thw_index_low', 'thw_index_high')),
    ('thsw', ('thsw_index', 'thsw_index_low', 'thsw_index_high')),
)
WHOLE = ('humidity_outside', 'humidity_inside', 'wind_speed', 'wind_speed_high', 'solar_radiation', 'solar_radiation_high')
UNSIGNED = ('humidity_outside', 'humidity_inside', 'barometric_pressure', 'wind_speed', 'wind_speed_high', 'rain_total',
            'wind_run_distance_total', 'rain_rate_high', 'solar_radiation', 'solar_radiation_high', 'uv_index',
            'uv_index_high', 'evapotranspiration')

DAY = datetime.datetime(2016, 5, 4, 0, 0)  # a Wednesday
OTHER_DAY = datetime.datetime(2016, 5, 2, 0, 0)  # the same week
OTHER_WEEK = datetime.datetime(2016, 5, 18, 0, 0)  # the same month
OTHER_MONTH = datetime.datetime(2016, 8, 18, 0, 0)  # the same year
OTHER_YEAR = datetime.datetime(2015, 5, 4, 0, 0)
LATER_YEAR = datetime.datetime(2017, 5, 4, 0, 0)


def reading(ctx, label, name, nullable=True):
    n = ctx.int(label, 0 if name in UNSIGNED else -999, 999)
    v = n if name in WHOLE else D(n) * D('0.1')
    if nullable and ctx.bool('no ' + label):
        return None
    return v


def record(base, at, minutes=5, **values):
    return base.put(ARCHIVE, timestamp_weatherlink=len(base.tables[ARCHIVE]), timestamp_station=at, timestamp_utc=at,
                    minutes_covered=minutes, summary_year=at.year, summary_month=at.month, summary_day=at.day, **values)


def recalculated(base, dates):
    with db.Installed(base):
        e = mysql_exporter.MySQLExporter('user', 'secret', 'weather')
        with e:
            e.recalculate_summaries_for_dates(dates)


def of(how, values):
    values = [v for v in values if v is not None]
    if not values:
        return None
    if how == 'avg' or how == 'sum':
        total = D(0)
        for v in values:
            total = total + v
        return total if how == 'sum' else total / len(values)
    out = values[0]
    for v in values[1:]:
        if how == 'min':
            out = v if v < out else out
        else:
            out = v if v > out else out
    return out


def find(base, kind, year, month, week, day):
    return [r for r in base.tables[SUMMARY] if r['summary_type'] == kind and r['summary_year'] == year
            and r['summary_month'] == month and r['summary_week'] == week and r['summary_day'] == day]


def check_statistics(ctx, row, records, what):
    """The columns of the summary over the records, in order of time"""
    for column, (how, source) in STATISTICS.items():
        want = of(how, [r[source] for r in records])
        ctx.check(same(row[column], want), '%s: %s' % (what, column))
        if column + '_timestamp' in TIMES:
            when = None
            for r in reversed(records):
                if want is not None and r[source] is not None and r[source] == want:
                    when = r['timestamp_station']
            ctx.check(same(row[column + '_timestamp'], when), '%s: the first time of %s' % (what, column))


def modes(values):
    best = 0
    counts = {}
    for v in values:
        if v is not None:
            counts[v] = counts.get(v, 0) + 1
            best = max(best, counts[v])
    return [v for v in counts if counts[v] == best]


def snapshot(row):
    return dict(row)


PERIODS = (('daily', ('DAILY', 2016, 5, 0, 4)), ('weekly', ('WEEKLY', 2016, 0, 18, 0)), ('monthly', ('MONTHLY', 2016, 5, 0, 0)),
           ('yearly', ('YEARLY', 2016, 0, 0, 0)))


def begin(ctx, existing):
    base = tables.Database(ctx)
    if existing:
        for what, (kind, year, month, week, day) in PERIODS:
            stale = {}
            for c in tables.SCHEMA[SUMMARY]['columns']:
                t = tables.SCHEMA[SUMMARY]['columns'][c][0]
                if c not in ('summary_id', 'week_start', 'week_end') and t.startswith(('decimal', 'smallint', 'tinyint')):
                    stale[c] = 77
                if t == 'datetime':
                    stale[c] = OTHER_YEAR
            stale.update(summary_type=kind, summary_year=year, summary_month=month, summary_week=week, summary_day=day)
            base.put(SUMMARY, **stale)
    # other years, which are of no concern
    for year in (OTHER_YEAR, LATER_YEAR):
        far = dict((c, D(9999)) for _, group in GROUPS for c in group)
        record(base, year + datetime.timedelta(minutes=10), wind_speed_direction='S', wind_speed_high_direction='S', **far)
        record(base, year + datetime.timedelta(minutes=20), **dict((c, D(-9999)) for _, group in GROUPS for c in group))
    return base


def end(ctx, base, before, existing):
    """The rows of the periods, none other of which was changed"""
    ctx.check(base.uncommitted == 0, 'everything is committed')
    ctx.check(len(base.open_cursors()) == 0, 'no cursor is left open')
    rows = {}
    for what, key in PERIODS:
        found = find(base, *key)
        ctx.check(len(found) == 1, 'one %s summary' % what)
        rows[what] = found[0]
        if what == 'weekly' and not existing:
            ctx.check(found[0]['week_start'] == datetime.date(2016, 5, 2) and found[0]['week_end'] == datetime.date(2016, 5, 8),
                      'the days of the week')
    ctx.check(len(base.tables[SUMMARY]) == len(before) + (0 if existing else 4), 'no other summary')
    ctx.observe('rows', [[(c, r[c]) for c in r] for r in base.tables[SUMMARY]])
    return rows


def statistics(ctx, group, count, existing):
    """Values of one group in the records of a day"""
    existing = ctx.choice('existing', existing)
    base = begin(ctx, existing)
    records = []
    for i in range(count):
        values = {}
        for c in group:
            values[c] = reading(ctx, '%s%d' % (c, i), c)
        records.append(record(base, DAY + datetime.timedelta(minutes=5 * i + 5), **values))
    before = [r['summary_id'] for r in base.tables[SUMMARY]]
    recalculated(base, [DAY])
    rows = end(ctx, base, before, existing)
    for what, key in PERIODS:
        check_statistics(ctx, rows[what], records, what)
    ctx.cover('summaries')


def many(ctx, group, count, symbolic):
    """A day of many records, with values of one group, a few of which can be anything"""
    base = begin(ctx, False)
    records = []
    for i in range(count):
        values = {}
        for j, c in enumerate(group):
            if i in symbolic and j == 0:
                values[c] = reading(ctx, '%s%d' % (c, i), c)
            else:
                n = (31 * i + 7 * j) % 97
                values[c] = n if c in WHOLE else D(n) * D('0.1')
        records.append(record(base, DAY + datetime.timedelta(minutes=5 * i), **values))
    before = [r['summary_id'] for r in base.tables[SUMMARY]]
    recalculated(base, [DAY])
    rows = end(ctx, base, before, False)
    for what, key in PERIODS:
        check_statistics(ctx, rows[what], records, what)
    ctx.cover('summaries')


def wider(ctx, group):
    """A record of the day, of the same week, of the same month and of the same year"""
    base = begin(ctx, False)
    records = []
    for i, day in enumerate((DAY, OTHER_DAY, OTHER_WEEK, OTHER_MONTH)):
        values = {}
        for c in group:
            values[c] = reading(ctx, '%s%d' % (c, i), c, False)
        at = day + datetime.timedelta(hours=13, minutes=5)
        records.append(record(base, at, **values))
        if i:
            daily = dict(values)
            for column, (how, source) in STATISTICS.items():
                if source in values:
                    daily[column] = values[source]
                    if column + '_timestamp' in TIMES:
                        daily[column + '_timestamp'] = at
            known = dict((k, v) for k, v in daily.items() if k in tables.SCHEMA[SUMMARY]['columns'])
            base.put(SUMMARY, summary_type='DAILY', summary_year=at.year, summary_month=at.month, summary_week=0,
                     summary_day=at.day, **known)
    before = [r['summary_id'] for r in base.tables[SUMMARY]]
    recalculated(base, [DAY])
    rows = end(ctx, base, before, False)
    a, b, c, d = records
    check_statistics(ctx, rows['daily'], [a], 'daily')
    check_statistics(ctx, rows['weekly'], [b, a], 'weekly')
    check_statistics(ctx, rows['monthly'], [b, a, c], 'monthly')
    check_statistics(ctx, rows['yearly'], [b, a, c, d], 'yearly')
    ctx.cover('summaries')


def winds(ctx, minutes, patterns):
    """The directions, degree days and 10-minute average of a day"""
    pattern = ctx.choice('directions', patterns)
    base = begin(ctx, False)
    # a storm around the day, and on the same day of other months and years
    for at in (DAY, DAY + datetime.timedelta(days=1), datetime.datetime(2016, 4, 4), datetime.datetime(2016, 6, 4), OTHER_YEAR, LATER_YEAR):
        record(base, at - datetime.timedelta(minutes=5) if at == DAY else at + datetime.timedelta(minutes=10), 10, wind_speed=500)
    records = []
    for i, (prevailing, high) in enumerate(pattern):
        s = reading(ctx, 'speed%d' % i, 'wind_speed', False)
        records.append(record(base, DAY + datetime.timedelta(minutes=minutes * (i + 1)), minutes, wind_speed=s,
                              wind_speed_direction=prevailing, wind_speed_high=s + 5, wind_speed_high_direction=high))
    before = [r['summary_id'] for r in base.tables[SUMMARY]]
    recalculated(base, [DAY])
    rows = end(ctx, base, before, False)
    top = of('max', [r['wind_speed_high'] for r in records])
    average = utils.calculate_10_minute_wind_average(
        [(r['wind_speed'], r['wind_speed_direction'], r['timestamp_station'], minutes) for r in records])
    start = None if average[2] is None else average[2] - datetime.timedelta(minutes=1)
    stop = None if average[3] is None else average[3].time()
    want = (average[0], average[1], start, stop)
    for what, key in PERIODS:
        row = rows[what]
        m = modes([p for p, h in pattern])
        ctx.check(row['wind_direction_prevailing'] in m if m else row['wind_direction_prevailing'] is None,
                  what + ': the most frequent direction')
        check_high_direction(ctx, row, records, top, what)
        for c, w in zip(WIND, want):
            ctx.check(same(row[c], w), what + ': ' + c)
    ctx.cover('summaries')


def check_high_direction(ctx, row, records, top, what):
    counts = {}
    for r in records:
        d = r['wind_speed_high_direction']
        if d is not None:
            counts[d] = counts.get(d, 0) + (1 if r['wind_speed_high'] == top else 0)
    most = 0
    for d in counts:
        most = counts[d] if counts[d] > most else most
    got = row['wind_speed_high_direction']
    if got is None:
        ctx.check(most == 0, what + ': the direction of the highest wind')
        return
    has = 0
    for d in counts:
        has = counts[d] if got == d else has
    ctx.check(has > 0 and has == most, what + ': the most frequent direction of the highest wind')


def aggregated(ctx, share):
    """Degree days, wind runs and 10-minute averages of several days, weeks and months"""
    base = begin(ctx, False)
    at = DAY + datetime.timedelta(minutes=5)
    t = ctx.int('average', -600, 1300)
    run = ctx.int('run', 0, 9999)
    record(base, at, temperature_outside=D(t) * D('0.1'), wind_run_distance_total=D(run) * D('0.01'))
    heat = utils.calculate_heating_degree_days(D(t) * D('0.1'))
    cool = utils.calculate_cooling_degree_days(D(t) * D('0.1'))
    mine = {'integrated_heating_degree_days': heat, 'integrated_cooling_degree_days': cool,
            'wind_run_distance_total': D(run) * D('0.01')}
    there = []
    for i, (kind, day, week) in enumerate((('DAILY', OTHER_DAY, 0), ('DAILY', OTHER_WEEK, 0), ('DAILY', OTHER_MONTH, 0),
                                           ('WEEKLY', OTHER_MONTH, 33), ('MONTHLY', OTHER_MONTH, 0),
                                           ('DAILY', OTHER_YEAR, 0), ('WEEKLY', OTHER_YEAR, 19), ('MONTHLY', OTHER_YEAR, 0),
                                           ('DAILY', LATER_YEAR, 0), ('WEEKLY', LATER_YEAR, 18), ('MONTHLY', LATER_YEAR, 0))):
        values = {}
        if i < 5:
            for c in ('integrated_heating_degree_days', 'integrated_cooling_degree_days', 'wind_run_distance_total'):
                n = ctx.int('%s%d' % (c, i), 0, 9999)
                values[c] = D(n) * D('0.1')
            if share == i:
                for c in list(values):
                    values[c] = None
            n = ctx.int('wind%d' % i, 1, 9999)
            values[WIND[0]] = D(n) * D('0.01')
            if i == 1:
                values[WIND[0]] = None
        else:
            values = dict((c, D(5000)) for c in ('integrated_heating_degree_days', 'integrated_cooling_degree_days',
                                                 'wind_run_distance_total', WIND[0]))
        if values[WIND[0]] is not None:
            values[WIND[1]] = ('N', 'E', 'S', 'W', 'SW', 'NW', 'NE', 'SE', 'NNE', 'ENE', 'ESE')[i]
            values[WIND[2]] = day + datetime.timedelta(minutes=i)
            values[WIND[3]] = datetime.time(0, 10 + i)
        base.put(SUMMARY, summary_type=kind, summary_year=day.year, summary_month=0 if kind == 'WEEKLY' else day.month,
                 summary_week=week, summary_day=day.day if kind == 'DAILY' else 0, **values)
        there.append(values)
    before = [r['summary_id'] for r in base.tables[SUMMARY]]
    old = [snapshot(r) for r in base.tables[SUMMARY]]
    recalculated(base, [DAY])
    rows = end(ctx, base, before, False)
    for r, s in zip(base.tables[SUMMARY], old):
        ctx.check(all(same(r[c], s[c]) for c in s), 'the other summaries are left alone')
    a, b, c, w, m = there[:5]
    for what, parts in (('daily', [mine]), ('weekly', [mine, a]), ('monthly', [mine, a, b]), ('yearly', None)):
        row = rows[what]
        sources = parts if parts is not None else [rows['monthly'], m]
        for col in ('integrated_heating_degree_days', 'integrated_cooling_degree_days'):
            ctx.check(same(row[col], of('sum', [p[col] for p in sources])), what + ': ' + col)
        if what != 'daily':
            days = parts if parts is not None else [mine, a, b, c]
            got = row['wind_run_distance_daily_average']
            total = [p['wind_run_distance_total'] for p in days]
            ctx.check(same(got, of('avg', total)) if len([x for x in total if x is not None]) != 3 else
                      close(got, of('avg', total)), what + ': the average wind run of a day')
            winds_of = [p for p in (parts if parts is not None else [rows['monthly'], m]) if p.get(WIND[0]) is not None]
            top = of('max', [p[WIND[0]] for p in winds_of])
            ctx.check(same(row[WIND[0]], top), what + ': the highest 10-minute average')
            matches = False
            for p in winds_of:
                matches = matches or all(same(row[x], p[x]) for x in WIND)
            ctx.check(matches if winds_of else all(row[x] is None for x in WIND), what + ': with its direction and times')
    weekly = of('avg', [rows['weekly']['wind_run_distance_total'], w['wind_run_distance_total']])
    monthly = of('avg', [rows['monthly']['wind_run_distance_total'], m['wind_run_distance_total']])
    ctx.check(same(rows['yearly']['wind_run_distance_weekly_average'], weekly), 'yearly: the average wind run of a week')
    ctx.check(same(rows['yearly']['wind_run_distance_monthly_average'], monthly), 'yearly: the average wind run of a month')
    ctx.cover('summaries')


def close(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a - b < D('1e-9') and b - a < D('1e-9')


def empty(ctx):
    """No record at all, or none with a reading"""
    base = begin(ctx, ctx.choice('existing', [True, False]))
    existing = len(base.tables[SUMMARY]) > 0
    records = ctx.choice('records', [0, 1, 3])
    for i in range(records):
        record(base, DAY + datetime.timedelta(minutes=5 * i + 5))
    before = [r['summary_id'] for r in base.tables[SUMMARY]]
    recalculated(base, [DAY])
    rows = end(ctx, base, before, existing)
    fixed = ('summary_id', 'summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day', 'week_start', 'week_end')
    for what, key in PERIODS:
        for c in rows[what]:
            if c not in fixed and not (what == 'daily' and c.startswith('wind_run_distance_') and c.endswith('_average')):
                if existing and not touched(what, c):
                    continue
                ctx.check(rows[what][c] is None, '%s: %s is empty' % (what, c))
    ctx.cover('summaries')


def touched(what, column):
    """The statistic belongs to summaries of that length"""
    if column in ('wind_run_distance_weekly_average', 'wind_run_distance_monthly_average'):
        return what == 'yearly'
    if column == 'wind_run_distance_daily_average':
        return what != 'daily'
    return True


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for i, (name, group) in enumerate(GROUPS):
        out.append(('day-' + name, statistics, {'group': group, 'count': 2, 'existing': [i % 2 == 0] if not deep else [True, False]},
                    'two records with any %s readings' % name, 3))
        out.append(('wider-' + name, wider, {'group': group}, 'records of four days with any %s readings' % name, 3))
        if deep:
            out.append(('day4-' + name, statistics, {'group': group, 'count': 4, 'existing': [False]},
                        'four records with any %s readings' % name, 9))
        out.append(('one-' + name, statistics, {'group': group, 'count': 1, 'existing': [True, False]},
                    'one record with any %s readings' % name))
    for i, (name, group) in enumerate(GROUPS):
        out.append(('many-' + name, many, {'group': group, 'count': 288, 'symbolic': (0, 143, 287)},
                    '288 records, three of them with any ' + name, 40))
    patterns = [
        (('N', 'N'), ('N', 'E'), ('E', 'E')), (('N', None), ('E', 'E'), ('E', 'S')), ((None, None), (None, None), (None, None)),
        (('S', 'SSW'), ('SW', 'SSW'), (None, 'W')), (('W', 'W'),), (('N', None), (None, 'N')),
    ]
    for minutes in (5, 15, 1):
        for i, p in enumerate(patterns):
            out.append(('directions-%d-%d' % (minutes, i), winds, {'minutes': minutes, 'patterns': [p]},
                        'three records of %d minutes with any speeds' % minutes, 4))
    for share in (None, 0, 2, 4):
        out.append(('aggregated-%s' % share, aggregated, {'share': share}, 'five other summaries with any sums', 4))
    out.append(('empty', empty, {}, 'no readings'))
    return out
