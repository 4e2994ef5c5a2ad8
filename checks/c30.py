"""Weekly summaries."""
import datetime

from weatherlink.exporter import mysql as mysql_exporter

from vlib import db, tables
from vlib.spec import D, same

BOUNDS = ('every second of each of the years listed (quick: 5 years, among them leap years, years that begin with week 53 of '
          'the year before, and years that end with week 1 of the next; thorough: 2000 to 2027, 2099 and 2100); one archive '
          'record at any second, or one daily summary of any day, up to 400 days away; for one year also with a fraction of a '
          'second in the dates')
ASSUMPTIONS = ['the summaries of the day itself are those of C28']
COVER = {'record 2010': ['inside', 'outside', 'filed under another year'],
         'daily 2012': ['a day of another month', 'a day of another year', 'a day of another week']}

ARCHIVE = 'weather_archive_record'
SUMMARY = 'weather_calculated_summary'
SECOND = datetime.timedelta(seconds=1)
DAY = datetime.timedelta(days=1)


def recalculated(base, dates):
    with db.Installed(base):
        e = mysql_exporter.MySQLExporter('user', 'secret', 'weather')
        with e:
            e.recalculate_summaries_for_dates(dates)
    rows = [r for r in base.tables[SUMMARY] if r['summary_type'] == 'WEEKLY']
    base.ctx.check(len(rows) == 1, 'one weekly summary')
    return rows[0]


def date_in(ctx, year):
    days = (datetime.date(year + 1, 1, 1) - datetime.date(year, 1, 1)).days
    return datetime.datetime(year, 1, 1) + ctx.int('second', 0, days * 86400 - 1) * SECOND


def monday_of(date):
    return date.replace(hour=0, minute=0, second=0, microsecond=0) - date.weekday() * DAY


def check_filed(ctx, row, monday):
    """Under the ISO year and week: the year that the Thursday is in, of whose Thursdays it is the week-th"""
    thursday = monday + 3 * DAY
    sunday = monday + 6 * DAY
    week = (thursday - datetime.datetime(thursday.year, 1, 1)).days // 7 + 1
    ctx.check(row['summary_year'] == thursday.year, 'filed under the ISO year')
    ctx.check(row['summary_week'] == week, 'filed under the ISO week')
    ctx.check(row['summary_month'] == 0 and row['summary_day'] == 0, 'of no month or day')
    ctx.check(row['week_start'] == monday.date() and row['week_end'] == sunday.date(), 'from Monday to Sunday')
    ctx.observe('filed', (row['summary_year'], row['summary_week'], row['week_start'], row['week_end']))


def record(ctx, year, fraction=0):
    date = date_in(ctx, year) + datetime.timedelta(microseconds=fraction)
    monday = monday_of(date)
    at = monday + ctx.int('at', -400 * 86400, 400 * 86400) * SECOND
    base = tables.Database(ctx)
    base.put(ARCHIVE, timestamp_weatherlink=1, timestamp_station=at, timestamp_utc=at, minutes_covered=1, summary_year=at.year,
             summary_month=at.month, summary_day=at.day, rain_total=D('1.5'))
    row = recalculated(base, [date])
    if at >= monday and at < monday + 7 * DAY:
        ctx.check(same(row['rain_total'], D('1.5')), 'a record from Monday to Sunday counts')
        ctx.cover('inside')
    else:
        ctx.check(row['rain_total'] is None, 'a record of another week does not count')
        ctx.cover('outside')
    ctx.observe('rain', row['rain_total'])
    check_filed(ctx, row, monday)
    if row['summary_year'] != year:
        ctx.cover('filed under another year')


def daily(ctx, year):
    """The daily summary of another day of the week (that day's own one is recalculated)"""
    date = date_in(ctx, year)
    monday = monday_of(date)
    other = monday + ctx.int('days', -400, 400) * DAY
    ctx.assume(other.date() != date.date())
    base = tables.Database(ctx)
    base.put(SUMMARY, summary_type='DAILY', summary_year=other.year, summary_month=other.month, summary_week=0,
             summary_day=other.day, integrated_heating_degree_days=D('12.25'), integrated_cooling_degree_days=D('3.5'),
             wind_run_distance_total=D('40.5'), wind_speed_high_10_minute_average=D('7.5'),
             wind_speed_high_10_minute_average_direction='NE', wind_speed_high_10_minute_average_start=other,
             wind_speed_high_10_minute_average_end=datetime.time(1, 2))
    row = recalculated(base, [date])
    columns = ('integrated_heating_degree_days', 'integrated_cooling_degree_days', 'wind_run_distance_daily_average',
               'wind_speed_high_10_minute_average')
    values = (D('12.25'), D('3.5'), D('40.5'), D('7.5'))
    if other >= monday and other < monday + 7 * DAY:
        for column, v in zip(columns, values):
            ctx.check(same(row[column], v), 'a day from Monday to Sunday counts: ' + column)
        if other.month != date.month:
            ctx.cover('a day of another month')
        if other.year != date.year:
            ctx.cover('a day of another year')
    else:
        ctx.cover('a day of another week')
        for column in columns:
            ctx.check(row[column] is None, 'a day of another week does not count: ' + column)
    for column in columns:
        ctx.observe(column, row[column])
    check_filed(ctx, row, monday)


def cases(tier):
    years = [2000, 2010, 2012, 2015, 2018] if tier == 'quick' else list(range(2000, 2028)) + [2099, 2100]
    return ([('record %d' % y, record, {'year': y}, 'dates of %d' % y) for y in years]
            + [('record %d, fraction' % y, record, {'year': y, 'fraction': f}, 'dates of %d with a fraction of a second' % y)
               for y, f in zip(years, (1, 999999) if tier == 'quick' else (1, 999999, 500000, 10))]
            + [('daily %d' % y, daily, {'year': y}, 'dates of %d' % y) for y in years])
