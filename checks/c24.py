"""The UTC times both exporters send."""
import datetime

import pytz

from weatherlink.exporter import mysql as mysql_exporter
from weatherlink.exporter import wunderground
from weatherlink.models import ArchiveIntervalRecord

from vlib import db, stubs, tables, url

BOUNDS = ('every minute from 2000 to 2037 for the database, of 2016 for Weather Underground (thorough: from 2000 to '
          '2037), in each of 12 zones: the default, given by name or as objects, with and without daylight saving time, fixed '
          'and a zone of the user\'s own')
ASSUMPTIONS = ['a local time that occurs twice (when clocks are set back) may be sent as either of the two; one that does not '
               'occur may be sent less the offset before or after the gap',
               'the offsets of each zone are those of the installed time zone data (pytz)']

MINUTE = datetime.timedelta(minutes=1)
HOUR = datetime.timedelta(hours=1)
TABLE = 'weather_archive_record'


class Summer(datetime.tzinfo):
    """A zone without names or tables: an hour ahead of UTC, two from April to September"""
    def utcoffset(self, d):
        return 2 * HOUR if 4 <= d.month <= 9 else HOUR

    def dst(self, d):
        return HOUR if 4 <= d.month <= 9 else 0 * HOUR

    def tzname(self, d):
        return 'X'

    def __repr__(self):
        return 'Summer'


SUMMER = Summer()


def offsets(zone, first, last):
    """[(UTC time from which it applies, offset)] in the years first to last"""
    begin = datetime.datetime(first, 1, 1) - 2 * 24 * HOUR
    end = datetime.datetime(last + 1, 1, 1) + 2 * 24 * HOUR
    if zone is SUMMER:
        out = [(begin, HOUR)]
        for y in range(first, last + 1):
            out.append((datetime.datetime(y, 3, 31, 23), 2 * HOUR))
            out.append((datetime.datetime(y, 9, 30, 22), HOUR))
        return out
    at = [t for t in getattr(zone, '_utc_transition_times', []) if begin < t and t < end]
    out = []
    for t in [begin] + at:
        offset = pytz.UTC.localize(t).astimezone(zone).utcoffset()
        if not out or out[-1][1] != offset:
            out.append((t, offset))
    return out


def right(local, utc, table):
    """UTC time utc is what the zone's clocks show as local, or local is a time they skip"""
    ok = False
    skipped = False
    before = None
    for i, (begin, offset) in enumerate(table):
        here = utc + offset == local and utc >= begin
        if i + 1 < len(table):
            here = here and utc < table[i + 1][0]
        ok = ok or here
        if before is not None and before < offset:
            gap = begin + before <= local and local < begin + offset
            ok = ok or (gap and (utc + before == local or utc + offset == local))
        before = offset
    return ok


def sent_by_mysql(ctx, zone, date):
    base = tables.Database(ctx)
    with db.Installed(base):
        e = mysql_exporter.MySQLExporter('user', 'secret', 'weather')
        if zone != 'default':
            e.station_time_zone = zone
        with e:
            e.export_record(ArchiveIntervalRecord(date=date, timestamp=1, record_version=0, minutes_covered=1))
    return base.tables[TABLE][0]['timestamp_utc']


def zone_of(name):
    return pytz.timezone(name) if isinstance(name, str) else name


def moment(ctx, first, last):
    start = datetime.datetime(first, 1, 1)
    n = (datetime.datetime(last + 1, 1, 1) - start) // MINUTE
    return start + ctx.int('minute', 0, n - 1) * MINUTE


def by_mysql(ctx, zone, given, first, last):
    date = moment(ctx, first, last)
    utc = sent_by_mysql(ctx, given, date)
    ctx.check(utc.tzinfo is None, 'stored without a zone')
    ctx.check(right(date, utc, offsets(zone, first, last)), 'the time in UTC')
    ctx.observe('utc', utc)


class Record(dict):
    pass


def record_of(date, fields):
    r = Record()
    for f in fields:
        r[f] = None
    r.date = date
    return r


class Reply(object):
    status_code = 200
    text = 'success'
    content = b'success'
    ok = True

    def raise_for_status(self):
        pass


def sent_to_wunderground(given, date, rapid):
    """the text of dateutc, as the codes of its characters"""
    sent = []

    def answer(method, target, kwargs):
        sent.append((target, kwargs))
        return Reply()
    stubs.Session.handler = answer
    try:
        e = wunderground.WundergroundExporter('KTEST1', 'secret')
        if given != 'default':
            e.station_time_zone = given
        fields = FIELDS
        if rapid:
            e.send_rapid_update(record_of(date, fields))
        else:
            e.send_simple_update(record_of(date, fields))
    finally:
        stubs.Session.handler = None
    _, pairs, _ = url.parse(*sent[0])
    return url.decode(url.value(pairs, 'dateutc'))


def by_wunderground(ctx, zone, given, first, last, rapid):
    date = moment(ctx, first, last)
    got = sent_to_wunderground(given, date, rapid)
    table = offsets(zone, first, last)
    ok = False
    for offset in sorted(set([o for _, o in table])):
        utc = date - offset
        text = [ord(c) for c in utc.strftime('%Y-%m-%d %H:%M:%S')]
        ok = ok or (got == text and right(date, utc, table))
    ctx.check(ok, 'the time in UTC')
    ctx.observe('dateutc', got)


FIELDS = ('wind_speed', 'wind_direction_prevailing_degrees', 'wind_speed_high', 'wind_direction_speed_high_degrees',
          'humidity_outside', 'temperature_outside', 'barometric_pressure', 'solar_radiation', 'uv_index', 'temperature_inside',
          'humidity_inside', 'wind_direction_degrees', 'wind_gust', 'wind_gust_direction', 'wind_speed_2_minute_average',
          'wind_speed_10_minute_gust', 'wind_speed_10_minute_gust_direction_degrees', 'dew_point', 'rain_amount_1_hour',
          'rain_amount_today')
ZONES = (('America/Chicago', 'default'), ('America/Chicago', None), ('Europe/Amsterdam', 'Europe/Amsterdam'),
         ('Australia/Lord_Howe', 'zone'), ('America/St_Johns', 'America/St_Johns'), ('Asia/Kathmandu', 'zone'),
         ('America/Sao_Paulo', 'zone'), ('UTC', 'UTC'), ('Africa/Casablanca', 'zone'),
         (pytz.FixedOffset(-210), 'zone'), (datetime.timezone(datetime.timedelta(hours=5, minutes=30)), 'zone'), (SUMMER, 'zone'))


def cases(tier):
    out = []
    for name, given in ZONES:
        zone = zone_of(name)
        args = {'zone': zone, 'given': zone if given == 'zone' else given}
        out.append(('mysql %s %s' % (name, given), by_mysql, dict(args, first=2000, last=2037), 'every minute of 2000 to 2037'))
        for first, last in [(2016, 2016)] if tier == 'quick' else [(y, y) for y in range(2000, 2038)]:
            for rapid in (False, True):
                kind = 'rapid' if rapid else 'simple'
                out.append(('wunderground %s %s %s %d' % (kind, name, given, first), by_wunderground,
                            dict(args, first=first, last=last, rapid=rapid), 'every minute of %d' % first))
    return out
