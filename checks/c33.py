"""Resuming: the newest stored timestamp."""
import datetime
import itertools

from weatherlink import downloader, models
from weatherlink.exporter import mysql as mysql_exporter

from checks import c26
from vlib import db, stubs, tables, url

BOUNDS = ('archives of up to 5 (deep: 8) rows with any packed timestamps, in any order; any 3 (deep: 4) minutes of 2000 to 2127 '
          'exported in any order; a second round of export after the first; failures of the cursor, the statement, the reading '
          'and the closing of the cursor')
ASSUMPTIONS = ['the archive is the recommended table', 'MySQL: MAX of no rows is NULL']
COVER = {'exported-2': ['in order', 'out of order'], 'failures': ['failed', 'closing failed']}

TABLE = 'weather_archive_record'


def connected(base, f):
    with db.Installed(base):
        e = mysql_exporter.MySQLExporter('user', 'secret', 'weather')
        with e:
            return f(e)


def untouched(ctx, base, before):
    ctx.check(len(base.writes) == before and base.uncommitted == 0, 'reading changes nothing')
    ctx.check(len(base.open_cursors()) == 0, 'every cursor is closed')


def is_newest(ctx, got, stamps, label):
    ctx.check(got is not None and all([got >= s for s in stamps]) and any([got == s for s in stamps]), label)


def archive(ctx, n):
    base = tables.Database(ctx)
    stamps = [ctx.int('stamp%d' % i, 1, 2 ** 32 - 1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(stamps[i] != stamps[j])
        base.put(TABLE, timestamp_weatherlink=stamps[i])
    base.put('weather_rain_event', timestamp_start=datetime.datetime(2030, 1, 1), rain_total=1)

    def ask(e):
        got = e.get_newest_timestamp()
        if n == 0:
            ctx.check(got is None, 'an empty archive has no newest record')
        else:
            is_newest(ctx, got, stamps, 'the highest timestamp of the archive')
        untouched(ctx, base, 0)
        again = e.get_newest_timestamp()
        ctx.check(again is None if n == 0 else again == got, 'asked again, the same')
        return got
    ctx.observe('newest', connected(base, ask))


def moment(ctx, name):
    """Any minute of 2000 to 2127"""
    y = ctx.int(name + '-year', 2000, 2127)
    mo = ctx.int(name + '-month', 1, 12)
    d = ctx.int(name + '-day', 1, 31)
    last = 29 if y % 4 == 0 and y != 2100 else 28
    ctx.assume(d <= (last if mo == 2 else (30 if mo == 4 or mo == 6 or mo == 9 or mo == 11 else 31)))
    return datetime.datetime(y, mo, d, ctx.int(name + '-hour', 0, 23), ctx.int(name + '-minute', 0, 59))


def record(date):
    return models.ArchiveIntervalRecord(date=date, timestamp=models.convert_datetime_to_timestamp(date), record_version=0,
                                        minutes_covered=1)


def packed(date):
    """The documented layout: day, month and year since 2000 in 5, 4 and 7 bits; hours and minutes in hundreds"""
    return (date.day + date.month * 32 + (date.year - 2000) * 512) * 65536 + date.hour * 100 + date.minute


def exported(ctx, n):
    """After exporting records of any times the newest one is that of the latest, also when more are exported"""
    order = ctx.choice('order', list(itertools.permutations(range(n))))
    base = tables.Database(ctx)
    by_time = [moment(ctx, 'record%d' % i) for i in range(n)]
    for i in range(1, n):
        ctx.assume(by_time[i - 1] < by_time[i])
    dates = [by_time[i] for i in order]
    seen = []

    def run(e):
        e.station_time_zone = 'UTC'
        for i in range(n):
            e.export_record(record(dates[i]))
            got = e.get_newest_timestamp()
            ctx.check(got is not None, 'there is a newest record')
            latest = by_time[max(order[:i + 1])]
            ctx.check(got == packed(latest), 'the time of the latest record exported so far')
            seen.append(got)
        ctx.check(base.commits == n and len(base.tables[TABLE]) == n, 'the records are there')
    connected(base, run)
    if n == 2:
        ctx.cover('in order' if order[0] == 0 else 'out of order')
    ctx.observe('seen', seen)


HEADERS = c26.HEADERS.replace('Records=0', 'Records=%d')


def resumed(ctx):
    """The newest timestamp is what the next download asks for"""
    base = tables.Database(ctx)
    first = moment(ctx, 'first')
    second = moment(ctx, 'second')
    ctx.assume(first != second)
    base.put(TABLE, timestamp_weatherlink=packed(first))
    base.put(TABLE, timestamp_weatherlink=packed(second))
    latest = first if first > second else second
    sent = []

    def answer(method, target, kwargs):
        sent.append((target, kwargs))
        if len(sent) % 2 == 1:
            return c26.Reply({'Content-Type': 'text/html'}, HEADERS % 0)
        return c26.Reply({'Content-Type': 'application/octet-stream', 'Content-Transfer-Encoding': 'binary'}, '')
    stamp = connected(base, lambda e: e.get_newest_timestamp())
    stubs.Session.handler = answer
    try:
        d = downloader.Downloader('abc', 'def', 'ghi')
        d.download(stamp)
        d.download(latest)
    finally:
        stubs.Session.handler = None
    ctx.check(len(sent) == 4, 'two requests each')
    for i in range(len(sent)):
        address, pairs, fragment = url.parse(*sent[i])
        got = url.value(pairs, 'timestamp')
        ctx.check(got is not None, 'the request has a timestamp')
        ctx.check(int(got) == packed(latest), 'the download resumes at the newest record')
    ctx.observe('newest', stamp)


def failures(ctx):
    """The cursor is closed and the error seen, whatever fails; the next call works"""
    base = tables.Database(ctx)
    stamp = ctx.int('stamp', 1, 2 ** 32 - 1)
    base.put(TABLE, timestamp_weatherlink=stamp)
    names = ('cursor', 'execute', 'fetch', 'cursor-close')
    failing = {}
    for name in names:
        failing[name] = ctx.bool(name + ' fails')

    def run(e):
        base.faults = dict(((name, None), Failure(name)) for name in names if failing[name])
        got = error = None
        try:
            got = e.get_newest_timestamp()
        except Failure as f:
            error = f.step
        base.faults = {}
        want = None
        for name in names:
            if want is None and failing[name]:
                want = name
        ctx.check(error == want, 'the first error is seen, not that of the cleanup')
        if want is None:
            ctx.check(got == stamp, 'the newest timestamp')
        else:
            ctx.cover('closing failed' if want == 'cursor-close' else 'failed')
        ctx.check(len(base.open_cursors()) == 0, 'every cursor is closed')
        ctx.check(base.uncommitted == 0 and len(base.writes) == 0, 'reading changes nothing')
        ctx.check(want == 'fetch' or e.get_newest_timestamp() == stamp, 'the next call works')
        ctx.observe('error', error)
    connected(base, run)


class Failure(IOError):
    def __init__(self, step):
        IOError.__init__(self, step)
        self.step = step


def cases(tier):
    deep = tier == 'thorough'
    out = [('archive-%d' % n, archive, {'n': n}, '%d rows' % n) for n in range(9 if deep else 6)]
    out += [('exported-%d' % n, exported, {'n': n}, '%d records' % n, n) for n in range(1, 5 if deep else 4)]
    out.append(('resumed', resumed, {}, 'two records of any minutes'))
    out.append(('failures', failures, {}, 'each step fails or not'))
    return out
