"""Rain events."""
import datetime

from weatherlink.exporter import mysql as mysql_exporter

from vlib import db, tables
from vlib.spec import D, same

BOUNDS = ('histories of up to 5 (deep: 6; searched in parts: 4, deep: 5) records, rainy or dry in any pattern, with any gaps of 1 to 500 minutes, amounts and '
          'rates; searched at once, or again after the records that followed, or without anything new; and histories of 1439 to '
          '1441 (deep: 4400) rainy records a minute apart, of which the last have any amounts and gaps')
ASSUMPTIONS = ['records arrive in order of time and none is without a rain amount or rate',
               'columns do not round what is stored']

ARCHIVE = 'weather_archive_record'
EVENT = 'weather_rain_event'
START = datetime.datetime(2016, 2, 28, 20, 0)


def search(base, most=80):
    base.most = len(base.log) + most  # no search needs half of them
    with db.Installed(base):
        e = mysql_exporter.MySQLExporter('user', 'secret', 'weather')
        with e:
            return e.find_new_rain_events()


# how a record relates to the last rain before it, if there is any: three hours have not passed, have just passed, or passed
BEFORE, AT, AFTER = '<', '=', '>'


def sequences(n):
    """Every history of n records: ((rainy, relation to the last rain), ..)"""
    out = [()]
    for i in range(n):
        longer = []
        for s in out:
            since = None  # the relation of the latest record to the last rain
            for rainy, relation in s:
                since = BEFORE if rainy else relation
            if since is None:
                longer.extend([s + ((True, None),), s + ((False, None),)])
                continue
            for relation in (BEFORE, AT, AFTER):
                if relation == AFTER or since == BEFORE:
                    longer.append(s + ((False, relation),))
                    if relation != AT:  # three hours are as good as less for the next rain
                        longer.append(s + ((True, relation),))
        out = longer
    return out


def history(ctx, sequence):
    """[(minutes since the start, time, amount, rate)] and the events [[their rainy records, the record that ended it]]"""
    records = []
    events = []
    since = 0
    at = 0
    for i, (rainy, relation) in enumerate(sequence):
        gap = ctx.int('gap%d' % i, 1, 500)
        at = at + gap
        since = since + gap
        amount = D(0)
        rate = D(0)
        if rainy:
            amount = D(ctx.int('amount%d' % i, 1, 999)) * D('0.01')
            rate = D(ctx.int('rate%d' % i, 0, 999)) * D('0.01')
        over = relation == AFTER
        if relation == AFTER:
            ctx.assume(since > 180)
        elif relation == AT:
            ctx.assume(since == 180)
        elif relation == BEFORE:
            ctx.assume(since <= 180 if rainy else since < 180)
        records.append((at, START + datetime.timedelta(minutes=at), amount, rate))
        if events and events[-1][1] is None and (over or (relation == AT and not rainy)):
            events[-1][1] = i
        if rainy:
            if not events or over:
                events.append([[i], None])
            else:
                events[-1][0].append(i)
            since = 0
    return records, events


def arrived(base, records, backwards):
    for i, (at, when, amount, rate) in enumerate(reversed(records) if backwards else records):
        base.put(ARCHIVE, timestamp_weatherlink=at, timestamp_station=when, timestamp_utc=when, minutes_covered=1,
                 summary_year=2016, summary_month=2, summary_day=28, rain_total=amount, rain_rate_high=rate)


def known(events, n):
    """The events the first n records tell of: [(their rainy records, over)]"""
    out = []
    for rainy, end in events:
        seen = [i for i in rainy if i < n]
        if seen:
            out.append((seen, end is not None and end < n))
    return out


def verify(ctx, base, records, events, when):
    rows = base.tables[EVENT]
    ctx.check(len(rows) == len(events), when + 'one row for each event')
    ctx.check(base.uncommitted == 0, when + 'everything is committed')
    ctx.check(len(base.open_cursors()) == 0, when + 'no cursor is left open')
    if len(rows) != len(events):
        return
    for n, ((rainy, over), row) in enumerate(zip(events, rows)):
        ctx.check(row['timestamp_start'] == records[rainy[0]][1], when + 'starts with its first rain')
        ctx.check(same(row['timestamp_end'], records[rainy[-1]][1] if over else None),
                  when + 'ends with its last rain, once three hours have passed')
        total = D(0)
        rates = D(0)
        high = records[rainy[0]][3]
        for i in rainy:
            total = total + records[i][2]
            rates = rates + records[i][3]
            high = records[i][3] if records[i][3] > high else high
        ctx.check(row['rain_total'] == total, when + 'the total of its rain')
        ctx.check(row['rain_rate_high'] == high, when + 'the highest rate')
        first = None
        for i in reversed(rainy):
            if records[i][3] == high:
                first = records[i][1]
        ctx.check(row['timestamp_rain_rate_high'] == first, when + 'the first time of the highest rate')
        off = row['rain_rate_average'] * len(rainy) - rates
        ctx.check(off <= D('0.005') * len(rainy) and off >= D('-0.005') * len(rainy), when + 'the average rate')
        ctx.observe('%sevent %d' % (when, n), (row['timestamp_start'], row['timestamp_end'], row['rain_total'], row['rain_rate_high']))
    ctx.cover('verified')


def closed(events):
    return len([1 for _, over in events if over])


def once(ctx, histories, backwards):
    sequence = ctx.choice('history', histories)
    records, events = history(ctx, sequence)
    base = tables.Database(ctx)
    arrived(base, records, backwards)
    got = search(base)
    want = known(events, len(sequence))
    verify(ctx, base, records, want, '')
    ctx.check(tuple(got) == (closed(want), len(want) - closed(want)), 'the number of new events and of ongoing ones')
    again = search(base)
    verify(ctx, base, records, want, 'searched again: ')
    ctx.check(tuple(again) == (0, len(want) - closed(want)), 'nothing new is found by another search')


def split(ctx, histories, cuts):
    """Searched after some records, and again after the rest"""
    sequence = ctx.choice('history', histories)
    cut = ctx.choice('cut', cuts)
    records, events = history(ctx, sequence)
    base = tables.Database(ctx)
    begin = 0
    before = 0
    for n in cut + (len(sequence),):
        arrived(base, records[begin:n], False)
        begin = n
        got = search(base)
        want = known(events, n)
        verify(ctx, base, records, want, 'after %d: ' % n)
        ctx.check(tuple(got) == (closed(want) - before, len(want) - closed(want)), 'the number of new events and of ongoing ones')
        before = closed(want)


def long(ctx, n, every, tail):
    """n records a minute apart with rain in one of `every`, and then any of the short histories"""
    sequence = ctx.choice('history', tail)
    records = []
    for i in range(n):
        rainy = i % every == 0
        records.append((i, START + datetime.timedelta(minutes=i), D('0.02') if rainy else D(0), D('0.13') if rainy else D(0)))
    rainy = [i for i in range(n) if i % every == 0]
    events = [[rainy, None]]
    since = n - 1 - rainy[-1]
    at = n - 1
    for j, (wet, relation) in enumerate(sequence):
        gap = ctx.int('gap%d' % j, 1, 500)
        at = at + gap
        since = since + gap
        amount = D(0)
        rate = D(0)
        if wet:
            amount = D(ctx.int('amount%d' % j, 1, 999)) * D('0.01')
            rate = D(ctx.int('rate%d' % j, 0, 999)) * D('0.01')
        if relation == AFTER:
            ctx.assume(since > 180)
        else:
            ctx.assume(since <= 180 if wet else since < 180)
        records.append((at, START + datetime.timedelta(minutes=at), amount, rate))
        if events[-1][1] is None and relation == AFTER:
            events[-1][1] = n + j
        if wet:
            if relation == AFTER:
                events.append([[n + j], None])
            else:
                events[-1][0].append(n + j)
            since = 0
    base = tables.Database(ctx)
    arrived(base, records, False)
    got = search(base, 50)
    want = known(events, len(records))
    verify(ctx, base, records, want, '')
    ctx.check(tuple(got) == (closed(want), len(want) - closed(want)), 'the number of new events and of ongoing ones')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n, step in ((1, 9), (2, 9), (3, 30), (4, 50), (5, 50)) + (((6, 85),) if deep else ()):
        hs = sequences(n)
        for i in range(0, len(hs), step):
            out.append(('once-%d-%d' % (n, i), once, {'histories': hs[i:i + step], 'backwards': (i // step) % 2 == 1},
                        'histories of %d records with any gaps' % n, n * n))
    for n, step in ((2, 9), (3, 14), (4, 25)) + (((5, 40),) if deep else ()):
        hs = sequences(n)
        cuts = [(c,) for c in range(0, n)] + ([tuple(range(1, n))] if n > 2 else [])
        for i in range(0, len(hs), step):
            out.append(('split-%d-%d' % (n, i), split, {'histories': hs[i:i + step], 'cuts': cuts},
                        'histories of %d records, searched at any two points, or after each' % n, n * n * 2))
    wet, dry = (True, BEFORE), (False, BEFORE)
    tails = [(), (dry,), (wet,), (wet, dry), ((False, AFTER),), (wet, (False, AFTER)), (wet, (True, AFTER)), (dry, wet, (True, AFTER))]
    for n, every in ((1439, 7), (1440, 60), (1441, 9)) + (((2880, 11), (2882, 90), (4400, 60)) if deep else ()):
        out.append(('long-%d' % n, long, {'n': n, 'every': every, 'tail': tails},
                    'a history of %d records a minute apart and up to 3 more with any gaps' % n, 40))
    return out
