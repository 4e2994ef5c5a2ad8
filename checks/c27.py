"""Which summaries are recalculated."""
import datetime
import itertools

from weatherlink.exporter import mysql as mysql_exporter

from vlib import db, tables
from vlib.spec import D

SUMMARY = 'weather_calculated_summary'
SECOND = datetime.timedelta(seconds=1)
DAY = datetime.timedelta(days=1)

BOUNDS = ('two dates (thorough: also three) in any order, at any second, up to 400 days apart, the first of the years listed; '
          'given at once, one after the other, or the two of them twice')
ASSUMPTIONS = ['dates are given as datetimes', 'a summary is recalculated when its row is written; it is recalculated once if '
               'it is written as often as when its date alone is given']
COVER = {'2 at once, from 2015': ['two days of one week in two months', 'two days of one week in two years']}


def exporter_on(base, *collections):
    with db.Installed(base):
        e = mysql_exporter.MySQLExporter('user', 'secret', 'weather')
        with e:
            for dates in collections:
                base.writes.append(None)
                e.recalculate_summaries_for_dates(dates)


def recalculated(ctx, *collections):
    """The database, and the rows written for each collection of dates, in order"""
    base = tables.Database(ctx)
    exporter_on(base, *collections)
    out = []
    for w in base.writes:
        if w is None:
            out.append([])
        else:
            ctx.check(w[1] == SUMMARY, 'only summaries are written')
            out[-1].append(w[2])
    return base, out


def expected_writes(ctx):
    """How often a summary of each type is written for one date: when it is new, and when it was there"""
    date = datetime.datetime(2015, 6, 10, 12, 0)
    _, written = recalculated(ctx, [date], [date])
    out = []
    for rows in written:
        n = {}
        for row in rows:
            n[row['summary_type']] = n.get(row['summary_type'], 0) + 1
        out.append(n)
    return out


def monday_of(date):
    return date.replace(hour=0, minute=0, second=0) - date.weekday() * DAY


def day_key(d):
    return ('DAILY', d.year, d.month, 0, d.day)


def week_key(d):
    thursday = monday_of(d) + 3 * DAY
    return ('WEEKLY', thursday.year, 0, (thursday - datetime.datetime(thursday.year, 1, 1)).days // 7 + 1, 0)


def month_key(d):
    return ('MONTHLY', d.year, d.month, 0, 0)


def year_key(d):
    return ('YEARLY', d.year, 0, 0, 0)


TYPES = ('DAILY', 'WEEKLY', 'MONTHLY', 'YEARLY')
KEYS = (day_key, week_key, month_key, year_key)


def key_of(row):
    return (row['summary_type'], row['summary_year'], row['summary_month'], row['summary_week'], row['summary_day'])


def partitions(n):
    """All ways to group n things: for each the first one of its group"""
    out = [[]]
    for i in range(n):
        out = [p + [g] for p in out for g in sorted(set(p)) + [i]]
    return out


def finer(a, b):
    """What shares a group of a shares one of b"""
    return all(b[i] == b[j] for i in range(len(a)) for j in range(i) if a[i] == a[j])


def relations(n):
    """The order of n dates, and which share their day, week, month and year"""
    ps = partitions(n)
    return [(order, day, week, month, year) for order in itertools.permutations(range(n)) for day in ps for week in ps
            for month in ps for year in ps if finer(day, week) and finer(day, month) and finer(month, year)]


def related(order, groups, dates):
    """Ties are in the order given"""
    ok = True
    for a, b in zip(order, order[1:]):
        if a < b:
            ok = ok and dates[a] <= dates[b]
        else:
            ok = ok and dates[a] < dates[b]
    for key, first in zip(KEYS, groups):
        keys = [key(d) for d in dates]
        for i in range(len(dates)):
            for j in range(i):
                ok = ok and (keys[i] == keys[j]) == (first[i] == first[j])
    return ok


def related_dates(ctx, year, n, apart):
    days = (datetime.date(year + 1, 1, 1) - datetime.date(year, 1, 1)).days
    dates = [datetime.datetime(year, 1, 1) + ctx.int('second', 0, days * 86400 - 1) * SECOND]
    for i in range(1, n):
        dates.append(dates[0] + ctx.int('second%d' % i, -apart * 86400, apart * 86400) * SECOND)
    return dates


def at_once(ctx, year, n, part=slice(None)):
    dates = related_dates(ctx, year, n, 400)
    relation = ctx.choice('relation', relations(n)[part])
    ctx.assume(related(relation[0], relation[1:], dates))
    first, _ = expected_writes(ctx)
    base, written = recalculated(ctx, dates)
    check(ctx, dates, relation[1:], base.tables[SUMMARY], written[0], [first] * n)
    if n == 2:
        note(ctx, relation[1:])


def back_again(ctx, year):
    """The first date again after another one"""
    dates = related_dates(ctx, year, 2, 400)
    relation = ctx.choice('relation', relations(2))
    ctx.assume(related(relation[0], relation[1:], dates))
    first, _ = expected_writes(ctx)
    base, written = recalculated(ctx, dates + dates)
    check(ctx, dates, relation[1:], base.tables[SUMMARY], written[0], [first] * 2)


def note(ctx, groups):
    same = [g[0] == g[1] for g in groups]
    if same == [False, True, False, True]:
        ctx.cover('two days of one week in two months')
    if same == [False, True, False, False]:
        ctx.cover('two days of one week in two years')


def one_by_one(ctx, year):
    dates = related_dates(ctx, year, 2, 400)
    relation = ctx.choice('relation', relations(2))
    ctx.assume(related(relation[0], relation[1:], dates))
    groups = relation[1:]
    first, again = expected_writes(ctx)
    base, written = recalculated(ctx, [dates[0]], [dates[1]])
    rows = base.tables[SUMMARY]
    ctx.check(len(rows) == sum([len(set(g)) for g in groups]), 'a summary for each day, week, month and year')
    for key, group in zip(KEYS, groups):
        row = the_row(ctx, rows, key(dates[1]))
        n = len([1 for r in written[1] if r is row])
        ctx.check(n == (again if group[1] == 0 else first)[row['summary_type']], 'recalculated once, also if it was there')
    ctx.check(len(written[1]) == sum([(again if g[1] == 0 else first)[t] for g, t in zip(groups, TYPES)]),
              'no summary of the other date is touched')


def the_row(ctx, rows, want):
    mine = [r for r in rows if key_of(r) == want]
    ctx.check(len(mine) == 1, 'one summary for each')
    return mine[0]


def check(ctx, dates, groups, rows, written, expected):
    ctx.observe('rows', [sorted(r.items()) for r in rows])
    ctx.check(len(rows) == sum([len(set(g)) for g in groups]), 'a summary for each day, week, month and year')
    at = {}
    for t, key, group in zip(TYPES, KEYS, groups):
        for i in range(len(dates)):
            if group[i] == i:
                row = the_row(ctx, rows, key(dates[i]))
                when = [k for k, r in enumerate(written) if r is row]
                ctx.check(len(when) == expected[i][t], 'recalculated once')
                at[t, i] = (when[0], when[-1])
            else:
                at[t, i] = at[t, group[i]]
    for i in range(len(dates)):
        for shorter, longer in (('DAILY', 'WEEKLY'), ('DAILY', 'MONTHLY'), ('DAILY', 'YEARLY'), ('MONTHLY', 'YEARLY')):
            ctx.check(at[shorter, i][1] < at[longer, i][0], '%s before %s' % (shorter, longer))
        for j in range(len(dates)):
            if week_key(dates[i])[1] == dates[j].year:
                ctx.check(at['WEEKLY', i][1] < at['YEARLY', j][0], 'WEEKLY before YEARLY')


def cases(tier):
    years = [2012, 2015, 2018] if tier == 'quick' else list(range(2000, 2028))
    out = [('2 at once, from %d' % y, at_once, {'year': y, 'n': 2}, 'the first date of %d' % y) for y in years]
    out += [('one by one, from %d' % y, one_by_one, {'year': y}, 'the first date of %d' % y) for y in years]
    out += [('back again, from %d' % y, back_again, {'year': y}, 'the first date of %d' % y) for y in years]
    if tier == 'thorough':
        out += [('3 at once, from %d, %d' % (y, i), at_once, {'year': y, 'n': 3, 'part': slice(i, None, 41)},
                 'the first date of %d' % y, 3) for y in (2015,) for i in range(41)]
    return out
