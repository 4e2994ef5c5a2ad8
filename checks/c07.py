"""Importing a whole .wlk file."""
import contextlib
import datetime
import io
import itertools

from six.moves import builtins
from weatherlink import importer

from vlib import fakes, spec

BOUNDS = ('files with records on up to 31 days: every pair of days with up to 3 records each, and three days '
          'with 0 to 3 records each; days with up to 288 (deep: 1440) records, one in fifty of them symbolic; a temperature of every record (and the minute of single records), a temperature of every summary, the '
          'index of day 0 and the header text arbitrary; years 2000-2099')
ASSUMPTIONS = ['the day indexes of the header are consistent with the records that follow, in the order of the days',
               'the file is opened with open() or io.open()']


@contextlib.contextmanager
def served(module, name, handle):
    """open(name, 'rb') gives the handle"""
    def fake(real):
        def open_(file, mode='r', *args, **kwargs):
            if file != name:
                return real(file, mode, *args, **kwargs)
            assert 'b' in mode and 'w' not in mode and 'a' not in mode and '+' not in mode, mode
            return handle
        return open_
    before, before_io = builtins.open, io.open
    builtins.open = fake(before)
    io.open = fake(before_io)
    try:
        yield
    finally:
        builtins.open = before
        io.open = before_io


def archive_record(temperature, minute):
    return (b'\x01\x05\x00\x00' + spec.le16(minute) + spec.le16(temperature) + b'\x00' * 12 + spec.le16(0x1000 + 7) +
            b'\x00' * 4 + b'\x00\x00' + b'\x04\xff' + b'\x00' * 58)


def summary(temperature):
    return b'\x02\x00' + spec.le16(1440) + spec.le16(temperature) + b'\x00' * 46 + b'\xff\xff' + \
        b'\x00' * 34 + b'\x03\x00' + b'\x00' * 86


def build(ctx, layout, day_zero=True, minutes=True, every=1):
    """layout: [(day, records)]; returns the file and what it says: [(day, summary temperature, [(temperature,
    minute)])]"""
    index = {}
    body = b''
    told = []
    start = 0
    for day, n in layout:
        s = ctx.int('summary %d' % day, -500, 1500)
        body += summary(s)
        records = []
        for i in range(n):
            if (i + day) % every:
                t = (37 * i + day) % 1000
            else:
                t = ctx.int('temperature %d/%d' % (day, i), -500, 1500)
            m = ctx.int('minute %d/%d' % (day, i), 1, 1439) if minutes else (10 * i + 5 if n <= 100 else i)
            records.append((t, m))
            body += archive_record(t, m)
        index[day] = (n + 2, start)
        start += n + 2
        told.append((day, s, records))
    head = ctx.bytes('version', 16) + spec.le32(start)
    for day in range(32):
        if day == 0 and day_zero:
            head += ctx.bytes('day 0', 6)
        else:
            n, s = index.get(day, (0, 0))
            head += spec.le16(n) + spec.le32(s)
    assert len(head) == 212
    return head + body, told, start, index


def compare(ctx, im, told, year, month, data, total, index):
    ctx.check(im.year == year and im.month == month, 'year and month of the file name')
    ctx.check(sorted(im.daily_summaries) == [day for day, _, _ in told], 'a summary for exactly the days with data')
    count = 0
    for day, s, records in told:
        got = im.daily_summaries[day]
        ctx.check(got['temperature_outside_high'] == spec.D(s) * spec.D('0.1'), 'the summary of each day')
        ctx.check(got['date'] == datetime.date(year, month, day), 'the date of each summary')
        mine = im.daily_records[day] if day in im.daily_records else []
        ctx.check(len(mine) == len(records), 'every record of a day, and no other')
        if len(mine) != len(records):
            return
        for got, (t, m) in zip(mine, records):
            ctx.check(got['temperature_outside'] == spec.D(t) * spec.D('0.1'), 'the records of a day, in order')
            ctx.check(got['date'] == datetime.datetime(year, month, day) + datetime.timedelta(minutes=m),
                      'the time of each record')
            ctx.check(count < len(im.records) and im.records[count] is got, 'all records, in the order of the file')
            count += 1
    ctx.check(len(im.records) == count, 'no other records')
    days = [day for day, _, records in told if records]
    ctx.check(sorted(d for d in im.daily_records if im.daily_records[d]) == days, 'records on no other day')
    ctx.check(im.header.record_count == total, 'the record count of the header')
    ctx.check(im.header.version_code == data[:16], 'the version of the header')
    ctx.check(len(im.header.day_indexes) == 32, 'all day indexes')
    for day in range(1, 32):
        n, s = index.get(day, (0, 0))
        ctx.check(im.header.day_indexes[day].record_count == n and im.header.day_indexes[day].start_index == s,
                  'the day indexes')


def run(ctx, layout, year=2024, month=7, folder='/somewhere/', **kw):
    data, told, total, index = build(ctx, layout, **kw)
    name = '%s%04d-%02d.wlk' % (folder, year, month)
    im = importer.Importer(name)
    handle = fakes.Handle(data)
    with served(importer, name, handle):
        im.import_data()
    compare(ctx, im, told, year, month, data, total, index)
    ctx.check(handle.closed, 'closes the file')
    ctx.observe('records', im.records)


def pairs(ctx, first, counts):
    second = ctx.choice('second day', list(range(first, 32)))
    a = ctx.choice('records of the first day', counts)
    if second == first:
        run(ctx, [(first, a)], minutes=False)
        return
    b = ctx.choice('records of the second day', counts)
    run(ctx, [(first, a), (second, b)], minutes=False)


def triples(ctx, days, counts):
    numbers = ctx.choice('records of the days', list(itertools.product(counts, repeat=len(days))))
    run(ctx, [(day, n) for day, n in zip(days, numbers) if n is not None], minutes=False)


def full(ctx, year, month, days, folder):
    run(ctx, [(d, 1 + d % 2) for d in range(1, days + 1)], year=year, month=month, folder=folder, minutes=False)


def busy(ctx, layout):
    run(ctx, list(layout), minutes=False, every=50)


def file_times(ctx):
    """any minute of any month of the file name"""
    month = ctx.choice('month', list(range(1, 13)))
    year = ctx.choice('year', [2000, 2001, 2015, 2024, 2063, 2099])
    day = ctx.choice('day', [1, 28])
    run(ctx, [(day, 1)], year=year, month=month, folder=ctx.choice('folder', ['', 'a-b/', '/x.wlk/1999-01.wlk/']))


def names(ctx):
    name = ctx.choice('name', ['', '2024-07.wl', '2024-07.txt', '2024-07', '2024-07.wlk.gz'])
    try:
        importer.Importer(name)
    except ValueError:
        ctx.check(True, 'refused')
    else:
        ctx.fail('names that are not those of .wlk files are refused')


def short(ctx):
    """a file that ends early is an error, not fewer records"""
    data, told, total, index = build(ctx, [(3, 1), (4, 1)], minutes=False)
    cut = ctx.choice('length', [0, 19, 20, 211, 212, 300, 387, 388, 475, 476, 651, 652, 739])
    im = importer.Importer('2024-07.wlk')
    try:
        with served(importer, '2024-07.wlk', fakes.Handle(data[:cut])):
            im.import_data()
    except Exception:
        ctx.check(True, 'refused')
    else:
        ctx.fail('a file that ends before its last record is an error')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    counts = [0, 1, 3] if deep else [0, 2]
    for first in (range(1, 32) if deep else (1, 2, 8, 15, 27, 30, 31)):
        out.append(('pairs-%d' % first, pairs, {'first': first, 'counts': counts},
                    'day %d and any later day, %s records each' % (first, counts), 40 - first))
    counts = [None, 0, 1, 2, 3] if deep else [None, 0, 2]
    for days in ((1, 2, 3), (1, 16, 31), (29, 30, 31)) + (((4, 5, 10), (9, 10, 11), (15, 17, 19)) if deep else ()):
        out.append(('days-%d-%d-%d' % days, triples, {'days': days, 'counts': counts},
                    'no data or %s records on each of three days' % counts[1:], 50))
    for year, month, days in ((2024, 2, 29), (2023, 2, 28), (2024, 12, 31), (2010, 4, 30)):
        out.append(('full-%d-%d' % (year, month), full, {'year': year, 'month': month, 'days': days, 'folder': '/d/'},
                    'a summary and one or two records on every day of the month', 60))
    for layout in [((1, 96), (2, 288)), ((9, 127), (10, 129), (11, 0), (12, 256))] + (
            [tuple((d, 96) for d in range(1, 32)), ((1, 1440), (2, 0), (31, 1440))] if deep else []):
        out.append(('busy-%s' % '-'.join('%dx%d' % x for x in layout[:4]), busy, {'layout': layout},
                    'days with %s records, a few of which are symbolic' % (sorted(set(n for _, n in layout)),), 70))
    out.append(('file-times', file_times, {}, 'twelve months, six years, two days, any minute', 45))
    out.append(('names', names, {}, 'five names of other files'))
    out.append(('short', short, {}, 'thirteen lengths of a file that needs 740 bytes'))
    return out
