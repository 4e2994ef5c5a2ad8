"""The high 10-minute wind average."""
import datetime

from weatherlink import utils

from vlib.spec import D

BOUNDS = ('up to 13 samples a day with any speeds from 0 to 254 mph (or tenths of up to 150 mph), of listed lengths of 1 to '
          '15 minutes, a few hundred combinations of lengths, and listed or any directions')
ASSUMPTIONS = ['samples cover whole minutes']

START = datetime.datetime(2016, 2, 29, 23, 31)


def expected(samples):
    """(minute speeds, minute directions, minute times)"""
    minutes = []
    for i, (speed, direction, end, length) in enumerate(samples):
        for m in range(length - 1, -1, -1):
            minutes.append((speed, direction, end - datetime.timedelta(minutes=m), i, m == 0))
    return minutes


def day(ctx, lengths, directions, kind):
    samples = []
    shown = []
    t = START
    for i, length in enumerate(lengths):
        n = ctx.int('speed%d' % i, 0, 254 if kind != 'tenths' else 1500)
        speed = n if kind == 'int' else (D(n) if kind == 'decimal' else D(n) * D('0.1'))
        d = directions[i]
        t = t + datetime.timedelta(minutes=length)
        samples.append((speed, d, t, length))
        shown.append((D(n) if kind != 'tenths' else D(n) * D('0.1'), d, t, length))
    got = utils.calculate_10_minute_wind_average(list(samples))
    ctx.check(len(got) == 4, 'four results')
    ctx.observe('result', got)
    high, direction, start, end = got
    if any(length > 10 for length in lengths):
        ctx.check(high is None and direction is None and start is None and end is None,
                  'no result if a sample covers more than ten minutes')
        return
    verify(ctx, shown, got)


def verify(ctx, samples, got):
    high, direction, start, end = got
    minutes = expected(samples)
    windows = [minutes[e - 9:e + 1] for e in range(9, len(minutes)) if minutes[e][4]]
    sums = [sum([m[0] for m in w[1:]], w[0][0]) for w in windows]
    if not windows:
        ctx.check(high is None and direction is None and start is None and end is None, 'no result without a full window')
        return
    ctx.cover('window')
    best = sums[0]
    for s in sums[1:]:
        best = best if best >= s else s
    if best == 0:
        ctx.check(high is None and direction is None and start is None and end is None, 'no result without wind')
        return
    ctx.check(high is not None, 'a result if there is a full window with wind')
    if high is None:
        return
    ctx.check(high * 10 == best, 'the highest average of any ten consecutive minutes')
    earlier = None
    for w, s in zip(windows, sums):
        if earlier is None:
            here = s == best
            earlier = here
        else:
            here = (not earlier) and s == best
            earlier = earlier or here
        if here:
            ctx.check(start == w[0][2], 'the first minute of the first window that reaches it')
            ctx.check(end == w[-1][2], 'the last minute of the first window that reaches it')
            counts = {}
            for m in w:
                counts[m[1]] = counts.get(m[1], 0) + 1
            ctx.check(direction in counts, 'a direction of the window')
            if direction in counts:
                ctx.check(counts[direction] == max(counts.values()), 'the most frequent direction of the window')


def long_day(ctx, count, length, symbolic):
    """A whole day of samples, with a few of any speed; the rest in a pattern of light wind"""
    samples = []
    t = datetime.datetime(2016, 2, 29, 0, 0)
    for i in range(count):
        speed = ctx.int('speed%d' % i, 0, 254) if i in symbolic else (i * 7) % 5
        t = t + datetime.timedelta(minutes=length)
        samples.append((speed, ('N', 'E', 'S', 'S', 'W')[i % 5], t, length))
    verify(ctx, samples, utils.calculate_10_minute_wind_average(list(samples)))


def any_lengths(ctx, combinations):
    lengths = ctx.choice('lengths', combinations)
    day(ctx, lengths, ('N', 'S', 'W', 'E', 'N'), 'int')


def any_directions(ctx, lengths, combinations):
    day(ctx, lengths, ctx.choice('directions', combinations), 'int')


def product(values, n):
    return [()] if n == 0 else [a + (v,) for a in product(values, n - 1) for v in values]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    fixed = [[1] * 9, [1] * 10, [1] * 12, [5] * 4, [10] * 3, [2] * 7, [3, 7, 1, 10, 5, 4], [4, 10, 11], [9, 1, 9, 1],
             [5, 5, 15, 5], [10, 5, 5], [6, 6, 6], [7, 2], [11], []]
    if deep:
        fixed += [[1] * 15, [2] * 10, [5] * 8, [10] * 7, [3] * 8, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10], [10, 1, 9, 2, 8, 3, 7]]
    around = ['N', 'NE', 'N', 'S', 'S', 'S', 'W', 'N', 'W', 'W', 'W', 'N', 'E', 'E', 'S', 'W']
    for lengths in fixed:
        for kind in ('int', 'decimal', 'tenths'):
            if kind != 'int' and not deep and len(lengths) > 4:
                continue
            out.append(('day-%s-%s' % ('x'.join(str(n) for n in lengths), kind), day,
                        {'lengths': lengths, 'directions': tuple(around), 'kind': kind},
                        'samples of %s minutes, any speeds' % lengths, len(lengths)))
    for lengths, values in (((5, 5, 5), ('N', 'S', None)), ((2,) * 6, ('N', 'S')), ((4, 3, 2, 5), ('N', 'S'))):
        out.append(('directions-%d' % lengths[0], any_directions,
                    {'lengths': lengths, 'combinations': product(values, len(lengths))},
                    'any directions of samples of %s minutes' % (lengths,), 10))
    for count, length, symbolic in [(288, 5, (0, 1, 140, 141, 286, 287)), (144, 1, (60, 63, 66)), (144, 10, (1, 80, 143))] + (
            [(1440, 1, (700, 705)), (288, 5, (0, 1, 2, 63, 64, 127, 128, 255, 256, 287)), (720, 2, (10, 360, 362))] if deep else []):
        out.append(('long-%dx%d-%d' % (count, length, len(symbolic)), long_day, {'count': count, 'length': length, 'symbolic': symbolic},
                    '%d samples of %d minutes, %d of which have any speed' % (count, length, len(symbolic)), 60))
    groups = {2: list(range(1, 12)), 3: [1, 2, 3, 4, 5, 6, 8, 10] if deep else [1, 2, 4, 5, 6, 10]}
    if deep:
        groups[4] = [1, 2, 3, 5, 7, 10]
    for n, values in groups.items():
        combos = product(values, n)
        for i in range(0, len(combos), 54):
            out.append(('lengths-%d-%d' % (n, i), any_lengths, {'combinations': combos[i:i + 54]},
                        '%d samples of any of %s minutes, any speeds (part)' % (n, values), 20))
    return out
