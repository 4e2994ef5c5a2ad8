"""Updates sent to Weather Underground."""
import datetime

from weatherlink import utils
from weatherlink.exporter import wunderground

from vlib import stubs, url
from vlib.spec import D

BOUNDS = ('each reading missing or of any value, while the others are all missing or all present; histories of 27 records with '
          'any wind speeds (gust), or of 330, the last 12 with any, and of 1, 2 or 4 (thorough: 5) with any directions within half a '
          'circle, or of 52 (two-minute direction); replies '
          'with any status and any ASCII text of up to 8 characters')
ASSUMPTIONS = ['the records of a rapid update are 2.5 seconds apart, so 24 of them cover a minute; whether those exactly a '
               'minute (or two minutes) old still belong to it is left open',
               'the dew point is that of C32, the UTC time that of C24, and the credentials are sent as in C26']

TIME = datetime.datetime(2016, 7, 9, 12, 5)

# parameter, field, kind, lowest, highest
SIMPLE = (
    ('windspeedmph', 'wind_speed', 'decimal', 0, 254), ('winddir', 'wind_direction_prevailing_degrees', 'halves', 0, 719),
    ('windgustmph', 'wind_speed_high', 'decimal', 0, 254), ('windgustdir', 'wind_direction_speed_high_degrees', 'halves', 0, 719),
    ('humidity', 'humidity_outside', 'int', 0, 100), ('tempf', 'temperature_outside', 'tenths', -600, 1400),
    ('baromin', 'barometric_pressure', 'thousandths', 20000, 32500), ('solarradiation', 'solar_radiation', 'int', 0, 1800),
    ('UV', 'uv_index', 'tenths', 0, 200), ('indoortempf', 'temperature_inside', 'tenths', 0, 1400),
    ('indoorhumidity', 'humidity_inside', 'int', 0, 100))
RAPID = (
    ('windspeedmph', 'wind_speed', 'decimal', 0, 254), ('winddir', 'wind_direction_degrees', 'int', 1, 360),
    ('windspdmph_avg2m', 'wind_speed_2_minute_average', 'tenths', 0, 2540),
    ('windgustmph_10m', 'wind_speed_10_minute_gust', 'tenths', 0, 2540),
    ('windgustdir_10m', 'wind_speed_10_minute_gust_direction_degrees', 'int', 1, 360),
    ('humidity', 'humidity_outside', 'int', 0, 100), ('dewptf', 'dew_point', 'decimal', -120, 250),
    ('tempf', 'temperature_outside', 'tenths', -600, 1400), ('rainin', 'rain_amount_1_hour', 'hundredths', 0, 9999),
    ('dailyrainin', 'rain_amount_today', 'hundredths', 0, 9999), ('baromin', 'barometric_pressure', 'thousandths', 20000, 32500),
    ('solarradiation', 'solar_radiation', 'int', 0, 1800), ('UV', 'uv_index', 'tenths', 0, 200),
    ('indoortempf', 'temperature_inside', 'tenths', 0, 1400), ('indoorhumidity', 'humidity_inside', 'int', 0, 100))
FACTOR = {'tenths': '0.1', 'hundredths': '0.01', 'thousandths': '0.001', 'decimal': '1', 'halves': '0.5'}
ALWAYS = ('action', 'softwaretype', 'ID', 'PASSWORD', 'dateutc')


class Record(dict):
    pass


class Reply(object):
    def __init__(self, status, text):
        self.status_code = status
        self.text = text
        self.content = text
        self.reason = text
        self.headers = {}

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        if self.status_code >= 400:
            raise AssertionError('HTTP error')


def send(e, record, rapid, reply=None):
    """The parameters of the update"""
    sent = []

    def answer(method, target, kwargs):
        sent.append((target, kwargs))
        return reply or Reply(200, 'success')
    stubs.Session.handler = answer
    try:
        if rapid:
            e.send_rapid_update(record)
        else:
            e.send_simple_update(record)
    finally:
        stubs.Session.handler = None
    return url.parse(*sent[-1])[1], len(sent)


def number(kind, n):
    return n if kind == 'int' else D(n) * D(FACTOR[kind])


def record_of(fields, present):
    r = Record()
    for _, field, kind, lo, hi in fields:
        r[field] = number(kind, (lo + hi) // 2) if present else None
    r.date = TIME
    return r


def reading(ctx, at, rapid, present):
    """one reading, of any value or missing, of a first update"""
    fields = RAPID if rapid else SIMPLE
    r = record_of(fields, present)
    _, field, kind, lo, hi = fields[at]
    if ctx.fork(ctx.bool('there')):
        r[field] = number(kind, ctx.int('reading', lo, hi))
    else:
        r[field] = None
    want = {}
    for name, f, _, _, _ in fields:
        if r[f] is not None:
            want[name] = r[f]
    if rapid:
        if r['wind_speed'] is not None:
            want['windgustmph'] = r['wind_speed']
            if r['wind_direction_degrees'] is not None:
                want['windgustdir'] = r['wind_direction_degrees']
    elif r['temperature_outside'] is not None and r['humidity_outside'] is not None and (
            field != 'humidity_outside' or ctx.fork(r['humidity_outside'] > 0)):
        want['dewptf'] = utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside'])
    average = r['wind_direction_degrees'] if rapid else None
    e = wunderground.WundergroundExporter('KTEST1', 'secret')
    pairs, n = send(e, r, rapid)
    ctx.check(n == 1, 'one request')
    names = [name for name, _ in pairs]
    for name in ALWAYS:
        ctx.check(len([1 for x in names if x == name]) == 1, '%s is sent' % name)
    for name in sorted(want):
        ctx.check(len([1 for x in names if x == name]) == 1, '%s is sent if the record has it' % name)
        text = url.value(pairs, name)
        ctx.check(text is not None and text == str(want[name]), '%s is the reading' % name)
    if average is not None:
        got = url.value(pairs, 'winddir_avg2m')
        ctx.check(got is not None, 'the average direction is sent')
    extra = [x for x in names if x not in want and x not in ALWAYS and not (x == 'winddir_avg2m' and average is not None)]
    ctx.check(len(extra) == 0, 'nothing invented is sent')
    ctx.observe('pairs', pairs)


def wind(ctx, speed, direction):
    r = record_of(RAPID, False)
    r['wind_speed'] = speed
    r['wind_direction_degrees'] = direction
    return r


def gust(ctx, missing, n, known=0):
    """n records, oldest first, with any speeds but those that are missing and the first `known`"""
    e = wunderground.WundergroundExporter('KTEST1', 'secret')
    speeds = []
    pairs = None
    for i in range(n):
        s = None if i in missing else (D((i * 29) % 200) if i < known else D(ctx.int('speed%d' % i, 0, 254)))
        speeds.append(s)
        r = wind(ctx, s, i + 1)
        pairs, _ = send(e, r, True)
    minute = [s for s in speeds[-24:] if s is not None]
    recent = [(s, i) for i, s in enumerate(speeds) if s is not None and i >= n - 25]
    got = url.value(pairs, 'windgustmph')
    if not recent:
        ctx.check(got is None, 'no gust without a wind speed')
        return
    if not minute and got is None:
        return
    ctx.check(got is not None, 'a gust is sent')
    way = url.value(pairs, 'windgustdir')
    ctx.check(way is not None, 'with its direction')
    ok = False
    for s, i in recent:
        highest = True
        for other in minute:
            highest = highest and s >= other
        ok = ok or (highest and got == str(s) and way == str(i + 1))
    ctx.check(ok, 'the highest wind speed of a minute with its direction')
    ctx.observe('gust', (got, way))


def lone_gust(ctx, at):
    """one record with a speed and a direction, or none, some time before the last"""
    e = wunderground.WundergroundExporter('KTEST1', 'secret')
    s = D(ctx.int('speed', 0, 254))
    pairs, _ = send(e, wind(ctx, s, 77), True)
    for i in range(at):
        pairs, _ = send(e, wind(ctx, None, None), True)
    got = url.value(pairs, 'windgustmph')
    if at < 24:
        ctx.check(got is not None and got == str(s), 'the gust of the last minute is sent')
        ctx.check(url.value(pairs, 'windgustdir') == '77', 'with its direction')
    elif at > 24:
        ctx.check(got is None, 'an older one is not')


def sent_average(ctx, directions):
    e = wunderground.WundergroundExporter('KTEST1', 'secret')
    for d in directions:
        pairs, _ = send(e, wind(ctx, D(3), d), True)
    return url.value(pairs, 'winddir_avg2m')


def direction(ctx, pattern, base, spread, kind):
    """any directions between base and base + spread degrees, some across north"""
    offsets = [ctx.int('offset%d' % i, 0, spread) if there else None for i, there in enumerate(pattern)]
    directions = [None if o is None else number(kind, (base + o - 1) % 360 + 1) for o in offsets]
    got = sent_average(ctx, directions)
    given = [o for o in offsets if o is not None]
    if not given:
        ctx.check(got is None, 'no direction without directions')
        return
    ctx.check(got is not None, 'a direction is sent')
    if kind == 'int':
        v, slack = float(got), 0
    else:
        v, slack = D(got), D('1E-12')
    ctx.check(v >= 0 and v <= 360, 'within 0 to 360')
    rel = (v + 360 - base) % 360
    lo, hi = given[0], given[0]
    for o in given:
        lo, hi = min(lo, o), max(hi, o)
    ctx.check((rel >= lo - slack and rel <= hi + slack) or (lo == 0 and rel >= 360 - slack), 'among the directions')


def old_direction(ctx):
    """directions more than two minutes old do not count"""
    old = [ctx.int('old%d' % i, 1, 360) for i in range(2)]
    got = sent_average(ctx, old + [90] * 50)
    ctx.check(got is not None and float(got) == 90, 'the direction of the last two minutes')


def reply(ctx, rapid, n):
    text = ''
    for i in range(n):
        text = text + chr(ctx.int('char%d' % i, 1, 127))
    status = ctx.int('status', 100, 599)
    failed = False
    e = wunderground.WundergroundExporter('KTEST1', 'secret')
    try:
        send(e, record_of(RAPID if rapid else SIMPLE, False), rapid, Reply(status, text))
    except Exception:
        failed = True
    good = status >= 200 and status < 300 and text == 'success'
    ctx.check(failed == (not good), 'an error unless the reply is a success')


def cases(tier):
    out = []
    for rapid in (False, True):
        kind = 'rapid' if rapid else 'simple'
        fields = RAPID if rapid else SIMPLE
        for present in (False, True):
            for i in range(len(fields)):
                out.append(('%s %s, others %s' % (kind, fields[i][0], 'present' if present else 'missing'), reading,
                            {'at': i, 'rapid': rapid, 'present': present}, 'any value or none'))
        for n in range(9):
            out.append(('%s reply of %d characters' % (kind, n), reply, {'rapid': rapid, 'n': n}, 'any status and ASCII text'))
    out.append(('gust', gust, {'missing': (), 'n': 27}, '27 records', 3))
    out.append(('gust, speeds missing', gust, {'missing': (0, 2, 3, 9, 20, 26), 'n': 27}, '27 records', 3))
    out.append(('gust, many records', gust, {'missing': (), 'n': 330, 'known': 318}, '330 records, the last with any speeds', 3))
    for at in (0, 1, 23, 25, 30):
        out.append(('gust %d records ago' % at, lone_gust, {'at': at}, 'one record with any speed'))
    patterns = [('int', (1,)), ('int', (0,)), ('int', (1, 1)), ('int', (1, 0)), ('int', (0, 1)), ('int', (1, 0, 1)),
                ('decimal', (1, 1)), ('int', (1, 1, 1, 1))]
    if tier == 'thorough':
        patterns += [('decimal', (1,) * 4), ('int', (1, 1, 0, 1, 1)), ('int', (1,) * 5)]
    for kind, p in patterns:
        for base in (0, 45, 200, 270, 350):
            out.append(('%s directions %s from %d' % (kind, ''.join(str(x) for x in p), base), direction,
                        {'pattern': p, 'base': base, 'spread': 179, 'kind': kind}, 'directions from %d to %d' % (base, base + 179)))
    out.append(('old directions', old_direction, {}, '52 records'))
    return out
