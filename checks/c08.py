"""Downloads from WeatherLink.com."""
import datetime

from weatherlink import downloader

from checks import c03
from vlib import fakes, spec, stubs, url

BOUNDS = ('up to 6 announced records with arbitrary outside temperatures and rain, of which any one may be the first '
          'empty one, and up to 1300 some of which are arbitrary; any requested minute of 2000-2127 or any packed timestamp; archive intervals 1 to 120; header lines '
          'in any of four layouts; the response variants listed in the cases')
ASSUMPTIONS = ['requests are made through requests (any function of it); the body is read from the raw stream']


class Response(object):
    def __init__(self, status, headers, text=None, raw=None):
        self.status_code = status
        self.ok = status < 400
        self.headers = headers
        self.text = text
        self.raw = raw

    def raise_for_status(self):
        if self.status_code >= 400:
            raise AssertionError('status %s' % self.status_code)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class Service(object):
    """api.weatherlink.com"""

    def __init__(self, text, data, type1='text/html', headers2=None):
        self.text = text
        self.handle = fakes.Handle(data)
        self.type1 = type1
        self.headers2 = {'Content-Type': 'application/octet-stream', 'Content-Transfer-Encoding': 'binary'}
        self.headers2.update(headers2 or {})
        self.requests = []

    def __call__(self, method, address, kwargs):
        base, pairs, fragment = url.parse(address, kwargs)
        action = url.value(pairs, 'action')
        self.requests.append((method, base, pairs, fragment, action, kwargs))
        if action == 'headers':
            return Response(200, {'Content-Type': self.type1}, text=self.text)
        return Response(200, self.headers2, raw=self.handle)


def header_text(model, interval, records, maximum, layout='\n'):
    lines = ['Model={}', 'ConsoleVer={}', 'ArchiveInt={}', 'Records={}', 'MaxRecords={}', 'Extra=a=b']
    values = [model, 'Mar 26 2012', str(interval), str(records), str(maximum), '']
    if layout == 'spaces':
        return '\r\n'.join(l.replace('=', ' = ', 1).format(v) + ' ' for l, v in zip(lines, values)) + '\r\n'
    if layout == 'reversed':
        return '\n'.join(reversed([l.format(v) for l, v in zip(lines, values)]))
    return layout.join(l.format(v) for l, v in zip(lines, values)) + layout


def many(ctx, n, stop, every):
    """n records announced, one in `every` of them symbolic, with the first empty one at `stop`"""
    data, told = b'', []
    for i in range(n + 1):
        if i % every == 0 or i > n - 2:
            r, t, clicks = record(ctx, i, i == stop, i // 60, i % 60)
        else:
            t, clicks = (13 * i) % 1000, (7 * i) % 300
            r = plain(i == stop, i // 60, i % 60, t, clicks)
        data += r
        told.append((t, clicks))
    d = run(Service(header_text('16', 30, n, 2560), data))
    want = told[:min(stop, n)]
    ctx.check(len(d.records) == len(want), 'as many records as announced, up to the first empty one')
    if len(d.records) == len(want):
        for i, (got, (t, clicks)) in enumerate(zip(d.records, want)):
            ctx.check(got['temperature_outside'] == spec.D(t) * spec.D('0.1') and got['rain_amount_clicks'] == clicks,
                      'the records sent, in order')
            ctx.check(got['date'] == datetime.datetime(2024, 7, 31, i // 60, i % 60), 'the time of each record')
    ctx.check(d.record_count == n, 'the numbers of the headers')


def record(ctx, i, empty=False, hour=23, minute=None):
    t = ctx.int('temperature %d' % i, -500, 1500)
    clicks = ctx.int('clicks %d' % i, 0, 65535)
    return plain(empty, hour, i if minute is None else minute, t, clicks), t, clicks


def plain(empty, hour, minute, t, clicks):
    date = spec.le16(0) if empty else spec.le16(24 * 512 + 7 * 32 + 31)
    return date + spec.le16(100 * hour + minute) + spec.le16(t) + b'\x00' * 4 + spec.le16(clicks) + b'\x00' * 40


def run(service, when=None):
    d = downloader.Downloader('user', 'secret', 'token')
    before = stubs.Session.handler
    stubs.Session.handler = service
    try:
        d.download(datetime.datetime(2024, 7, 31, 23, 55) if when is None else when)
    finally:
        stubs.Session.handler = before
    return d


def records(ctx, n, layout):
    """n records announced; one of them, or none, is the first empty one; more data follows"""
    empty = ctx.choice('first empty record', list(range(n + 1)))
    interval = ctx.pick('interval', [1, 5, 10, 15, 30, 60, 120])
    maximum = ctx.pick('maximum', [1, 2560, 10240])
    data, told = b'', []
    for i in range(n + 1):
        r, t, clicks = record(ctx, i, i == empty and i < n)
        data += r
        told.append((t, clicks))
    service = Service(header_text('16', interval, n, maximum, layout), data)
    d = run(service)
    want = told[:min(empty, n)]
    ctx.check(len(d.records) == len(want), 'as many records as announced, up to the first empty one')
    if len(d.records) == len(want):
        for i, (got, (t, clicks)) in enumerate(zip(d.records, want)):
            ctx.check(got['temperature_outside'] == spec.D(t) * spec.D('0.1') and got['rain_amount_clicks'] == clicks,
                      'the records sent, in order')
            ctx.check(got['date'] == datetime.datetime(2024, 7, 31, 23, i), 'the time of each record')
            ctx.check(got['minutes_covered'] == interval, 'each record covers the archive interval')
    ctx.check(d.record_minute_span == interval and d.record_count == n and d.max_account_records == maximum,
              'the numbers of the headers')
    ctx.check(d.console_version == 'Mar 26 2012', 'the version of the console')
    ctx.observe('records', d.records)


def asks(ctx, kind):
    if kind == 'packed':
        stamp = when = ctx.int('timestamp', 0, 128 * 512 * 65536)
    else:
        y, mo, dd = ctx.int('year', 2000, 2127), ctx.int('month', 1, 12), ctx.int('day', 1, 31)
        h, mi = ctx.int('hour', 0, 23), ctx.int('minute', 0, 59)
        if mo == 2:
            ctx.assume(dd <= (29 if y % 4 == 0 and y != 2100 else 28))
        elif mo == 4 or mo == 6 or mo == 9 or mo == 11:
            ctx.assume(dd <= 30)
        when = datetime.datetime(y, mo, dd, h, mi)
        stamp = ((y - 2000) * 512 + mo * 32 + dd) * 65536 + h * 100 + mi
    service = Service(header_text('16', 5, 0, 2560), b'')
    run(service, when)
    ctx.check([r[4] for r in service.requests] == ['headers', 'data'], 'first the headers, then the data, once each')
    for method, base, pairs, fragment, action, kwargs in service.requests:
        ctx.check(method == 'GET' and base == 'https://api.weatherlink.com/webdl.php' and fragment is None,
                  'asks the service')
        ctx.check(sorted(n for n, _ in pairs) == ['action', 'apiToken', 'pass', 'timestamp', 'user'], 'its parameters')
        ctx.check(url.value(pairs, 'timestamp') == str(stamp), 'the packed time stamp of the requested time')
        ctx.check(url.value(pairs, 'user') == 'user' and url.value(pairs, 'pass') == 'secret' and
                  url.value(pairs, 'apiToken') == 'token', 'the credentials')
    ctx.check(len(service.requests) < 2 or service.requests[1][5].get('stream') is True, 'the data are streamed')


REFUSED = {
    'model': dict(model='15'), 'model-empty': dict(model=''), 'type-json': dict(type1='application/json'),
    'type-none': dict(type1=''), 'type2-html': dict(headers2={'Content-Type': 'text/html'}),
    'type2-text': dict(headers2={'Content-Type': 'text/plain'}),
    'transfer-base64': dict(headers2={'Content-Transfer-Encoding': 'base64'}),
    'gzip': dict(headers2={'Content-Encoding': 'gzip'}), 'deflate': dict(headers2={'Content-Encoding': 'deflate'}),
    'br': dict(headers2={'Content-Encoding': 'br'}), 'compress': dict(headers2={'Content-Encoding': 'compress'}),
}


def refused(ctx):
    what = ctx.choice('what', sorted(REFUSED))
    options = dict(REFUSED[what])
    model = options.pop('model', '16')
    service = Service(header_text(model, 5, 1, 2560), record(ctx, 0)[0], **options)
    d = downloader.Downloader('user', 'secret', 'token')
    before = stubs.Session.handler
    stubs.Session.handler = service
    try:
        d.download(datetime.datetime(2024, 7, 31, 23, 55))
    except Exception:
        ctx.check(not d.records, 'no record of a refused response is kept')
        ctx.check(service.handle.pos == 0, 'no data of a refused response are read')
    else:
        ctx.fail('refused: ' + what)
    finally:
        stubs.Session.handler = before


def accepted(ctx):
    type1 = ctx.choice('type', ['text/html', 'text/plain'])
    extra = ctx.choice('headers', [None, {'Content-Encoding': 'identity'}, {'Content-Length': '52'}])
    data, t, clicks = record(ctx, 0)
    d = run(Service(header_text('16', 5, 1, 2560), data, type1=type1, headers2=extra))
    ctx.check(len(d.records) == 1 and d.records[0]['rain_amount_clicks'] == clicks, 'accepted')


def short(ctx, n):
    """the stream ends within a record"""
    cut = ctx.choice('length', [0, 1, 2, 51] + [52 * i + j for i in range(1, n) for j in (0, 1, 51)])
    data = b''
    for i in range(n):
        data += record(ctx, i)[0]
    d = downloader.Downloader('user', 'secret', 'token')
    before = stubs.Session.handler
    stubs.Session.handler = Service(header_text('16', 5, n, 2560), data[:cut])
    try:
        d.download(datetime.datetime(2024, 7, 31, 23, 55))
    except Exception:
        ctx.check(True, 'an error')
    else:
        ctx.fail('a download cut short is an error')
    finally:
        stubs.Session.handler = before


def again(ctx):
    """a second download replaces the records of the first"""
    a = ctx.choice('first', [0, 1, 2])
    b = ctx.choice('second', [0, 1, 2])
    d = downloader.Downloader('user', 'secret', 'token')
    before = stubs.Session.handler
    try:
        for n, base in ((a, 0), (b, 10)):
            told, data = [], b''
            for i in range(n):
                r, t, clicks = record(ctx, base + i)
                data += r
                told.append(clicks)
            stubs.Session.handler = Service(header_text('16', 5, n, 2560), data)
            d.download(datetime.datetime(2024, 7, 31, 23, 55))
            ctx.check(len(d.records) == n, 'the records of the last download only')
            if len(d.records) == n:
                for got, clicks in zip(d.records, told):
                    ctx.check(got['rain_amount_clicks'] == clicks, 'the records of the last download')
    finally:
        stubs.Session.handler = before


def cases(tier):
    out = [('records-%d-%s' % (n, layout.strip() or repr(layout)), records, {'n': n, 'layout': layout},
            '%d announced records' % n, 5 + n)
           for n, layout in ([(0, '\n'), (1, '\r\n'), (2, 'spaces'), (3, 'reversed'), (4, '\n')] +
                             ([(6, '\n'), (12, '\n')] if tier == 'thorough' else []))]
    out += [('many-%d-%d' % (n, stop), many, {'n': n, 'stop': stop, 'every': every},
             '%d announced records, some of which are symbolic' % n, 30)
            for n, stop, every in [(257, 999, 50), (130, 128, 20), (1300, 9999, 100)] + ([(1300, 1290, 100), (1030, 1029, 10)] if tier == 'thorough' else [])]
    out += [('asks-time', asks, {'kind': 'datetime'}, 'any minute of 2000-2127'),
            ('asks-packed', asks, {'kind': 'packed'}, 'any packed timestamp'),
            ('refused', refused, {}, 'eleven refused responses'),
            ('accepted', accepted, {}, 'six accepted responses'),
            ('short', short, {'n': 3}, 'ten lengths of a stream that ends early'),
            ('again', again, {}, 'two downloads of up to two records each')]
    return out
