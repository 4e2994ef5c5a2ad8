"""Credentials in requests."""
import datetime
import io
import itertools

from weatherlink import downloader
from weatherlink.exporter import wunderground

from vlib import stubs, url

BOUNDS = ('every text of 1 to 2 characters (thorough: 3) of any kind (all of Unicode but surrogates) as user name, password, API '
          'token or station id, one of them at a time, within a longer text or alone; both at once with 1 character each')
ASSUMPTIONS = ['the service reads a query as application/x-www-form-urlencoded UTF-8; when a parameter occurs twice it is not '
               'received as sent']

TIME = datetime.datetime(2016, 7, 9, 12, 5)


KINDS = ((1, 0x7F), (0x80, 0x7FF), (0x800, 0xD7FF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF))


def text_of(ctx, name, kinds, before, after):
    """(the text, the bytes of it)"""
    text = before
    codes = [ord(c) for c in before]
    for i, (lo, hi) in enumerate(kinds):
        c = ctx.int('%s[%d] from %X' % (name, i, lo), lo, hi)
        text = text + chr(c)
        codes.extend(url.utf8(c))
    text = text + after
    codes.extend([ord(c) for c in after])
    return text, codes


class Reply(object):
    def __init__(self, headers, text):
        self.headers = headers
        self.text = text
        self.content = text
        self.raw = io.BytesIO(b'')
        self.status_code = 200
        self.ok = True

    def raise_for_status(self):
        pass


HEADERS = 'Model=16\nMaxRecords=10\nConsoleVer=Sep 29 2009 11:35:58\nArchiveInt=5\nRecords=0'


def sent_by_downloader(credentials):
    sent = []

    def answer(method, target, kwargs):
        sent.append((target, kwargs))
        if len(sent) == 1:
            return Reply({'Content-Type': 'text/html'}, HEADERS)
        return Reply({'Content-Type': 'application/octet-stream', 'Content-Transfer-Encoding': 'binary'}, '')
    stubs.Session.handler = answer
    try:
        d = downloader.Downloader(credentials['user'], credentials['pass'], credentials['apiToken'])
        d.download(TIME)
    finally:
        stubs.Session.handler = None
    return sent


def sent_by_exporter(credentials, rapid):
    sent = []

    def answer(method, target, kwargs):
        sent.append((target, kwargs))
        return Reply({}, 'success')
    stubs.Session.handler = answer
    try:
        e = wunderground.WundergroundExporter(credentials['ID'], credentials['PASSWORD'])
        record = Record()
        for f in FIELDS:
            record[f] = None
        record.date = TIME
        if rapid:
            e.send_rapid_update(record)
        else:
            e.send_simple_update(record)
    finally:
        stubs.Session.handler = None
    return sent


class Record(dict):
    pass


FIELDS = ('wind_speed', 'wind_direction_prevailing_degrees', 'wind_speed_high', 'wind_direction_speed_high_degrees',
          'humidity_outside', 'temperature_outside', 'barometric_pressure', 'solar_radiation', 'uv_index', 'temperature_inside',
          'humidity_inside', 'wind_direction_degrees', 'wind_gust', 'wind_gust_direction', 'wind_speed_2_minute_average',
          'wind_speed_10_minute_gust', 'wind_speed_10_minute_gust_direction_degrees', 'dew_point', 'rain_amount_1_hour',
          'rain_amount_today')


def check(ctx, sent, plain, want):
    """What the service gets is what it gets for credentials that need no encoding, but for the credentials themselves"""
    ctx.check(len(sent) == len(plain), 'the same requests')
    for i in range(len(plain)):
        base, pairs, fragment = url.parse(*plain[i])
        got_base, got_pairs, got_fragment = url.parse(*sent[i])
        ctx.check(got_base == base, 'the same address')
        ctx.check(got_fragment is None, 'no fragment')
        ctx.check(len(got_pairs) == len(pairs), 'the same number of parameters')
        ctx.check([n for n, _ in got_pairs] == [n for n, _ in pairs], 'the same parameters')
        for name, raw in pairs:
            got = url.value(got_pairs, name)
            ctx.check(got is not None, 'every parameter once')
            if name in want:
                ctx.check(url.decode(got) == want[name], 'exactly the text given')
            else:
                ctx.check(got == raw, 'the other parameters are the same')
        for name in want:
            ctx.check(name in [n for n, _ in pairs], 'every credential is sent')
        ctx.observe('request%d' % i, got_pairs)


def download(ctx, lengths, before='', after=''):
    plain = {'user': 'abc', 'pass': 'def', 'apiToken': 'ghi'}
    kinds = ctx.choice('kinds', list(itertools.product(KINDS, repeat=sum([n for _, n in lengths]))))
    run(ctx, plain, lengths, sent_by_downloader, before, after, kinds)


def export(ctx, lengths, rapid, before='', after=''):
    plain = {'ID': 'abc', 'PASSWORD': 'def'}
    kinds = ctx.choice('kinds', list(itertools.product(KINDS, repeat=sum([n for _, n in lengths]))))
    run(ctx, plain, lengths, lambda c: sent_by_exporter(c, rapid), before, after, kinds)


def run(ctx, plain, lengths, sender, before, after, kinds):
    credentials = dict(plain)
    want = {}
    for name in plain:
        want[name] = [ord(c) for c in plain[name]]
    for name, n in lengths:
        credentials[name], want[name] = text_of(ctx, name, kinds[:n], before, after)
        kinds = kinds[n:]
    check(ctx, sender(credentials), sender(plain), want)


def cases(tier):
    out = []
    n = 2 if tier == 'quick' else 3
    for name in ('user', 'pass', 'apiToken'):
        out.append(('download %s' % name, download, {'lengths': [(name, n)]}, '%d characters' % n, 2))
        out.append(('download %s inside' % name, download, {'lengths': [(name, 1)], 'before': 'a', 'after': 'b='},
                    '1 character'))
    out.append(('download all', download, {'lengths': [('user', 1), ('pass', 1), ('apiToken', 1)]}, '1 character each', 2))
    for rapid in (False, True):
        kind = 'rapid' if rapid else 'simple'
        for name in ('ID', 'PASSWORD'):
            out.append(('%s %s' % (kind, name), export, {'lengths': [(name, n)], 'rapid': rapid}, '%d characters' % n, 2))
            out.append(('%s %s inside' % (kind, name), export, {'lengths': [(name, 1)], 'rapid': rapid, 'before': 'a', 'after': 'b='},
                        '1 character'))
        out.append(('%s both' % kind, export, {'lengths': [('ID', 1), ('PASSWORD', 1)], 'rapid': rapid}, '1 character each', 2))
    return out
