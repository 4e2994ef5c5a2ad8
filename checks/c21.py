"""Releasing connections, cursors and handles; whose error is seen."""
from weatherlink import poller, serial
from weatherlink.exporter import mysql as mysql_exporter
from weatherlink.models import ArchiveIntervalRecord

from vlib import db, net, tables
from vlib.spec import D

import datetime
import itertools

BOUNDS = ('every combination of failing operations (opening, connecting, reading, closing, the work itself); sequences of '
          'up to 4 (deep: 5) connects and disconnects with any of them failing')
ASSUMPTIONS = ['operations of sockets and of the database driver fail with exceptions; a close that fails has closed']


class Failure(IOError):
    """An error raised at one step"""

    def __init__(self, step):
        IOError.__init__(self, step)
        self.step = step


class Work(Exception):
    """An error of the caller's own"""
    step = 'work'


def console_of(ctx, names, incoming=b''):
    """A console whose named operations fail or not"""
    failing = {}
    faults = {}
    for name in names:
        fails = ctx.bool(name + ' fails')
        failing[name] = fails
        if fails:
            faults[(name, None)] = Failure(name)
    return net.Console(incoming, faults), failing


def attempt(f):
    """the step at which f failed, or None"""
    try:
        f()
    except (Failure, Work) as e:
        return e.step
    except ValueError as e:
        return 'refused'
    return None


def usable(ctx, console, c):
    """The communicator is not connected and can connect again"""
    ctx.check(len(console.open()) == 0, 'every socket is closed')
    console.faults = {}
    ctx.check(attempt(c.disconnect) == 'refused', 'it is not connected')
    ctx.check(attempt(c.connect) is None, 'it can connect again')
    ctx.check(len(console.open()) == 1 and console.open()[0].connected is not None, 'with a new socket')
    ctx.check(attempt(c.disconnect) is None, 'and disconnect again')
    ctx.check(len(console.open()) == 0, 'every socket is closed then')


def connecting(ctx):
    console, failing = console_of(ctx, ('socket', 'connect', 'close'))
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        error = attempt(c.connect)
        if failing['socket']:
            ctx.check(error == 'socket', 'the error of opening the socket is seen')
            usable(ctx, console, c)
        elif failing['connect']:
            ctx.check(error == 'connect', 'the error of connecting is seen, not that of the cleanup')
            ctx.cover('failed')
            usable(ctx, console, c)
        else:
            ctx.check(error is None, 'connects')
            ctx.check(len(console.open()) == 1, 'keeps its socket')
            error = attempt(c.disconnect)
            ctx.check(error == ('close' if failing['close'] else None), 'the error of closing is seen')
            ctx.cover('closed')
            usable(ctx, console, c)
    ctx.observe('error', error)


def block(ctx):
    console, failing = console_of(ctx, ('socket', 'connect', 'close'))
    work = ctx.bool('work fails')
    entered = []

    def run():
        with c:
            entered.append(True)
            if work:
                raise Work()

    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        error = attempt(run)
        if failing['socket'] or failing['connect']:
            ctx.check(error == ('socket' if failing['socket'] else 'connect'), 'the error of connecting is seen')
            ctx.check(not entered, 'the work is not begun')
        elif work:
            ctx.check(error == 'work', 'the error of the work is seen')
        elif failing['close']:
            ctx.check(error == 'close', 'the error of closing is seen when the work succeeded')
        else:
            ctx.check(error is None, 'no error')
        usable(ctx, console, c)
    ctx.observe('error', error)


def reading(ctx, confirm):
    """A setting is read while opening, reading or closing the handle fails, and its CRC may be wrong"""
    data = ctx.bytes('data', 3)
    console, failing = console_of(ctx, ('makefile', 'read', 'handle-close'), b'\x06' + data)
    got = error = None
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        c.connect()
        try:
            got = c.read_config_setting('2B', '01', confirm)
        except Failure as e:
            error = e.step
        except serial.CRCValidationError:
            error = 'crc'
        if failing['makefile']:
            ctx.check(error == 'makefile', 'the error of opening is seen')
        elif failing['read']:
            ctx.check(error == 'read', 'the error of reading is seen, not that of the cleanup')
        elif failing['handle-close']:
            ctx.check(error == 'handle-close', 'the error of closing is seen when the reading succeeded')
        else:
            ctx.check(error in (None, 'crc'), 'the result of the reading is seen')
            ctx.check(confirm or error is None, 'no check of the CRC')
        ctx.check((got is None) == (error is not None), 'an error or a setting')
        ctx.check(not [h for h in console.handles if not h.closed], 'every handle is closed')
        ctx.check(attempt(c.disconnect) is None, 'it disconnects')
        ctx.check(len(console.open()) == 0, 'the socket is closed')
    ctx.observe('error', error)


def polling(ctx, packets):
    """Packets are polled while an operation fails at any packet"""
    at = ctx.choice('read that fails', [None] + list(range(packets)))
    data = packet()
    console, failing = console_of(ctx, ('makefile', 'handle-close'), b'\x06' + data * packets)
    if at is not None:
        console.faults[('read', at)] = Failure('read')
    got = error = None
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        c.connect()
        try:
            got = c.poll(packets)
        except Failure as e:
            error = e.step
        reads = console.counts.get('read', 0)
        if failing['makefile']:
            ctx.check(error == 'makefile', 'the error of opening is seen')
        elif at is not None and at < reads:
            ctx.check(error == 'read', 'the error of reading is seen, not that of the cleanup')
        elif failing['handle-close']:
            ctx.check(error == 'handle-close', 'the error of closing is seen when the polling succeeded')
        else:
            ctx.check(error is None and len(got) == packets, 'all packets')
        ctx.check(not [h for h in console.handles if not h.closed], 'every handle is closed')
    ctx.observe('error', error)


def packet():
    data = bytearray(99)
    for o, b in c06_parts():
        data[o:o + len(b)] = b
    return bytes(data)


def c06_parts():
    from checks import c06
    return c06.parts()


OPERATIONS = [('connect', f) for f in (None, 'socket', 'connect', 'close')] + [('disconnect', None), ('disconnect', 'close')]


def history(ctx, n, first):
    """connects and disconnects in any order, each of which may fail"""
    sequence = ctx.choice('operations', [first + rest for rest in itertools.product(OPERATIONS, repeat=n - len(first))])
    console = net.Console()
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        connected = False
        for i in range(n):
            ctx.check(len(console.open()) == (1 if connected else 0), 'one open socket if connected, or else none')
            name, fault = sequence[i]
            console.faults = {} if fault is None else {(fault, None): Failure(fault)}
            before = len(console.log)
            if name == 'connect':
                error = attempt(c.connect)
                if connected:
                    ctx.check(error == 'refused' and len(console.log) == before, 'connecting twice is refused')
                elif fault == 'socket' or fault == 'connect':
                    ctx.check(error == fault, 'the error of connecting')
                else:
                    ctx.check(error is None, 'connects')
                    connected = True
            else:
                error = attempt(c.disconnect)
                if not connected:
                    ctx.check(error == 'refused' and len(console.log) == before, 'disconnecting twice is refused')
                else:
                    ctx.check(error == fault, 'the error of closing, if any')
                    connected = False
        console.faults = {}
        ctx.check(len(console.open()) == (1 if connected else 0), 'one open socket if connected, or else none')
        ctx.check(attempt(c.connect) == ('refused' if connected else None), 'it can connect if it is not connected')


# -- database ----------------------------------------------------------------------------------------------------------

def server_of(ctx, names):
    failing = {}
    faults = {}
    for name in names:
        fails = ctx.bool(name + ' fails')
        failing[name] = fails
        if fails:
            faults[(name, None)] = Failure(name)
    return db.Server(faults), failing


def exporter():
    return mysql_exporter.MySQLExporter('user', 'secret', 'weather')


def database_usable(ctx, server, e):
    ctx.check(len(server.open()) == 0, 'every connection is closed')
    server.faults = {}
    before = len(server.connections)
    ctx.check(attempt(e.connect) is None and len(server.open()) == 1, 'it can connect again')
    ctx.check(len(server.connections) == before + 1, 'with a new connection')
    ctx.check(len(server.connections[-1].cursors) == 0 and not server.connections[-1].closed, 'which is open')
    ctx.check(attempt(e.disconnect) is None and len(server.open()) == 0, 'and disconnect again')
    steps = len(server.log)
    ctx.check(attempt(e.disconnect) is None and len(server.log) == steps, 'what is disconnected is let go')


def database_block(ctx):
    server, failing = server_of(ctx, ('connect', 'close'))
    work = ctx.bool('work fails')
    entered = []

    def run():
        with e:
            entered.append(True)
            if work:
                raise Work()

    with db.Installed(server):
        e = exporter()
        error = attempt(run)
        if failing['connect']:
            ctx.check(error == 'connect' and not entered, 'the error of connecting is seen and the work not begun')
        elif work:
            ctx.check(error == 'work', 'the error of the work is seen')
        elif failing['close']:
            ctx.check(error == 'close', 'the error of closing is seen when the work succeeded')
        else:
            ctx.check(error is None, 'no error')
        if not failing['connect']:
            ctx.check(server.connections[0].closed, 'the connection is closed')
        database_usable(ctx, server, e)
    ctx.observe('error', error)


def database_disconnect(ctx):
    server, failing = server_of(ctx, ('close',))
    with db.Installed(server):
        e = exporter()
        e.connect()
        error = attempt(e.disconnect)
        ctx.check(error == ('close' if failing['close'] else None), 'the error of closing is seen')
        database_usable(ctx, server, e)


def export(ctx):
    """A record is exported while any operation fails"""
    server, failing = server_of(ctx, ('cursor', 'execute', 'commit', 'cursor-close'))
    with db.Installed(server):
        e = exporter()
        e.connect()
        error = attempt(lambda: e.export_record(ArchiveIntervalRecord(date=datetime.datetime(2016, 5, 1, 12, 30), timestamp=1)))
        want = None
        for name in ('cursor', 'execute', 'commit', 'cursor-close'):
            if want is None and failing[name]:
                want = name
        ctx.check(error == want, 'the first error is seen, not that of the cleanup')
        ctx.check(len(server.open_cursors()) == 0, 'every cursor is closed')
        ctx.check(server.counts.get('commit', 0) == (0 if failing['cursor'] or failing['execute'] else 1),
                  'commits if and only if the statement succeeded')
        ctx.check(len(server.open()) == 1, 'the connection stays open')
        ctx.check(attempt(e.disconnect) is None and len(server.open()) == 0, 'until it is disconnected')
    ctx.observe('error', error)


DAY = datetime.datetime(2016, 5, 1, 12, 30)


def weather(ctx):
    """A day with some rain"""
    base = tables.Database(ctx)
    for i in range(3):
        at = DAY + datetime.timedelta(minutes=30 * i)
        base.put('weather_archive_record', timestamp_weatherlink=i + 1, timestamp_station=at, timestamp_utc=at, minutes_covered=30,
                 summary_year=2016, summary_month=5, summary_day=1, rain_total=D('0.05'), rain_rate_high=D('0.10'),
                 wind_speed=D(5), temperature_outside=D('61.5'), temperature_outside_low=D('60.0'))
    return base


CALLS = {
    'summaries': lambda e: e.recalculate_summaries_for_dates([DAY]),
    'rain': lambda e: e.find_new_rain_events(),
    'newest': lambda e: e.get_newest_timestamp(),
}


def calculation(ctx, which, operation, ats):
    """A calculation fails at any one of its steps, and closing the cursor may fail, too"""
    at = ctx.choice('step', ats)
    closing = ctx.bool('cursor-close fails')
    base = weather(ctx)
    with db.Installed(base):
        e = exporter()
        e.connect()
        base.faults = {(operation, at): Failure(operation)}
        if closing:
            base.faults[('cursor-close', None)] = Failure('cursor-close')
        before = len(base.log)
        error = attempt(lambda: CALLS[which](e))
        steps = [s[0] for s in base.log[before:]]
        failed = [j for j, s in enumerate(steps) if s == operation][at:at + 1]
        closed = [j for j, s in enumerate(steps) if s == 'cursor-close']
        if failed and (not closing or not closed or failed[0] < closed[0]):
            ctx.check(error == operation, 'the error of the step is seen, not that of the cleanup')
            ctx.check([s for s in steps[failed[0] + 1:] if s in ('execute', 'commit')] == [], 'nothing is done after it failed')
            ctx.cover('failed')
        elif closing and closed:
            ctx.check(error == 'cursor-close', 'the error of closing is seen')
            ctx.cover('closing failed')
        else:
            ctx.check(error is None, 'no error')
        ctx.check(len(base.open_cursors()) == 0, 'every cursor is closed')
        ctx.check(len(base.open()) == 1, 'the connection stays open')
        base.faults = {}
        ctx.check(attempt(e.disconnect) is None and len(base.open()) == 0, 'until it is disconnected')
        ctx.check(attempt(e.connect) is None and len(base.open()) == 1, 'it can connect again')
    ctx.observe('error', error)
    ctx.observe('steps', steps)


def cases(tier):
    deep = tier == 'thorough'
    out = [
        ('connecting', connecting, {}, 'opening, connecting and closing fail or not'),
        ('block', block, {}, 'a with-block whose steps fail or not'),
        ('reading-checked', reading, {'confirm': True}, 'any setting of one byte; opening, reading and closing the handle fail or not'),
        ('reading-unchecked', reading, {'confirm': False}, 'any setting of one byte; opening, reading and closing the handle fail or not'),
        ('polling', polling, {'packets': 3}, '3 packets; opening, any read, and closing the handle fail or not'),
        ('database-block', database_block, {}, 'a with-block whose steps fail or not'),
        ('database-disconnect', database_disconnect, {}, 'closing fails or not'),
        ('export', export, {}, 'the cursor, the statement, the commit and closing the cursor fail or not'),
    ]
    for which in sorted(CALLS):
        for operation, n in (('cursor', 6), ('execute', 52), ('fetch', 34), ('commit', 6)):
            if which == 'newest':
                n = 2
            elif which == 'rain':
                n = min(n, 7)
            for k in range(0, n, 15):
                out.append(('%s-%s-%d' % (which, operation, k), calculation,
                            {'which': which, 'operation': operation, 'ats': list(range(k, min(k + 15, n)))},
                            'a calculation whose %s fails, steps %d to %d; closing the cursor fails or not'
                            % (operation, k, min(k + 15, n) - 1), 5))
    for i, first in enumerate(itertools.product(OPERATIONS, repeat=2 if deep else 1)):
        out.append(('history-%d' % (i + 1), history, {'n': 5 if deep else 4, 'first': first},
                    '%d connects and disconnects, each with any fault, starting with %s' % (5 if deep else 4, ', '.join(
                        '%s%s' % (n, '' if f is None else ' (%s fails)' % f) for n, f in first)), 30))
    return out
