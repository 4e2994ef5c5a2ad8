"""Polling the console for LOOP packets."""
import contextlib
import threading

from weatherlink import poller

from checks import c06
from vlib import net, spec

BOUNDS = ('up to 5 (deep: 8) packets with any readings, and up to 260 some of which have any; the stop at any of the points where the two threads can alternate '
          '(before the thread runs, before any read, in any callback, after the end), with or without starting again')
ASSUMPTIONS = ['the polling thread and the caller alternate at reads from the console and calls of the callback',
               'LOOP1 packets are not supported by the package (NotImplementedError)']


def packets(ctx, n, every=1):
    """n packets; the pressure and dew point of one in `every` can be anything"""
    out = []
    for i in range(n):
        data = bytes(bytearray(99))
        for o, b in c06.parts():
            data = data[:o] + b + data[o + len(b):]
        if i % every:
            pressure, dew_point = spec.le16(20000 + i), spec.le16(256 + i)
        else:
            pressure, dew_point = ctx.bytes('pressure%d' % i, 2), ctx.bytes('dew point%d' % i, 2)
        data = data[:7] + pressure + data[9:30] + dew_point + data[32:]
        out.append(data)
    return out


def check_packet(ctx, record, data, label):
    for name, o, code, digits, dash in (('barometric_pressure', 7, 'H', 3, 0), ('dew_point', 30, 'h', 0, 255)):
        raw = spec.RAW[code](data, o)
        if raw == dash:
            ctx.check(record[name] is None, label)
        else:
            got = record[name]
            ctx.check(got is not None and got * 10 ** digits == raw, label)


def poll(ctx, n, asked, every=1):
    sent = packets(ctx, n, every)
    console = net.Console(b'\x06' + b''.join(sent))
    with net.Installed(console):
        p = poller.IPPoller('127.0.0.1')
        with_packet_type(p, asked)
        p.connect()
        got = p.poll(n)
        ctx.check(console.sent == ('LPS %d %d\n' % (2 if asked is None else asked, n)).encode('ascii'),
                  'one instruction, for the packet type and count')
        ctx.check(len(got) == n, 'as many packets as asked for')
        for i in range(n):
            check_packet(ctx, got[i], sent[i], 'the packets in the order the console sent them')
        ctx.check(not [h for h in console.handles if not h.closed], 'the handle is closed')
        p.disconnect()
    ctx.observe('pressures', [r['barometric_pressure'] for r in got])


def with_packet_type(p, asked):
    if asked is not None:
        p.packet_type = asked


def again(ctx):
    """Polling twice on one connection, for other counts"""
    sent = packets(ctx, 3)
    console = net.Console(b'')
    with net.Installed(console):
        p = poller.IPPoller('127.0.0.1')
        p.connect()
        console.incoming = b'\x06' + sent[0]
        first = p.poll(1)
        console.incoming = console.incoming + b'\x06' + sent[1] + sent[2]
        second = p.poll(2)
        ctx.check(len(first) == 1 and len(second) == 2, 'as many packets as asked for')
        for record, data in zip(first + second, sent):
            check_packet(ctx, record, data, 'the packets in the order the console sent them')
        ctx.check(console.sent == b'LPS 2 1\nLPS 2 2\n', 'one instruction for each poll')


def types(ctx):
    """The instruction names the packet type, which follows what is set"""
    kind = ctx.choice('type', [poller.Poller.PACKET_TYPE_LOOP1, poller.Poller.PACKET_TYPE_LOOP2,
                               poller.Poller.PACKET_TYPE_LOOP1 | poller.Poller.PACKET_TYPE_LOOP2])
    n = ctx.choice('count', [1, 2, 10, 200])
    console = net.Console(b'\x06')
    with net.Installed(console):
        p = poller.IPPoller('127.0.0.1')
        p.packet_type = kind
        p.connect()
        try:
            p.poll(n)
        except Exception:
            pass
        ctx.check(console.sent == ('LPS %d %d\n' % (kind, n)).encode('ascii'), 'one instruction, for the packet type and count')
        ctx.check(not [h for h in console.handles if not h.closed], 'the handle is closed')


# -- background --------------------------------------------------------------------------------------------------------

class Wire(poller.Poller):
    """A poller that acknowledges everything; reads are scheduling points"""

    def __init__(self, data, at):
        super(Wire, self).__init__()
        self.data = data
        self.at = at
        self.log = []
        self.handles = []

    def connect(self):
        pass

    def disconnect(self):
        pass

    def _send_data(self, data):
        if not isinstance(data, bytes):
            data = data.encode('ascii')
        self.log.append(data)

    def _read_data(self, length):
        return b'\x06'

    @contextlib.contextmanager
    def _get_file_handle(self):
        handle = Stream(self.data, self.at)
        self.handles.append(handle)
        try:
            yield handle
        finally:
            handle.close()


class Stream(object):
    def __init__(self, data, at):
        self.data = data
        self.pos = 0
        self.at = at
        self.closed = False

    def read(self, n=-1):
        self.at('read')
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        return out

    def close(self):
        self.closed = True


class Threads(object):
    """Threads that are started do not run before they are told to"""

    def __init__(self):
        self.started = []

    def __enter__(self):
        self.saved = threading.Thread.start, threading.Thread.join, threading.Thread.is_alive
        threads = self

        def start(thread):
            threads.started.append(thread)

        threading.Thread.start = start
        threading.Thread.join = lambda thread, timeout=None: None
        threading.Thread.is_alive = lambda thread: False
        return self

    def __exit__(self, *args):
        threading.Thread.start, threading.Thread.join, threading.Thread.is_alive = self.saved
        return False


def background(ctx, n, restart, stops=None, every=1):
    """The stop is the `when`-th event, counting from 0; -1 means before the thread runs, and the last one after it ended"""
    when = ctx.choice('stop', stops or list(range(-1, 2 * n + 1)))
    sent = packets(ctx, n, every)
    events = []
    got = []
    later = []
    state = {'after stop': None, 'refused': None}

    def stop():
        state['after stop'] = len(got)
        state['delivering'] = bool(events) and events[-1] == 'callback'
        p.stop_background_polling()
        if restart:
            p.start_background_polling(n, later.append)

    def at(event):
        events.append(event)
        if len(events) - 1 == when and state['after stop'] is None:
            stop()

    def callback(packet):
        got.append(packet)
        at('callback')

    with Threads() as threads:
        p = Wire(b''.join(sent), at)
        p.start_background_polling(n, callback)
        ctx.check(len(threads.started) == 1, 'one thread is started')
        ctx.check(b''.join(p.log) == ('LPS 2 %d\n' % n).encode('ascii'), 'one instruction, for the packet type and count')
        try:
            p.start_background_polling(n, callback)
        except ValueError:
            ctx.check(b''.join(p.log) == ('LPS 2 %d\n' % n).encode('ascii') and len(threads.started) == 1,
                      'a second start has no effect')
        else:
            ctx.fail('a second start while running is refused')
        events[:] = []
        del p.log[:]
        if when == -1:
            stop()
        threads.started[0].run()
        finished = state['after stop'] is None
        if finished:
            ctx.cover('finished')
            stop()
        ctx.check(not [h for h in p.handles if not h.closed], 'the handle is closed')
        before = state['after stop']
        ctx.check(len(got) - before <= (0 if when == -1 or state['delivering'] else 1),
                  'at most the packet in progress is delivered after the stop')
        ctx.check(finished or len(got) <= n, 'no more packets than asked for')
        for i in range(len(got)):
            check_packet(ctx, got[i], sent[i], 'the packets in the order the console sent them')
        commands = b''.join(p.log)
        if finished or len(got) == n:
            ctx.check(len(got) == n, 'all packets unless stopped')
            ctx.check(commands.replace(b'\r', b'').replace(b'LPS 2 %d\n' % n, b'') == b'', 'nothing else is sent')
        else:
            ctx.cover('stopped')
            ctx.check(commands.count(b'\r') == 1, 'the console is told to stop')
        if restart:
            ctx.check(len(threads.started) == 2, 'it can be started again after the stop')
            ctx.check(commands.count(b'LPS 2 %d\n' % n) == 1, 'which asks for the packets again')
            del p.log[:]
            threads.started[1].run()
            ctx.check(len(later) == n, 'all packets are delivered to the new callback')
            for i in range(len(later)):
                check_packet(ctx, later[i], sent[i], 'the packets in the order the console sent them')
            ctx.check(len(got) == before + (0 if when == -1 or state['delivering'] or finished else 1) or len(got) == n,
                      'and none to the old one')
            ctx.check(b'\r' not in b''.join(p.log), 'the new polling is not stopped')
            p.stop_background_polling()
        try:
            p.stop_background_polling()
        except ValueError:
            ctx.check(True, 'refused')
        else:
            ctx.fail('stopping what is not running is refused')
    ctx.observe('delivered', (len(got), len(later)))


def unstarted(ctx):
    """A start whose instruction is not acknowledged does not count as running"""
    ack = ctx.int('reply', 0, 255)
    ctx.assume(ack != 6)
    console = net.Console(bytes(bytearray([ack])) + b'\x06')
    got = []
    with Threads() as threads:
        with net.Installed(console):
            p = poller.IPPoller('127.0.0.1')
            p.connect()
            refused = False
            try:
                p.start_background_polling(2, got.append)
            except IOError:
                refused = True
            ctx.check(refused and len(threads.started) == 0, 'without an ACK no polling is started')
            p.start_background_polling(2, got.append)
            ctx.check(len(threads.started) == 1, 'it can be started again')
            p.stop_background_polling()


def failing(ctx, n):
    """A packet that is no LOOP2 packet ends the polling, after those before it were delivered"""
    at = ctx.choice('bad packet', list(range(n)))
    bad = ctx.bytes('bad', 3)
    ctx.assume(bad != b'LOO')
    sent = packets(ctx, n)
    sent[at] = bad + sent[at][3:]
    got = []
    with Threads() as threads:
        p = Wire(b''.join(sent), lambda event: None)
        p.start_background_polling(n, got.append)
        error = False
        try:
            threads.started[0].run()
        except Exception:
            error = True
        ctx.check(error and len(got) == at, 'the packets before it are delivered and none after it')
        for i in range(len(got)):
            check_packet(ctx, got[i], sent[i], 'the packets in the order the console sent them')
        ctx.check(not [h for h in p.handles if not h.closed], 'the handle is closed')
        p.stop_background_polling()


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in (1, 2, 5) + ((3, 8) if deep else ()):
        out.append(('poll-%d' % n, poll, {'n': n, 'asked': None}, '%d packets with any readings' % n, n))
    for n in (30, 260) + ((1000,) if deep else ()):
        out.append(('poll-%d' % n, poll, {'n': n, 'asked': None, 'every': n // 4}, '%d packets, a few with any readings' % n, 30))
    out.append(('poll-type-2', poll, {'n': 2, 'asked': 2}, '2 packets with any readings, LOOP2 asked for'))
    out.append(('again', again, {}, '1 and 2 packets with any readings'))
    out.append(('types', types, {}, 'the three packet types and listed counts'))
    for n in (1, 3) + ((2, 4, 6) if deep else ()):
        for restart in (False, True):
            out.append(('background-%d%s' % (n, '-restart' if restart else ''), background, {'n': n, 'restart': restart},
                        '%d packets with any readings, stopped at any point' % n, 3 * n))
    out.append(('background-many', background, {'n': 130, 'restart': False, 'stops': [127, 128, 257, 260], 'every': 40},
                '130 packets, some with any readings, stopped at listed points', 20))
    out.append(('unstarted', unstarted, {}, 'any reply but ACK'))
    out.append(('failing', failing, {'n': 3}, 'any of 3 packets bad'))
    return out
