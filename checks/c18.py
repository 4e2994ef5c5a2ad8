"""Acknowledgements of instructions sent to the console."""
from weatherlink import poller, serial

from vlib import net

BOUNDS = ('any reply byte, or the end of the stream, after an instruction of up to 12 (deep: 40) characters of ASCII; '
          'instructions given as text or as bytes; the IP communicator and one that transports single bytes')
ASSUMPTIONS = ['the stand-in socket behaves like a TCP socket: it accepts all data of sendall, may accept part of the '
               'data of send, and returns what has arrived from recv']


class Wire(serial.ConfigurationSettingMixin):
    """A communicator of its own, as for a serial port"""

    def __init__(self, console):
        super(Wire, self).__init__()
        self.console = console

    def connect(self):
        self.console.step('connect')

    def disconnect(self):
        self.console.step('close')

    def _send_data(self, data):
        if not isinstance(data, bytes):
            data = data.encode('ascii')
        self.console.step('send', data)
        self.console.sent = self.console.sent + data

    def _read_data(self, length):
        self.console.step('recv', length)
        return self.console.take(length)

    def _get_file_handle(self):
        return net.SocketFile(Holder(self.console), 'rb', -1)


class Holder(object):
    def __init__(self, console):
        self.console = console


def reply(ctx, end):
    """(what the console sends, the byte or None)"""
    if end:
        return b'', None
    b = ctx.int('reply', 0, 255)
    return bytes(bytearray([b])) + b'ABC', b


def outcome(ctx, console, answer, f):
    """runs f and checks that what it does is right for the answer"""
    error = None
    try:
        f()
    except serial.AcknowledgmentError as e:
        error = e
    if answer is not None and answer == 6:
        ctx.check(error is None, 'an ACK is accepted')
        ctx.cover('accepted')
    elif answer is not None and (answer == 0x15 or answer == 0x21):
        ctx.check(isinstance(error, serial.NotAcknowledgedError), 'NAK and ! raise the not-acknowledged error')
        ctx.cover('refused')
    else:
        ctx.check(isinstance(error, serial.InvalidAcknowledgementError),
                  'anything else raises the invalid-acknowledgement error')
        ctx.cover('neither')
    ctx.check(error is None or isinstance(error, IOError), 'it is an I/O error')
    ctx.check(console.pos == (0 if answer is None else 1), 'exactly one byte of reply is consumed')
    ctx.observe('error', type(error).__name__)
    return error


def order(ctx, console):
    sends = [i for i, e in enumerate(console.log) if e[0] == 'send']
    reads = [i for i, e in enumerate(console.log) if e[0] == 'recv' or e[0] == 'read']
    ctx.check(len(sends) > 0 and len(reads) > 0 and max(sends) < min(reads), 'the reply is read after the instruction was sent')


def confirm(ctx, end, wire):
    data, answer = reply(ctx, end)
    console = net.Console(data)
    if wire:
        outcome(ctx, console, answer, Wire(console).confirm_ack)
        return
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        c.connect()
        outcome(ctx, console, answer, c.confirm_ack)


def instruction(ctx, length, kind, end, wire):
    body = bytes(bytearray([ctx.int('char%d' % i, 0, 127) for i in range(length)]))
    command = body.decode('ascii') if kind == 'text' else body
    data, answer = reply(ctx, end)
    console = net.Console(data)
    with net.Installed(console):
        c = Wire(console) if wire else poller.IPPoller('127.0.0.1')
        c.connect()
        outcome(ctx, console, answer, lambda: c._send_instruction(command))
    ctx.check(console.sent == body, 'the instruction is sent completely, as its ASCII bytes, once')
    order(ctx, console)


def unconfirmed(ctx, length, wire):
    body = bytes(bytearray([ctx.int('char%d' % i, 0, 127) for i in range(length)]))
    console = net.Console(b'\x15\x06')
    with net.Installed(console):
        c = Wire(console) if wire else poller.IPPoller('127.0.0.1')
        c.connect()
        c._send_instruction(body.decode('ascii'), confirm_ack=False)
    ctx.check(console.sent == body, 'the instruction is sent completely')
    ctx.check(console.pos == 0, 'no reply is read')


def repeated(ctx, n):
    """Instructions one after another on one connection: each reply belongs to its instruction"""
    answers = [ctx.int('reply%d' % i, 0, 255) for i in range(n)]
    console = net.Console(bytes(bytearray(answers)))
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        c.connect()
        for i in range(n):
            ok = True
            try:
                c._send_instruction(u'TEST %d\n' % i)
            except IOError:
                ok = False
            ctx.check(ok == (answers[i] == 6), 'an instruction succeeds exactly if its own reply is ACK')
            ctx.check(console.pos == i + 1, 'one byte of reply for each instruction')


def users(ctx, which):
    """Everything that needs an acknowledgement raises if there is none"""
    data, answer = reply(ctx, False)
    if answer == 6:
        ctx.stop()
    console = net.Console(data)
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        c.connect()
        calls = {
            'read': lambda: c.read_config_setting('2B', '01'),
            'write': lambda: c.write_config_setting('2B', '01', b'\x10'),
            'rain': c.read_rain_collector_type,
            'poll': lambda: c.poll(1),
            'background': lambda: c.start_background_polling(1, console.incoming.__len__),
        }
        outcome(ctx, console, answer, calls[which])
    order(ctx, console)
    ctx.check(len([e for e in console.log if e[0] == 'read']) == 0, 'nothing else is read')
    ctx.check(console.sent[-1:] == b'\n' and console.sent.count(b'\n') == 1, 'nothing else is sent')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for wire in (False, True):
        w = '-wire' if wire else ''
        for end in (False, True):
            e = '-end' if end else ''
            out.append(('confirm' + w + e, confirm, {'end': end, 'wire': wire}, 'any reply byte' if not end else 'end of the stream'))
            for kind in ('text', 'bytes'):
                for length in (1, 5, 12) + ((2, 3, 7, 20, 40) if deep else ()):
                    if wire and kind == 'bytes':
                        continue
                    out.append(('instruction-%d-%s%s%s' % (length, kind, w, e), instruction,
                                {'length': length, 'kind': kind, 'end': end, 'wire': wire},
                                'any ASCII instruction of %d characters, %s' % (length, 'any reply byte' if not end else 'end of the stream')))
        out.append(('unconfirmed' + w, unconfirmed, {'length': 5, 'wire': wire}, 'any ASCII instruction of 5 characters, no confirmation'))
    out.append(('repeated', repeated, {'n': 6 if deep else 4}, '%d instructions, any replies' % (6 if deep else 4)))
    for which in ('read', 'write', 'rain', 'poll', 'background'):
        out.append(('users-' + which, users, {'which': which}, 'any reply byte but ACK'))
    return out
