"""Writing configuration settings to the console."""
from weatherlink import poller, serial

from checks import c02
from vlib import net

BOUNDS = 'any bytes of settings of 1 to 4, 10, 16, 43, 255 and 256 bytes (deep: and some more), values of 0 to 3 bytes more or less, any reply byte'
ASSUMPTIONS = ['the CRC is that of C02']


def write(ctx, address, length, value, incoming):
    """(console, error)"""
    console = net.Console(incoming)
    error = None
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        c.connect()
        try:
            result = c.write_config_setting(address, length, value)
            ctx.check(result is None, 'returns nothing')
        except (IOError, ValueError) as e:
            error = e
    return console, error


def framed(ctx, address, length):
    n = int(length, 16)
    value = ctx.bytes('value', n)
    ack = ctx.int('ack', 0, 255)
    console, error = write(ctx, address, length, value, bytes(bytearray([ack])) + b'\x06\x06')
    instruction = ('EEBWR %s %s\n' % (address, length)).encode('ascii')
    ctx.check(console.sent[:len(instruction)] == instruction, 'the write instruction for the address and length comes first')
    rest = console.sent[len(instruction):]
    if ack == 6:
        ctx.check(error is None, 'no error after an ACK')
        ctx.check(rest[:n] == value, 'the bytes of the setting follow')
        ctx.check(len(rest) == n + 2, 'and nothing else but two bytes')
        if len(rest) == n + 2:
            ctx.check(rest[n] * 256 + rest[n + 1] == c02.bit_crc(value), 'which are the CRC, its high byte first')
        ctx.cover('accepted')
    else:
        ctx.check(isinstance(error, serial.AcknowledgmentError), 'the acknowledgement error otherwise')
        ctx.check(len(rest) == 0, 'no data is sent without an ACK')
        ctx.cover('refused')
    log = console.log
    first = [i for i, e in enumerate(log) if e[0] in ('recv', 'read')]
    before = b''.join([bytes(e[1]) for e in log[:first[0]] if e[0] == 'send']) if first else b''
    ctx.check(before == instruction, 'the reply is awaited after the instruction and before the data')
    ctx.observe('sent', console.sent)


def silent(ctx, address, length):
    value = ctx.bytes('value', int(length, 16))
    console, error = write(ctx, address, length, value, b'')
    ctx.check(isinstance(error, serial.AcknowledgmentError), 'the end of the stream is no ACK')
    ctx.check(console.sent == ('EEBWR %s %s\n' % (address, length)).encode('ascii'), 'no data is sent without an ACK')


def mismatch(ctx, length):
    n = int(length, 16)
    size = ctx.choice('size', [s for s in list(range(max(0, n - 3), n + 4)) + [int(length, 16) * 2, 0] if s != n])
    value = ctx.bytes('value', size)
    console, error = write(ctx, '2B', length, value, b'\x06\x06')
    ctx.check(isinstance(error, ValueError), 'a value of another length is refused')
    ctx.check(len(console.sent) == 0 and console.pos == 0, 'and nothing is sent')


def readable(ctx, length):
    """What was written is what a console that checks the CRC stores, and reading gives it back"""
    n = int(length, 16)
    value = ctx.bytes('value', n)
    console, error = write(ctx, '0B', length, value, b'\x06')
    stored = console.sent[len('EEBWR 0B %s\n' % length):]
    console = net.Console(b'\x06' + stored)
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        c.connect()
        got = c.read_config_setting('0B', length)
    ctx.check(got == value, 'reading a setting gives back what was written')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for address, length in (('2B', '01'), ('0B', '02'), ('FF', '03'), ('00', '04'), ('12', '0A'), ('12', '10'), ('a1', '1'), ('0c', '2b'), ('13', 'FF'), ('00', '100')) + (
            (('14', '05'), ('15', '08'), ('16', '18'), ('17', '40')) if deep else ()):
        out.append(('framed-%s-%s' % (address, length), framed, {'address': address, 'length': length},
                    'any value of %d bytes, any reply byte' % int(length, 16), int(length, 16)))
        out.append(('silent-%s-%s' % (address, length), silent, {'address': address, 'length': length},
                    'any value of %d bytes, no reply' % int(length, 16)))
        out.append(('mismatch-%s' % (length if length != '1' else 'one'), mismatch, {'length': length}, 'values of another length'))
        if int(length, 16) <= (256 if deep else 10):
            out.append(('readable-%s' % (length if length != '1' else 'one'), readable, {'length': length},
                        'any value of %d bytes' % int(length, 16), int(length, 16)))
    return out
