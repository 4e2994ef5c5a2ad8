"""Reading configuration settings from the console."""
from weatherlink import poller, serial

from checks import c02
from vlib import net

BOUNDS = ('any bytes of settings of 1 to 5, 10, 16 and 32 bytes (deep: up to 255; without the CRC check up to 374), any point at which the connection ends, '
          'any reply byte; connections that end are closed by the console')
ASSUMPTIONS = ['a CRC-16 is right by the definition of C02']


def exchange(ctx, length, sent, ack, **kwargs):
    """(console, result, error) of reading a setting of `length` bytes; the console sends `sent` after the reply byte"""
    console = net.Console(ack + sent)
    got = error = None
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        c.connect()
        try:
            got = c.read_config_setting('2B', '%02X' % length, **kwargs)
        except IOError as e:
            error = e
    return console, got, error


def released(ctx, console):
    ctx.check(len([h for h in console.handles if not h.closed]) == 0, 'the read handle is closed')


def intact(ctx, length, return_crc):
    """The whole setting and any two bytes after it arrive"""
    data = ctx.bytes('data', length)
    crc = ctx.bytes('crc', 2)
    console, got, error = exchange(ctx, length, data + crc, b'\x06', return_crc=return_crc)
    good = crc[0] * 256 + crc[1] == c02.bit_crc(data)
    if good:
        ctx.cover('good')
        ctx.check(error is None and got is not None, 'a setting with the right CRC is returned')
    else:
        ctx.cover('bad')
        ctx.check(isinstance(error, serial.CRCValidationError), 'a setting with another CRC raises the CRC error')
    if got is not None:
        ctx.check(got == (data + crc if return_crc else data), 'exactly the bytes sent, with the CRC only on request')
    ctx.check(console.sent == ('EEBRD 2B %02X\n' % length).encode('ascii'), 'the read instruction for the address and length')
    released(ctx, console)
    ctx.observe('setting', got)


def unchecked(ctx, length, return_crc):
    data = ctx.bytes('data', length)
    crc = ctx.bytes('crc', 2)
    console, got, error = exchange(ctx, length, data + crc, b'\x06', confirm_crc=False, return_crc=return_crc)
    ctx.check(error is None, 'no error if the caller switches the CRC check off')
    ctx.check(got == (data + crc if return_crc else data), 'exactly the bytes sent, with the CRC only on request')
    released(ctx, console)


def cut(ctx, length, confirm):
    """The connection ends before the setting and its CRC are complete"""
    n = ctx.choice('arrived', list(range(length + 2)))
    data = ctx.bytes('data', length + 2)
    console, got, error = exchange(ctx, length, data[:n], b'\x06', confirm_crc=confirm)
    ctx.check(error is not None and got is None, 'a setting that did not arrive completely raises an I/O error')
    released(ctx, console)


def corrupted(ctx, length):
    """A setting with the right CRC, altered in one or two places of up to 16 bits"""
    data = ctx.bytes('data', length)
    word = c02.bit_crc(data)
    framed = data + bytes(bytearray([word // 256, word % 256]))
    at = ctx.choice('at', list(range(length + 1)))
    flip = ctx.int('flip', 1, 65535)
    old = framed[at] * 256 + framed[at + 1]
    new = old ^ flip
    altered = framed[:at] + bytes(bytearray([new // 256, new % 256])) + framed[at + 2:]
    console, got, error = exchange(ctx, length, altered, b'\x06')
    ctx.check(isinstance(error, serial.CRCValidationError) and got is None, 'an altered setting is not returned')


def acknowledged(ctx):
    data = ctx.bytes('data', 3)
    ack = ctx.int('ack', 0, 255)
    console, got, error = exchange(ctx, 1, data, bytes(bytearray([ack])))
    if ack != 6:
        ctx.check(isinstance(error, serial.AcknowledgmentError) and got is None, 'no setting without an ACK')
        ctx.check(console.pos == 1, 'nothing is read without an ACK')


def addressed(ctx, index):
    setting, length = (('00', '01'), ('2B', '01'), ('0B', '0A'), ('FF', '10'), ('12', '2b'), ('A1', '1'), ('0B', 'fF'), ('00', '100'), ('00', '0176'))[index]
    n = int(length, 16)
    data = ctx.bytes('data', n + 2)
    console = net.Console(b'\x06' + data + b'\x06\x06')
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1', 12345)
        c.connect()
        got = c.read_config_setting(setting, length, False, True)
    ctx.check(console.sent == ('EEBRD %s %s\n' % (setting, length)).encode('ascii'), 'the instruction for the address and length')
    ctx.check(got == data, 'as many bytes as the hexadecimal length says, and the CRC')
    ctx.check([e[1] for e in console.log if e[0] == 'connect'] == [('127.0.0.1', 12345)], 'of the console at its host and port')


def bit(ctx, function):
    value = ctx.int('setup', 0, 255)
    crc = ctx.bytes('crc', 2)
    mask = 0x30 if function == 'rain' else ctx.int('mask', 0, 255)
    console = net.Console(b'\x06' + bytes(bytearray([value])) + crc)
    got = error = None
    with net.Installed(console):
        c = poller.IPPoller('127.0.0.1')
        c.connect()
        try:
            got = c.read_rain_collector_type() if function == 'rain' else c.read_setup_bit(mask)
        except IOError as e:
            error = e
    if crc[0] * 256 + crc[1] == c02.bit_crc(bytes(bytearray([value]))):
        ctx.check(error is None, 'no error')
        ctx.check(got == (value & mask), 'the bits of the mask, of the setup byte')
        ctx.cover('good')
    else:
        ctx.check(isinstance(error, serial.CRCValidationError), 'an altered setup byte raises the CRC error')
        ctx.cover('bad')
    ctx.check(console.sent == b'EEBRD 2B 01\n', 'the setup byte is asked for')
    ctx.observe('bits', got)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for length in (1, 2, 3, 5, 10, 16, 32) + ((4, 7, 20, 43, 64, 128, 255) if deep else ()):
        for return_crc in (False, True):
            out.append(('intact-%d-%s' % (length, return_crc), intact, {'length': length, 'return_crc': return_crc},
                        'any setting of %d bytes and any CRC' % length, length))
            out.append(('unchecked-%d-%s' % (length, return_crc), unchecked, {'length': length, 'return_crc': return_crc},
                        'any setting of %d bytes, no CRC check' % length))
        for confirm in (True, False):
            out.append(('cut-%d-%s' % (length, confirm), cut, {'length': length, 'confirm': confirm},
                        'the connection ends after any number of up to %d bytes' % (length + 1), length))
    for length in (1, 2, 4) + ((8, 16) if deep else ()):
        out.append(('corrupted-%d' % length, corrupted, {'length': length}, 'any alteration within 16 bits of any setting of %d bytes' % length, 2 * length))
    out.append(('acknowledged', acknowledged, {}, 'any reply byte'))
    for i in range(9):
        out.append(('addressed-%d' % i, addressed, {'index': i}, 'listed addresses and lengths, any bytes'))
    for function in ('rain', 'mask'):
        out.append(('bit-' + function, bit, {'function': function}, 'any setup byte, CRC and mask'))
    return out
