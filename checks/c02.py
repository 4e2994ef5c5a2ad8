"""The CRC of the WeatherLink protocol: CRC-CCITT, polynomial 0x1021, initial value 0."""
from weatherlink import models

BOUNDS = 'messages of up to 300 bytes (LOOP packets have 99, archive pages 267); text form up to 24 characters'
ASSUMPTIONS = []


def bit_crc(data):
    crc = 0
    for byte in data:
        crc = crc ^ (byte << 8)
        for _ in range(8):
            top = (crc >> 15) & 1
            crc = ((crc << 1) & 0xFFFF) ^ top ^ (top << 5) ^ (top << 12)
    return crc


def matches(ctx, n):
    data = ctx.bytes('data', n)
    crc = models.calculate_weatherlink_crc(data)
    ctx.observe('crc', crc)
    ctx.check(crc == bit_crc(data), 'equals the bit-by-bit CRC-CCITT')
    ctx.check(crc >= 0 and crc <= 0xFFFF, 'fits 16 bits')


def self_check(ctx, n):
    data = ctx.bytes('data', n)
    crc = models.calculate_weatherlink_crc(data)
    framed = data + bytes(bytearray([crc >> 8, crc & 0xFF]))
    ctx.check(models.calculate_weatherlink_crc(framed) == 0, 'a message followed by its CRC has the CRC 0')


def text(ctx, n):
    data = ctx.bytes('data', n)
    t = ''.join([chr(b) for b in data])
    crc = models.calculate_weatherlink_crc(t)
    ctx.observe('crc', crc)
    ctx.check(crc == models.calculate_weatherlink_crc(data), 'text and bytes have the same CRC')


def burst(ctx, n):
    data = ctx.bytes('data', n)
    at = ctx.choice('at', list(range(n)))
    flip = ctx.int('flip', 1, 255)
    bad = data[:at] + bytes(bytearray([data[at] ^ flip])) + data[at + 1:]
    ctx.check(models.calculate_weatherlink_crc(data) != models.calculate_weatherlink_crc(bad),
              'a changed byte changes the CRC')


def cases(tier):
    sizes = [0, 1, 2, 3, 4, 8, 16, 52, 97, 98, 99, 100, 176, 267, 300]
    if tier == 'thorough':
        sizes = list(range(0, 129)) + [176, 256, 257, 265, 267, 300, 512]
    out = [('matches-%d' % n, matches, {'n': n}, '%d bytes' % n, n) for n in sizes]
    out += [('self-check-%d' % n, self_check, {'n': n}, '%d bytes' % n, n) for n in (sizes if tier == 'thorough' else [0, 1, 2, 4, 6, 97, 265])]
    out += [('text-%d' % n, text, {'n': n}, '%d characters' % n, n) for n in ([0, 1, 2, 4, 8, 24] if tier == 'quick' else list(range(0, 49)))]
    out += [('burst-%d' % n, burst, {'n': n}, '%d bytes, any one changed' % n, n) for n in ([4, 8] if tier == 'quick' else [1, 2, 4, 8, 16, 32, 64, 99])]
    return out
