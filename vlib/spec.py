"""Independent statements of the data formats, shared by the harnesses."""
import decimal

D = decimal.Decimal

SECTORS = ('N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW')


def u8(b, o):
    return b[o]


def s8(b, o):
    v = b[o]
    return v - 256 if v >= 128 else v


def u16(b, o):
    return b[o] + 256 * b[o + 1]


def s16(b, o):
    v = b[o] + 256 * b[o + 1]
    return v - 65536 if v >= 32768 else v


def s32(b, o):
    v = b[o] + 256 * b[o + 1] + 65536 * b[o + 2] + 16777216 * b[o + 3]
    return v - 4294967296 if v >= 2147483648 else v


RAW = {'B': u8, 'b': s8, 'H': u16, 'h': s16}


def le16(v):
    """two bytes, little endian, of a signed or unsigned 16-bit number"""
    v = v % 65536
    return bytes(bytearray([v % 256, v // 256]))


def le32(v):
    v = v % 4294967296
    return bytes(bytearray([v % 256, (v // 256) % 256, (v // 65536) % 256, v // 16777216]))


def same(got, want):
    """equal, where None equals only None"""
    if want is None:
        return got is None
    if got is None:
        return False
    return got == want


def decimals(n, digits):
    """the Decimal n / 10**digits"""
    return D(n).scaleb(-digits) if digits else D(n)


def check_fields(ctx, record, data, table):
    """table: (name, offset, code, digits, marker of a missing value)"""
    for name, offset, code, digits, dash in table:
        raw = RAW[code](data, offset)
        got = record[name]
        if dash is not None and raw == dash:
            ctx.check(got is None, name + ' is None if the station sent the marker of a missing value')
        else:
            want = raw if digits == 0 else D(raw) * D(10) ** -digits
            ctx.check(got is not None and got == want, name + ' is the number sent, scaled')


def check_direction(ctx, record, data, name, offset):
    code = data[offset]
    got = record[name]
    degrees = record[name + '_degrees']
    if code == 255:
        ctx.check(got is None and degrees is None, name + ' is None for code 255')
    else:
        ctx.check(got is not None and got.value == code, name + ' is the sector sent')
        ctx.check(degrees is not None and degrees * 2 == (code * 45 if code > 0 else 720), name + ' in degrees')
