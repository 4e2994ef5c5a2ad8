"""Rain collectors: clicks to inches and centimeters."""
from weatherlink import models

from vlib.spec import D

BOUNDS = '0 to 1,000,000 clicks of each of the eight collector types'
ASSUMPTIONS = []

# collector: thousandths of its own unit per click, unit
SERIAL = {0x00: (10, 'in'), 0x10: (200, 'mm'), 0x20: (100, 'mm')}
DATABASE = {0x0000: (100, 'in'), 0x1000: (10, 'in'), 0x2000: (200, 'mm'), 0x3000: (1000, 'mm'), 0x6000: (100, 'mm')}
INCHES_PER_CM = D('0.393701')


def convert(ctx, family, code, kind):
    if family == 'serial':
        collector, (thousandths, unit) = models.RainCollectorTypeSerial(code), SERIAL[code]
    else:
        collector, (thousandths, unit) = models.RainCollectorTypeDatabase(code), DATABASE[code]
    n = ctx.int('clicks', 0, 1000000)
    clicks = n if kind == 'int' else D(n)
    inches = collector.clicks_to_inches(clicks)
    cm = collector.clicks_to_centimeters(clicks)
    ctx.observe('amounts', (inches, cm))
    if unit == 'in':
        ctx.check(inches * 1000 == n * thousandths, 'inches are exact for a collector measuring inches')
        # cm * 0.393701 is the number of inches, but for the rounding of a division to 28 digits
        gap = cm * INCHES_PER_CM * 1000 - n * thousandths
        ctx.check(gap <= D('1e-15') and gap >= D('-1e-15'), 'centimeters of a collector measuring inches')
    else:
        ctx.check(cm * 10000 == n * thousandths, 'centimeters are exact for a collector measuring millimeters')
        ctx.check(inches * 10000 == n * thousandths * INCHES_PER_CM, 'inches of a collector measuring millimeters')


def cases(tier):
    out = []
    for family, table in (('serial', SERIAL), ('database', DATABASE)):
        for code in sorted(table):
            for kind in ('int', 'Decimal'):
                out.append(('%s-0x%x-%s' % (family, code, kind), convert, {'family': family, 'code': code, 'kind': kind},
                            '0 to 1,000,000 clicks'))
    return out
