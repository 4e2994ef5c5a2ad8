"""Degree days."""
from weatherlink import utils

from vlib.spec import D

BOUNDS = 'daily averages of -500 to 500 degrees, as int or as Decimal of one to ten decimal places'
ASSUMPTIONS = []


def days(ctx, digits):
    n = ctx.int('n', -500 * 10 ** digits, 500 * 10 ** digits)
    value = n if digits == 0 else D(n) * D(10) ** -digits
    base = 65 * 10 ** digits
    cooling = utils.calculate_cooling_degree_days(value)
    heating = utils.calculate_heating_degree_days(value)
    ctx.observe('days', (cooling, heating))
    if n > base:
        ctx.check(cooling is not None and cooling * 10 ** digits == n - base, 'cooling degrees above 65')
        ctx.check(heating is None, 'no heating above 65')
    elif n < base:
        ctx.check(heating is not None and heating * 10 ** digits == base - n, 'heating degrees below 65')
        ctx.check(cooling is None, 'no cooling below 65')
    else:
        ctx.check(cooling is None and heating is None, 'neither at 65')


def cases(tier):
    return [('digits-%d' % d, days, {'digits': d}, '-500 to 500 degrees, %d decimal places' % d)
            for d in ((0, 1, 2, 3, 10) if tier == 'quick' else range(0, 16))]
