"""Conversions of pressures and speeds."""
from weatherlink import utils

from vlib.spec import D

BOUNDS = 'pressures of 0 to 100 inHg, speeds of 0 to 1000 mph, as int or as Decimal of one to three decimal places'
ASSUMPTIONS = ['1 inHg is 3.38637 to 3.38641 kPa (3.386389 by NIST SP 811)']

# (function, exact factor bounds, decimal places of the result)
FUNCTIONS = {
    # 1 inHg = 3.386389 kPa (at 0 degrees C, NIST SP 811)
    'kilopascals': (utils.convert_inches_of_mercury_to_kilopascals, '3.38637', '3.38641', 2, 100),
    'millibars': (utils.convert_inches_of_mercury_to_millibars, '33.8637', '33.8641', 2, 100),
    # 1 mph = 0.44704 m/s exactly
    'meters-per-second': (utils.convert_miles_per_hour_to_meters_per_second, '0.44704', '0.44704', 5, 1000),
}


def convert(ctx, name, digits):
    f, low, high, places, top = FUNCTIONS[name]
    n = ctx.int('n', 0, top * 10 ** digits)
    value = n if digits == 0 else D(n) * D(10) ** -digits
    got = f(value)
    ctx.observe('result', got)
    half = D(5) * D(10) ** -(places + 1) + D('1e-20')
    ctx.check(got >= value * D(low) - half, 'not below the value converted')
    ctx.check(got <= value * D(high) + half, 'not above the value converted')
    ctx.check((got * 10 ** places) % 1 == 0, 'has %d decimal places' % places)


def order(ctx, name):
    f, _, _, _, top = FUNCTIONS[name]
    a = ctx.int('a', 0, top * 10)
    b = ctx.int('b', 0, top * 10)
    ctx.assume(a < b)
    ctx.check(f(D(a) * D('0.1')) < f(D(b) * D('0.1')), 'a higher value stays higher')


def same_scale(ctx):
    n = ctx.int('n', 0, 100000)
    value = D(n) * D('0.001')
    kpa = utils.convert_inches_of_mercury_to_kilopascals(value)
    mb = utils.convert_inches_of_mercury_to_millibars(value)
    gap = kpa * 10 - mb
    ctx.check(gap <= D('0.06') and gap >= D('-0.06'), 'a kilopascal is ten millibars')
    ctx.observe('both', (kpa, mb))


def cases(tier):
    out = []
    for name in sorted(FUNCTIONS):
        for digits in (0, 1, 2, 3):
            out.append(('%s-%d' % (name, digits), convert, {'name': name, 'digits': digits}, BOUNDS))
        out.append(('%s-order' % name, order, {'name': name}, 'two values in tenths'))
    out.append(('same-scale', same_scale, {}, '0 to 100 inHg in thousandths'))
    return out
