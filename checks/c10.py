"""Temperature conversions."""
from weatherlink import utils

from vlib.spec import D

BOUNDS = 'temperatures of -500 to 500 degrees (or 0 to 1000 K), as int or as Decimal of one to three decimal places'
ASSUMPTIONS = []

# name: (function, f(x) as (factor numerator, denominator, offset before in thousandths, offset after in thousandths))
FUNCTIONS = {
    'fahrenheit-celsius': (utils.convert_fahrenheit_to_celsius, 5, 9, -32000, 0, -500000, 500000),
    'celsius-fahrenheit': (utils.convert_celsius_to_fahrenheit, 9, 5, 0, 32000, -500000, 500000),
    'fahrenheit-kelvin': (utils.convert_fahrenheit_to_kelvin, 5, 9, 459670, 0, -500000, 500000),
    'kelvin-fahrenheit': (utils.convert_kelvin_to_fahrenheit, 9, 5, 0, -459670, 0, 1000000),
}


def a_number(ctx, digits, lo, hi):
    """(the value, the value in thousandths)"""
    step = 10 ** (3 - digits)
    n = ctx.int('n', lo // step, hi // step)
    if digits == 0:
        return n, n * 1000
    return D(n) * D(10) ** -digits, n * step


def convert(ctx, name, digits):
    f, num, den, before, after, lo, hi = FUNCTIONS[name]
    value, thousandths = a_number(ctx, digits, lo, hi)
    got = f(value)
    ctx.observe('result', got)
    exact = (thousandths + before) * num + after * den      # thousandths, times den
    gap = got * 1000 * den - exact
    # rounded to three decimal places; 1e-9 for the 28-digit constant 5/9
    ctx.check(2 * gap <= den + D('1e-9') and -2 * gap <= den + D('1e-9'), 'correct to half a thousandth')
    ctx.check((got * 1000) % 1 == 0, 'has three decimal places')


def round_trip(ctx, there, back, digits):
    f, _, _, _, _, lo, hi = FUNCTIONS[there]
    value, thousandths = a_number(ctx, digits, lo, hi)
    again = FUNCTIONS[back][0](f(value))
    gap = again * 1000 - thousandths
    ctx.check(gap <= 2 and gap >= -2, 'converting back gives the temperature within 0.002 degrees')
    ctx.observe('again', again)


def order(ctx, name):
    f, _, _, _, _, lo, hi = FUNCTIONS[name]
    a = ctx.int('a', lo // 100, hi // 100)
    b = ctx.int('b', lo // 100, hi // 100)
    ctx.assume(a < b)
    ctx.check(f(D(a) * D('0.1')) < f(D(b) * D('0.1')), 'a warmer temperature stays warmer')


def cases(tier):
    out = []
    for name in sorted(FUNCTIONS):
        for digits in (0, 1, 2, 3):
            out.append(('%s-%d' % (name, digits), convert, {'name': name, 'digits': digits}, BOUNDS))
        out.append(('%s-order' % name, order, {'name': name}, 'two temperatures in tenths'))
    for a, b in (('fahrenheit-celsius', 'celsius-fahrenheit'), ('celsius-fahrenheit', 'fahrenheit-celsius'),
                 ('fahrenheit-kelvin', 'kelvin-fahrenheit'), ('kelvin-fahrenheit', 'fahrenheit-kelvin')):
        for digits in (0, 1):
            out.append(('%s-back-%d' % (a, digits), round_trip, {'there': a, 'back': b, 'digits': digits}, BOUNDS))
    return out
