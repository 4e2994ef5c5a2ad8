"""Dew point and wet bulb temperature."""
from weatherlink import utils

from vlib.spec import D

BOUNDS = ('temperatures from -60.0 to 140.0 F in tenths, humidity of 1 to 100 percent (and 0.1 to 100.0 as WLK files have '
          'it), pressures of 20 to 32.5 inHg; each case leaves one of them symbolic and lists values of the others')
ASSUMPTIONS = ['exp, ln and the power function of decimal.Decimal are right']

# roundings of intermediate results to thousandths of a degree, and of the result to a tenth
NEAR = D('0.056')


def celsius(t):
    return (t - 32) * D(5) / D(9)


def dew_point(t, rh):
    """August-Roche-Magnus with Boegel's modification"""
    tc = celsius(t)
    ym = (rh / D(100) * ((D('17.67') - tc / D('234.5')) * (tc / (D('243.5') + tc))).exp()).ln()
    return D('243.5') * ym / (D('17.67') - ym) * D('1.8') + 32


def wet_bulb(t, rh, p):
    tc = celsius(t)
    mb = p / D('0.0295299830714')
    dry = 1 - rh / D(100)
    low = (D('2.5') + D('0.007') * tc) * dry
    td = tc - (D('14.55') + D('0.114') * tc) * dry - low * low * low - (D('15.9') + D('0.117') * tc) * dry ** 14
    e = D('6.11') * D(10) ** (D('7.5') * td / (D('237.7') + td))
    g = D('0.00066') * mb
    s = 4098 * e / ((td + D('237.7')) * (td + D('237.7')))
    return (g * tc + s * td) / (g + s) * D('1.8') + 32


def near(ctx, got, want, label):
    ctx.check(got - want <= NEAR and want - got <= NEAR, label)
    ctx.check(got * 10 == (got * 10) // 1, 'in tenths of a degree')


def dew_by_temperature(ctx, values, digits):
    h = ctx.choice('humidity', list(values))
    rh = h if digits == 0 else D(h) * D('0.1')
    n = ctx.int('temperature', -600, 1400)
    t = D(n) * D('0.1')
    got = utils.calculate_dew_point(t, rh)
    ctx.observe('dew point', got)
    near(ctx, got, dew_point(t, D(rh)), 'the dew point to a tenth of a degree')
    ctx.check(got <= t, 'never above the temperature')


def dew_by_humidity(ctx, temperatures, digits):
    t = D(ctx.choice('temperature', list(temperatures)))
    h = ctx.int('humidity', 1, 100 * 10 ** digits - 1)
    rh = h if digits == 0 else D(h) * D('0.1')
    step = 1 if digits == 0 else D('0.1')
    got = utils.calculate_dew_point(t, rh)
    ctx.observe('dew point', got)
    near(ctx, got, dew_point(t, D(rh)), 'the dew point to a tenth of a degree')
    ctx.check(got <= t, 'never above the temperature')
    ctx.check(utils.calculate_dew_point(t, rh + step) >= got, 'more humidity never lowers it')


def whole_degrees(ctx, values):
    rh, p = ctx.choice('others', list(values))
    t = ctx.int('temperature', -60, 140)
    near(ctx, utils.calculate_dew_point(t, rh), dew_point(D(t), D(rh)), 'the dew point to a tenth of a degree')
    near(ctx, utils.calculate_wet_bulb_temperature(t, rh, D(p)), wet_bulb(D(t), D(rh), D(p)),
         'the wet bulb temperature to a tenth of a degree')


def wet_by_temperature(ctx, others):
    rh, p = ctx.choice('others', list(others))
    n = ctx.int('temperature', -600, 1400)
    t = D(n) * D('0.1')
    got = utils.calculate_wet_bulb_temperature(t, D(rh), D(p))
    ctx.observe('wet bulb', got)
    near(ctx, got, wet_bulb(t, D(rh), D(p)), 'the wet bulb temperature to a tenth of a degree')


def wet_by_humidity(ctx, others, digits):
    t, p = ctx.choice('others', list(others))
    h = ctx.int('humidity', 1, 100 * 10 ** digits)
    rh = h if digits == 0 else D(h) * D('0.1')
    got = utils.calculate_wet_bulb_temperature(D(t), rh, D(p))
    ctx.observe('wet bulb', got)
    near(ctx, got, wet_bulb(D(t), D(rh), D(p)), 'the wet bulb temperature to a tenth of a degree')


def wet_by_pressure(ctx, others):
    t, rh = ctx.choice('others', list(others))
    n = ctx.int('pressure', 20000, 25999)
    half = ctx.choice('half', [0, 1])
    p = D(n + 6000 * half) * D('0.001')
    got = utils.calculate_wet_bulb_temperature(D(t), rh, p)
    ctx.observe('wet bulb', got)
    near(ctx, got, wet_bulb(D(t), D(rh), p), 'the wet bulb temperature to a tenth of a degree')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    hs = list(range(1, 101)) if deep else [1, 2, 5, 12, 13, 25, 40, 50, 63, 77, 86, 99, 100]
    for i in range(0, len(hs), 7):
        part = hs[i:i + 7]
        out.append(('dew-temperature-%d' % part[0], dew_by_temperature, {'values': part, 'digits': 0},
                    'any temperature; humidity %s' % part))
    hs = list(range(1, 1001, 13)) if deep else [1, 9, 505, 999, 1000]
    for i in range(0, len(hs), 7):
        part = hs[i:i + 7]
        out.append(('dew-temperature-tenths-%d' % part[0], dew_by_temperature, {'values': part, 'digits': 1},
                    'any temperature; humidity (in tenths) %s' % part))
    ts = [str(t) for t in range(-60, 141, 4)] if deep else ['-60', '-40', '0', '31.9', '32', '55.5', '72.4', '100', '140']
    for i in range(0, len(ts), 9):
        for digits in (0, 1):
            out.append(('dew-humidity-%d-%d' % (digits, i), dew_by_humidity,
                        {'temperatures': ts[i:i + 9], 'digits': digits}, 'any humidity; temperature %s' % ts[i:i + 9]))
    out.append(('whole', whole_degrees, {'values': [(1, '29.92'), (50, '30.512'), (100, '27.001')]},
                'int temperatures'))
    os = [(rh, p) for rh in (['1', '4', '25', '50.5', '86', '99', '100'] if not deep else list(range(1, 101, 3)))
          for p in (['29.921'] if not deep else ['20', '27.5', '29.921', '32.5'])]
    os += [('37', '20'), ('62', '32.5')]
    for i in range(0, len(os), 5):
        out.append(('wet-temperature-%d' % i, wet_by_temperature, {'others': os[i:i + 5]},
                    'any temperature; humidity and pressure %s' % os[i:i + 5]))
    os = [(t, '29.921') for t in ts] + [('72.4', '20'), ('20', '32.5')]
    for i in range(0, len(os), 6):
        for digits in (0, 1):
            out.append(('wet-humidity-%d-%d' % (digits, i), wet_by_humidity, {'others': os[i:i + 6], 'digits': digits},
                        'any humidity; temperature and pressure %s' % os[i:i + 6]))
    out.append(('wet-pressure', wet_by_pressure, {'others': [('72.4', 50), ('-20', 80), ('110', 4)]},
                'any pressure from 20 to 32 inHg'))
    return out
