"""THW and THSW index."""
from weatherlink import utils

from vlib.spec import D

BOUNDS = ('temperatures from -60.0 to 140.0 F in tenths, humidity of 0 to 100 percent, wind speeds of 0 to 254 mph, solar '
          'radiation of 0 to 1800 W/m2; each case leaves one or two of them symbolic and lists values of the others')
ASSUMPTIONS = ['the exponential function of decimal.Decimal is right',
               'the heat index is that of C12']

# the rounding to thousandths of a degree of intermediate results, and to a tenth of the result
NEAR = D('0.06')


def thw(ctx, rhs, kind):
    """any temperature and wind speed"""
    rh = ctx.choice('humidity', list(rhs))
    n = ctx.int('temperature', -600, 1400)
    t = D(n) * D('0.1')
    w = ctx.int('speed', 0, 254)
    if kind == 'none':
        w, ws = 0, None
    elif kind == 'tenths':
        ws = D(w) * D('0.1')
    else:
        ws = w if kind == 'int' else D(w)
    got = utils.calculate_thw_index(t, rh, ws)
    if n < 700:
        ctx.check(got is None, 'no THW index below 70 degrees')
        return
    ctx.check(got is not None, 'a THW index from 70 degrees on')
    if got is None:
        return
    ctx.observe('THW', got)
    hi = utils.calculate_heat_index(t, rh)
    less = hi - got
    exact = D('1.072') * (D(w) * D('0.1') if kind == 'tenths' else D(w))
    ctx.check(less >= exact and less < exact + D('0.1'), 'the heat index less 1.072 times the wind speed, rounded up')
    ctx.check(less * 10 == (less * 10) // 1, 'in tenths of a degree')


def apparent(t, rh, q, w):
    """The apparent temperature in degrees Fahrenheit"""
    tc = (t - 32) * D(5) / D(9)
    e = rh / D(100) * D('6.105') * (D('17.27') * tc / (D('237.7') + tc)).exp()
    v = w * D('0.44704')
    flux = q * D('0.25') / 7 + q / 28
    at = tc + D('0.348') * e - D('0.70') * v + D('0.70') * flux / (v + 10) - D('4.25')
    return at * D('1.8') + 32


def near(ctx, got, want):
    ctx.check(got - want <= NEAR and want - got <= NEAR, 'the apparent temperature to a tenth of a degree')
    ctx.check(got * 10 == (got * 10) // 1, 'in tenths of a degree')


def by_temperature(ctx, others):
    rh, q, w = ctx.choice('others', others)
    n = ctx.int('temperature', -600, 1400)
    t = D(n) * D('0.1')
    got = utils.calculate_thsw_index(t, rh, q, w)
    ctx.check(got is not None, 'a THSW index at every temperature')
    ctx.observe('THSW', got)
    near(ctx, got, apparent(t, D(rh), D(q), D(w)))


def by_wind(ctx, others):
    t, rh, q = ctx.choice('others', others)
    w = ctx.int('speed', 0, 253)
    got = utils.calculate_thsw_index(D(t), rh, q, w)
    ctx.observe('THSW', got)
    near(ctx, got, apparent(D(t), D(rh), D(q), D(w)))
    more = utils.calculate_thsw_index(D(t), rh, q, w + 1)
    ctx.check(more <= got, 'more wind never raises it')


def by_sun(ctx, others):
    t, rh, w = ctx.choice('others', others)
    q = ctx.int('radiation', 0, 1800)
    got = utils.calculate_thsw_index(D(t), rh, q, D(w))
    ctx.observe('THSW', got)
    near(ctx, got, apparent(D(t), D(rh), D(q), D(w)))
    ctx.check(utils.calculate_thsw_index(D(t), rh, q + 1, D(w)) >= got, 'more sun never lowers it')


def by_humidity(ctx, others, digits):
    t, q, w = ctx.choice('others', others)
    h = ctx.int('humidity', 0, 100 * 10 ** digits)
    rh = h if digits == 0 else D(h) * D('0.1')
    got = utils.calculate_thsw_index(D(t), rh, q, D(w))
    ctx.observe('THSW', got)
    near(ctx, got, apparent(D(t), D(rh), D(q), D(w)))
    ctx.check(utils.calculate_thsw_index(D(t), rh + 1, q, D(w)) >= got, 'more humidity never lowers it')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    rhs = [0, 5, 12, 13, 40, 86, 100] if not deep else list(range(0, 101))
    for kind in ('int', 'decimal', 'tenths', 'none'):
        step = 13 if deep else 3
        for i in range(0, len(rhs), step):
            if kind != 'int' and not deep and i:
                continue
            part = rhs[i:i + step]
            out.append(('thw-%s-%d' % (kind, i), thw, {'rhs': part, 'kind': kind},
                        'any temperature and wind speed (%s), humidity %s' % (kind, part)))
    others = [(50, 0, 0), (0, 800, 5), (100, 1800, 254), (37, 432, 17)]
    if deep:
        others += [(rh, q, w) for rh in (3, 20, 60, 99) for q in (1, 250, 999, 1500) for w in (1, 10, 60)]
    for i, o in enumerate(others):
        out.append(('thsw-temperature-%d' % i, by_temperature, {'others': [o]},
                    'any temperature; humidity, radiation, wind speed %r' % (o,), 5))
    others = [('72.4', 50, 800), ('-20', 100, 0), ('104.9', 15, 1200)]
    if deep:
        others += [(t, rh, q) for t in ('-40', '0', '32', '69.9', '85.5', '120') for rh in (5, 45, 95)
                   for q in (10, 400, 1700)]
    for i, o in enumerate(others):
        out.append(('thsw-wind-%d' % i, by_wind, {'others': [o]}, 'any wind speed; %r' % (o,)))
    others = [('-35.5', 0, 0), ('20', 100, 10), ('72.4', 45, 3), ('140', 15, 254)]
    if deep:
        others += [(str(t), rh, w) for t in range(-60, 141, 10) for rh in (5, 60, 95) for w in (0, 1, 7, 40)]
    for i in range(0, len(others), 4):
        part = others[i:i + 4]
        out.append(('thsw-sun-%d' % i, by_sun, {'others': part},
                    'any radiation; temperature, humidity and wind speed %r' % (part,)))
    others = [('-35.5', 0, 0), ('20', 1800, 10), ('72.4', 450, 3), ('140', 1200, 254)]
    if deep:
        others += [(str(t), q, w) for t in range(-60, 141, 10) for q in (0, 300, 1400) for w in (0, 1, 7, 40)]
    for i in range(0, len(others), 4):
        part = others[i:i + 4]
        for digits in (0, 1):
            out.append(('thsw-humidity-%d-%d' % (i, digits), by_humidity, {'others': part, 'digits': digits},
                        'any humidity; temperature, radiation and wind speed %r' % (part,)))
    return out
