"""Wind chill: the formula of the National Weather Service."""
from weatherlink import utils

from vlib.spec import D

BOUNDS = 'temperatures from -90.0 to 140.0 F in tenths, wind speeds from 0 to 254 mph (and tenths as WLK files have them)'
ASSUMPTIONS = ['the power function of decimal.Decimal is right']

SLACK = D('1e-20')


def chill(ctx, speeds, digits, kind):
    w = ctx.choice('speed', list(speeds))
    ws = w if digits is None else D(w) * D(10) ** -digits
    n = ctx.int('temperature', -900, 1400) if kind == 'tenths' else ctx.int('temperature', -90, 140)
    t = D(n) * D('0.1') if kind == 'tenths' else n
    exact = D(n) * D('0.1') if kind == 'tenths' else D(n)
    got = utils.calculate_wind_chill(t, ws)
    if exact > 40:
        ctx.check(got is None, 'no wind chill above 40 degrees')
        return
    ctx.check(got is not None, 'a wind chill up to 40 degrees')
    if got is None:
        return
    ctx.observe('wind chill', got)
    ctx.check(got <= exact, 'never above the temperature')
    if w == 0:
        ctx.check(got == exact, 'the temperature if there is no wind')
        return
    v = D(ws) ** D('0.16')
    want = D('35.74') + D('0.6215') * exact - D('35.75') * v + D('0.4275') * exact * v
    gap = want - got
    if want >= exact + SLACK:
        ctx.check(got == exact, 'the temperature if the formula gives more')
    elif want < exact:
        ctx.check(gap >= -SLACK and gap < D('0.1') + SLACK, 'the formula, rounded down to a tenth')
        ctx.check(got * 10 == (got * 10) // 1, 'in tenths of a degree')


def faster(ctx, speeds):
    """more wind never warms"""
    i = ctx.choice('speed', list(range(len(speeds) - 1)))
    n = ctx.int('temperature', -900, 400)
    t = D(n) * D('0.1')
    a = utils.calculate_wind_chill(t, speeds[i])
    b = utils.calculate_wind_chill(t, speeds[i + 1])
    # beyond 83.6 F the formula is meaningless, below 40 F it falls with the speed
    ctx.check(b <= a, 'more wind is never warmer')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for a in range(0, 255, 32):
        speeds = [s for s in range(a, min(255, a + 32)) if deep or s < 48 or s % 16 == 0 or s == 254]
        out.append(('speed-%d' % a, chill, {'speeds': speeds, 'digits': 0, 'kind': 'tenths'},
                    '%d speeds from %d to %d mph' % (len(speeds), speeds[0], speeds[-1])))
    tenths = [v for v in (range(1, 1280) if deep else list(range(1, 31)) + list(range(35, 1280, 53)))]
    step = 80 if deep else 14
    for a in range(0, len(tenths), step):
        out.append(('speed-tenths-%d' % tenths[a], chill,
                    {'speeds': tenths[a:a + step], 'digits': 1, 'kind': 'tenths'},
                    '%d speeds in tenths from %s mph' % (len(tenths[a:a + step]), tenths[a] / 10.0)))
    out.append(('whole', chill, {'speeds': [0, 1, 2, 3, 5, 17, 60, 254], 'digits': None, 'kind': 'int'},
                'int temperatures and speeds'))
    out.append(('faster', faster, {'speeds': [0, 1, 2, 3, 4, 5, 10, 20, 60, 120, 254] if not deep else
                                   list(range(0, 255))}, 'pairs of neighbouring speeds'))
    return out
