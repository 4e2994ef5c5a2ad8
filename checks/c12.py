"""Heat index: the algorithm of the National Weather Service."""
from weatherlink import utils

from vlib.spec import D

BOUNDS = 'temperatures from -60.0 to 140.0 F in tenths (any whole degree as int); humidity of 0 to 100 percent'
ASSUMPTIONS = ['decimal.Decimal.sqrt is right']

SLACK = D('1e-20')
C = [D(x) for x in ('-42.379', '2.04901523', '10.14333127', '-0.22475541', '-0.00683783', '-0.05481717', '0.00122874',
                    '0.00085282', '-0.00000199')]


def simple(t, rh):
    """in degrees, averaged with the temperature: (0.5 * {T + 61.0 + [(T-68.0)*1.2] + (RH*0.094)} + T) / 2"""
    return (D('0.5') * (t + D('61.0') + (t - D('68.0')) * D('1.2') + rh * D('0.094')) + t) * D('0.5')


def full(t, rh):
    v = (C[0] + C[1] * t + C[2] * rh + C[3] * t * rh + C[4] * t * t + C[5] * rh * rh + C[6] * t * t * rh +
         C[7] * t * rh * rh + C[8] * t * t * rh * rh)
    if rh < 13 and t >= 80 and t <= 112:
        v -= (13 - rh) * D('0.25') * ((17 - abs(t - 95)) / D(17)).sqrt()
    if rh > 85 and t >= 80 and t <= 87:
        v += (rh - 85) * D('0.1') * ((87 - t) * D('0.2'))
    return v


def humid(ctx, values, digits, kind):
    rh = ctx.choice('humidity', list(values))
    rh = rh if digits == 0 else D(rh) * D(10) ** -digits
    n = ctx.int('temperature', -600, 1400) if kind == 'tenths' else ctx.int('temperature', -60, 140)
    t = D(n) * D('0.1') if kind == 'tenths' else n
    exact = D(n) * D('0.1') if kind == 'tenths' else D(n)
    check(ctx, t, exact, rh)


def check(ctx, t, exact, rh):
    got = utils.calculate_heat_index(t, rh)
    if exact < 70:
        ctx.check(got is None, 'no heat index below 70 degrees')
        return
    ctx.check(got is not None, 'a heat index from 70 degrees on')
    if got is None:
        return
    ctx.observe('heat index', got)
    want = simple(exact, D(rh))
    if want < 80:
        ctx.check(got - want >= 0 and got - want < D('0.1'), 'the simple formula, rounded up, below 80 degrees')
    else:
        want = full(exact, D(rh))
        gap = got - want
        ctx.check(gap >= -SLACK and gap < D('0.1') + SLACK, 'the full formula with its adjustments, rounded up')
    tenths = got * 10
    ctx.check(tenths == tenths // 1, 'in tenths of a degree')


def cases(tier):
    out = []
    for a in list(range(0, 13)) + list(range(13, 101, 11)):
        values = [a] if a < 13 else list(range(a, min(a + 11, 101)))
        out.append(('humidity-%d' % a, humid, {'values': values, 'digits': 0, 'kind': 'tenths'},
                    'humidity of %d to %d percent, any temperature in tenths' % (a, values[-1]), 60 if a < 13 else 5))
    out.append(('whole-degrees', humid, {'values': [0, 12, 13, 40, 85, 86, 100], 'digits': 0, 'kind': 'int'},
                'temperatures given as int'))
    if tier == 'thorough':
        # The table of square roots takes long: only below 13 percent
        groups = [[v] for v in range(0, 130, 5)] + [list(range(a, min(a + 40, 1001))) for a in range(130, 1001, 40)]
    else:
        groups = [[5], [125], [129], [130, 131, 305, 849, 850, 851, 855, 999]]
    for values in groups:
        a = values[0]
        out.append(('humidity-tenths-%d' % a, humid, {'values': values, 'digits': 1, 'kind': 'tenths'},
                    'humidity of %s to %s percent (as WLK files have it)' % (values[0] / 10.0, values[-1] / 10.0), 60 if a < 130 else 5))
    return out
