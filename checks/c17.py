"""Derived values of a record."""
from weatherlink import utils

from vlib.spec import D

BOUNDS = ('every combination of present, missing and zero readings; one reading symbolic per case (temperatures of -60 to 140 '
          'F, wind speeds of 0 to 254 mph, humidity of 0 to 100 percent, radiation of 0 to 1800), the others listed')
ASSUMPTIONS = ['the formulas themselves are those of C12, C13, C14 and C32']

SLACK = D('1e-20')
DERIVED = ('wind_run_distance_total', 'temperature_wet_bulb', 'temperature_wet_bulb_low', 'temperature_wet_bulb_high',
           'dew_point_outside', 'dew_point_outside_low', 'dew_point_outside_high', 'heat_index_outside',
           'heat_index_outside_low', 'heat_index_outside_high', 'dew_point_inside', 'heat_index_inside', 'wind_chill',
           'wind_chill_low', 'wind_chill_high', 'thw_index', 'thw_index_low', 'thw_index_high', 'thsw_index',
           'thsw_index_low', 'thsw_index_high')


def least(values):
    out = values[0]
    for v in values[1:]:
        out = v if v < out else out
    return out


def most(values):
    out = values[0]
    for v in values[1:]:
        out = v if v > out else out
    return out


def check_group(ctx, got, name, current, values):
    """current: the value of the current readings, None if there is none; values: those of all readings"""
    values = [v for v in values if v is not None]
    keys = (name, name + '_low', name + '_high')
    if not values:
        ctx.check(all(got.get(k) is None for k in keys), name + ' is absent without its readings')
        return
    ctx.check(all(got.get(k) is not None for k in keys), name + ' is there if its readings are')
    if any(got.get(k) is None for k in keys):
        return
    if current is not None:
        ctx.check(got[name] == current, name + ' is that of the current readings')
    ctx.check(got[keys[1]] == least(values), name + '_low is the lowest of the readings')
    ctx.check(got[keys[2]] == most(values), name + '_high is the highest of the readings')
    ctx.check(got[keys[1]] <= got[name], name + '_low is not above')
    ctx.check(got[keys[2]] >= got[name], name + '_high is not below')


def verify(ctx, r):
    record = dict((k, v) for k, v in r.items() if v != 'absent')
    got = utils.calculate_all_record_values(dict(record))
    ctx.observe('derived', got)
    ctx.check(all(k in DERIVED for k in got), 'nothing else is derived')
    # without values: in one of them two inputs may meet
    now, low, high = record.get('temperature_outside'), record.get('temperature_outside_low'), record.get('temperature_outside_high')
    temperatures = [t for t in (now, low, high) if t is not None]
    h, p = record.get('humidity_outside'), record.get('barometric_pressure')
    ws, wsh = record.get('wind_speed'), record.get('wind_speed_high')
    q, qh = record.get('solar_radiation'), record.get('solar_radiation_high')
    # wind run
    run = got.get('wind_run_distance_total')
    if ws:
        ctx.check(run is not None, 'the wind run is there if it is windy')
        if run is not None:
            gap = run * 60 - D(ws) * record['minutes_covered']
            ctx.check(gap < SLACK and gap > -SLACK, 'the wind run is the speed times the minutes covered')
    else:
        ctx.check(run is None, 'no wind run without wind')
    # wet bulb
    for suffix, t in (('', now), ('_low', low), ('_high', high)):
        v = got.get('temperature_wet_bulb' + suffix)
        if t is None or not h or not p:
            ctx.check(v is None, 'no wet bulb temperature without its readings')
        else:
            ctx.check(v is not None, 'a wet bulb temperature for each temperature')
            if v is not None:
                ctx.check(v == utils.calculate_wet_bulb_temperature(t, h, p), 'wet bulb temperature of that temperature')
    # dew point, heat index
    for name, f in (('dew_point_outside', utils.calculate_dew_point), ('heat_index_outside', utils.calculate_heat_index)):
        values = [f(t, h) for t in temperatures] if h else []
        check_group(ctx, got, name, f(now, h) if h and now is not None else None, values)
    t, hi = record.get('temperature_inside'), record.get('humidity_inside')
    for name, f in (('dew_point_inside', utils.calculate_dew_point), ('heat_index_inside', utils.calculate_heat_index)):
        want = f(t, hi) if hi and t is not None else None
        v = got.get(name)
        if want is None:
            ctx.check(v is None, name + ' is absent without its readings')
        else:
            ctx.check(v is not None and v == want, name + ' is that of the readings')
    # wind chill
    f = utils.calculate_wind_chill
    values = [f(t, w) for t in temperatures for w in (ws, wsh) if w]
    check_group(ctx, got, 'wind_chill', f(now, ws) if ws and now is not None else None, values)
    # THW, THSW
    winds = [ws or 0, wsh or 0]
    f = utils.calculate_thw_index
    values = [f(t, h, w) for t in temperatures for w in winds] if h else []
    check_group(ctx, got, 'thw_index', f(now, h, winds[0]) if h and now is not None else None, values)
    f = utils.calculate_thsw_index
    values = [f(t, h, s, w) for t in temperatures for s in (q, qh) if s for w in winds] if h else []
    check_group(ctx, got, 'thsw_index', f(now, h, q, winds[0]) if h and q and now is not None else None, values)


def record_of(flags, values, missing):
    return dict((k, v if f else missing) for (k, v), f in zip(values, flags))


def temperatures(ctx, combinations, scale, missing):
    """any outside temperature"""
    flags = ctx.choice('present', combinations)
    n = ctx.int('temperature', -57 * scale, 135 * scale)
    t = D(n) * (D('0.1') if scale == 10 else 1)
    values = [('temperature_outside', t), ('temperature_outside_low', t - 3), ('temperature_outside_high', t + D(5)),
              ('humidity_outside', 61), ('barometric_pressure', D('29.921')), ('wind_speed', 7), ('wind_speed_high', 19),
              ('solar_radiation', 345), ('solar_radiation_high', 612)]
    r = record_of(flags, values, missing)
    r['minutes_covered'] = 5
    verify(ctx, r)


def winds(ctx, combinations, missing, minutes):
    """any wind speed"""
    flags = ctx.choice('present', combinations)
    n = ctx.int('speed', 0, 200)
    values = [('wind_speed', n), ('wind_speed_high', n + 54), ('temperature_outside', D('38.2')),
              ('temperature_outside_low', D('-11')), ('temperature_outside_high', D('70.3'))]
    r = record_of(flags, values, missing)
    r['humidity_outside'] = 44
    r['minutes_covered'] = ctx.choice('minutes', minutes)
    verify(ctx, r)


def inside(ctx, missing):
    n = ctx.int('temperature', -20, 1400)
    has_t, has_h = ctx.choice('present', [(a, b) for a in (True, False) for b in (True, False)])
    h = ctx.choice('humidity', [0, 1, 13, 50, 86, 100])
    verify(ctx, {'temperature_inside': D(n) * D('0.1') if has_t else missing, 'humidity_inside': h if has_h else missing})


def others(ctx, which, missing):
    """any humidity or radiation"""
    r = {'temperature_outside': D('81.5'), 'temperature_outside_low': D('79.1'), 'temperature_outside_high': missing,
         'humidity_outside': 50, 'barometric_pressure': D('30.001'), 'wind_speed': 0, 'wind_speed_high': 4,
         'solar_radiation': 0, 'solar_radiation_high': 1001, 'minutes_covered': 1}
    if which == 'humidity':
        r['humidity_outside'] = ctx.int('humidity', 0, 100)
    elif which == 'humidity_tenths':
        r['humidity_outside'] = D(ctx.int('humidity', 0, 1000)) * D('0.1')
    elif which == 'radiation':
        r['solar_radiation'] = ctx.int('radiation', 0, 1800)
    elif which == 'radiation_high':
        r['solar_radiation_high'] = ctx.int('radiation', 0, 1800)
    elif which == 'pressure':
        r['barometric_pressure'] = D(ctx.int('pressure', 27000, 32000)) * D('0.001')
    elif which == 'low':
        r['temperature_outside_low'] = D(ctx.int('temperature', -600, 1400)) * D('0.1')
    elif which == 'nothing':
        r = {}
    verify(ctx, r)


def product(n):
    return [()] if n == 0 else [a + (v,) for a in product(n - 1) for v in (True, False)]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    combos = product(9)
    step = 16
    scale = 10 if deep else 1
    for i in range(0, len(combos), step):
        missing = 'absent' if (i // step) % 2 else None
        out.append(('temperature-%d' % i, temperatures,
                    {'combinations': combos[i:i + step], 'scale': scale, 'missing': missing},
                    'any outside temperature; combinations %d to %d of present readings' % (i, i + step - 1), 5))
    combos = product(5)
    for i in range(0, len(combos), 8):
        for missing in (None, 'absent'):
            out.append(('wind-%d-%s' % (i, missing), winds,
                        {'combinations': combos[i:i + 8], 'missing': missing,
                         'minutes': [1, 5, 10, 15, 30, 60, 120] if deep else [10 if missing else 1, 60]},
                        'any wind speed; combinations %d to %d of present readings' % (i, i + 7), 5))
    for missing in (None, 'absent'):
        out.append(('inside-%s' % missing, inside, {'missing': missing}, 'any inside temperature'))
    for which in ('humidity', 'humidity_tenths', 'radiation', 'radiation_high', 'pressure', 'low', 'nothing'):
        out.append(('other-' + which, others, {'which': which, 'missing': None}, 'any ' + which, 3))
    return out
