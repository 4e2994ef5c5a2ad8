"""Compass directions."""
from weatherlink import models

BOUNDS = 'every whole number of degrees from -70000 to 70000; all 16 sectors'
ASSUMPTIONS = []


def nearest(ctx):
    deg = ctx.int('degrees', 1, 360)
    got = models.WindDirection.from_degrees(deg)
    ctx.check(got is not None, 'every direction has a sector')
    if got is not None:
        # sectors are 22.5 degrees wide, so whole degrees next to a boundary may be 11.5 degrees from the center
        off = (4 * deg - 90 * got.value + 720) % 1440 - 720
        ctx.check(off >= -46 and off <= 46, 'the center of the sector is at most 11.5 degrees away')
    ctx.observe('sector', got)


def turn(ctx):
    deg = ctx.int('degrees', 1, 270)
    a = models.WindDirection.from_degrees(deg)
    b = models.WindDirection.from_degrees(deg + 90)
    ctx.check(a is not None and b is not None and b.value == (a.value + 4) % 16,
              'a quarter turn moves a direction by four sectors')


def outside(ctx):
    deg = ctx.int('degrees', -70000, 70000)
    ctx.assume(deg < 1 or deg > 360)
    got = models.WindDirection.from_degrees(deg)
    ctx.check(got is None, 'numbers that are no direction have no sector')


def center(ctx):
    code = ctx.int('code', 0, 15)
    sector = models.WindDirection(code)
    ctx.check(sector.value == code, 'the sector has its code')
    ctx.check(sector.degrees * 2 == (45 * code if code > 0 else 720), 'the center of the sector, with 360 for north')
    whole = int(sector.degrees)
    ctx.check(models.WindDirection.from_degrees(whole) is sector, 'the center of a sector belongs to it')
    ctx.observe('sector', (sector, sector.degrees))


def unknown(ctx):
    code = ctx.int('code', -1000, 1000)
    ctx.assume(code < 0 or code > 15)
    try:
        models.WindDirection(code)
    except ValueError:
        ctx.check(True, 'rejected')
    else:
        ctx.fail('a code above 15 is no sector')


def cases(tier):
    return [
        ('nearest', nearest, {}, '1-360 degrees'),
        ('turn', turn, {}, '1-270 degrees and a quarter turn more'),
        ('outside', outside, {}, '-70000 to 70000 without 1-360'),
        ('center', center, {}, 'all 16 sectors'),
        ('unknown', unknown, {}, '-1000 to 1000 without 0-15'),
    ]
