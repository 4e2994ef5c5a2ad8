"""Symbolic datetime values."""
import bisect
import collections
import datetime
import operator as _op
import time

import z3

from symx.engine import ENG, TRUE, Abort, z_and, z_or
from symx import values as V

DAY_US = 86400 * 10 ** 6
_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
ORD_MAX = datetime.date.max.toordinal()


def leap_cond(y):
    if type(y) is int:
        return V.TRUE if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else V.FALSE
    lo, hi = y.lo, y.hi
    e = y.e
    if lo is not None and hi is not None and lo > 1900 and hi < 2100:
        return e % 4 == 0
    return z_and(e % 4 == 0, z_or(V.z_not(e % 100 == 0), e % 400 == 0))


def days_in_month(y, m):
    if type(y) is int and type(m) is int:
        import calendar
        return calendar.monthrange(y, m)[1]
    feb = V.ite(leap_cond(y), 29, 28)
    if type(m) is int:
        return feb if m == 2 else _DIM[m - 1]
    short = z_or(m.e == 4, m.e == 6, m.e == 9, m.e == 11)
    return V.ite(m.e == 2, feb, V.ite(short, 30, 31))


def ordinal(y, m, d):
    if type(y) is int and type(m) is int and type(d) is int:
        return datetime.date(y, m, d).toordinal()
    if type(y) is int:
        base = datetime.date(y, 1, 1).toordinal() - 1
    else:
        p = y - 1
        base = p * 365 + p // 4 - p // 100 + p // 400
    if type(m) is int:
        cum = _CUM[m - 1]
        after_feb = TRUE if m > 2 else V.FALSE
    else:
        e = z3.IntVal(_CUM[11])
        for i in range(10, -1, -1):
            e = z3.If(m.e == i + 1, z3.IntVal(_CUM[i]), e)
        cum = V.SymInt(e, 0, 334)
        after_feb = m.e > 2
    leap = V.ite(z_and(after_feb, leap_cond(y)), 1, 0)
    return base + cum + leap + d


_YMD = {}


def ymd_of(o):
    """Fields of an ordinal"""
    if type(o) is int:
        d = datetime.date.fromordinal(o)
        return d.year, d.month, d.day
    k = o.e.get_id()
    got = _YMD.get(k)
    if got is not None and got[0] is ENG.pc_epoch():
        return got[1]
    lo, hi = o.lo, o.hi
    lo = 1 if lo is None else max(1, lo)
    hi = ORD_MAX if hi is None else min(ORD_MAX, hi)
    ylo, yhi = datetime.date.fromordinal(lo).year, datetime.date.fromordinal(hi).year
    if hi - lo <= 2000:
        got = ymd_by_month(o, lo, hi)
        _YMD[k] = (ENG.pc_epoch(), got, o)
        return got
    y = V.SymInt(ENG.fresh_int('y'), ylo, yhi) if ylo < yhi else ylo
    m = V.SymInt(ENG.fresh_int('m'), 1, 12)
    d = V.SymInt(ENG.fresh_int('d'), 1, 31)
    cs = [m.e >= 1, m.e <= 12, d.e >= 1, V.boolcond(d <= days_in_month(y, m)),
          V.boolcond(V.eq(ordinal(y, m, d), o))]
    if type(y) is V.SymInt:
        cs += [y.e >= ylo, y.e <= yhi]
    # Only constrains the fresh variables where the ordinal is in range
    ENG.add_side(z3.Implies(z3.And(o.e >= lo, o.e <= hi), z3.And(*cs)))
    _YMD[k] = (ENG.pc_epoch(), (y, m, d), o)
    return y, m, d


def ymd_by_month(o, lo, hi):
    """Fields of an ordinal within a few months"""
    months = []
    d = datetime.date.fromordinal(lo).replace(day=1)
    while d.toordinal() <= hi:
        months.append(d)
        d = (d + datetime.timedelta(days=31)).replace(day=1)
    y, m, start = months[0].year, months[0].month, months[0].toordinal()
    for d in months[1:]:
        later = o.e >= d.toordinal()
        if d.month == 1:
            y = V.ite(later, d.year, y)
        m = V.ite(later, d.month, m)
        start = V.ite(later, d.toordinal(), start)
    return y, m, clamp(o - start + 1, 1, 31)


def _check_range(cond, msg):
    if not ENG.branch(V.boolcond(cond)):
        raise ValueError(msg)


def _num(x):
    if type(x) is V.SymUnion:
        x = V.force(x)
    if type(x) is V.SymFloat or isinstance(x, float):
        raise TypeError('integer argument expected, got float')
    if type(x) is V.SymBool:
        return V.as_int(x)
    if not isinstance(x, int):
        raise TypeError('an integer is required (got type %s)' % type(x).__name__)
    return x


def check_ymd(y, m, d):
    y, m, d = _num(y), _num(m), _num(d)
    _check_range(V.mkbool(z_and(V.boolcond(y >= 1), V.boolcond(y <= 9999))), 'year is out of range')
    _check_range(V.mkbool(z_and(V.boolcond(m >= 1), V.boolcond(m <= 12))), 'month must be in 1..12')
    _check_range(V.mkbool(z_and(V.boolcond(d >= 1), V.boolcond(d <= days_in_month(y, clampm(m))))),
                 'day is out of range for month')
    return clamp(y, 1, 9999), clamp(m, 1, 12), clamp(d, 1, 31)


def clampm(m):
    return m


def clamp(x, lo, hi):
    """x is known to be within lo..hi on this path"""
    if type(x) is not V.SymInt:
        return x
    l = lo if x.lo is None else max(lo, x.lo)
    h = hi if x.hi is None else min(hi, x.hi)
    if l == x.lo and h == x.hi:
        return x
    if l == h:
        return l
    return V.SymInt(x.e, l, h)


def make_date(year, month, day):
    y, m, d = check_ymd(year, month, day)
    if all(type(x) is int for x in (y, m, d)):
        return datetime.date(y, m, d)
    return SymDate(ordinal(y, m, d), (y, m, d))


IsoCalendarDate = collections.namedtuple('IsoCalendarDate', ('year', 'week', 'weekday'))


def time_tuple(n, y, m, d, h=0, mi=0, sec=0):
    return time.struct_time((y, m, d, h, mi, sec, (n + 6) % 7, n - ordinal(y, 1, 1) + 1, -1))


def make_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
    y, m, d = check_ymd(year, month, day)
    h, mi, s, us = _num(hour), _num(minute), _num(second), _num(microsecond)
    _check_range(V.mkbool(z_and(V.boolcond(h >= 0), V.boolcond(h <= 23))), 'hour must be in 0..23')
    _check_range(V.mkbool(z_and(V.boolcond(mi >= 0), V.boolcond(mi <= 59))), 'minute must be in 0..59')
    _check_range(V.mkbool(z_and(V.boolcond(s >= 0), V.boolcond(s <= 59))), 'second must be in 0..59')
    _check_range(V.mkbool(z_and(V.boolcond(us >= 0), V.boolcond(us <= 999999))), 'microsecond must be in 0..999999')
    h, mi, s, us = clamp(h, 0, 23), clamp(mi, 0, 59), clamp(s, 0, 59), clamp(us, 0, 999999)
    f = (y, m, d, h, mi, s, us)
    if all(type(x) is int for x in f):
        return datetime.datetime(*f, tzinfo=tzinfo)
    return SymDT(fields=f, tzinfo=tzinfo)


def tz_offset_us(tz, dt):
    """utcoffset (µs) of dt.replace(tzinfo=tz)"""
    if tz is None:
        return None
    off = tz_segments(tz, dt)
    return off


class SymTZ(object):
    """A localized pytz zone whose offset depends on symbolic data."""

    def __init__(self, zone, off):
        self.zone = zone
        self.off = off

    def normalize(self, d):
        return d


def localize(tz, dt, is_dst=False):
    """tz.localize(dt) of a pytz zone for a symbolic naive dt"""
    if dt.tzinfo is not None:
        raise ValueError('Not naive datetime (tzinfo is already set)')
    if type(dt) is datetime.datetime:
        return tz.localize(dt, is_dst=is_dst)
    times = getattr(tz, '_utc_transition_times', None)
    if not times:
        probe = tz.localize(datetime.datetime(2020, 1, 1))
        return dt.with_tz(tz, int(probe.utcoffset().total_seconds()) * 10 ** 6)
    us = dt.us
    lo, hi = us.lo, us.hi
    lo = 0 if lo is None else lo
    hi = ORD_MAX * DAY_US if hi is None else hi
    infos = tz._transition_info
    bounds = set()
    for i in range(1, len(times)):
        u = us_of(times[i])
        for off in (infos[i - 1][0], infos[i][0]):
            b = u + int(off.total_seconds()) * 10 ** 6
            bounds.add(b)
    bs = sorted(bounds)
    i0 = bisect.bisect_right(bs, lo)
    i1 = bisect.bisect_right(bs, hi)
    segs = []
    start = lo
    for b in bs[i0:i1] + [hi + 1]:
        if b <= start:
            continue
        rep = datetime_of(start)
        off = int(tz.localize(rep, is_dst=is_dst).utcoffset().total_seconds()) * 10 ** 6
        if segs and segs[-1][1] == off:
            segs[-1] = (b, off)
        else:
            segs.append((b, off))
        start = b
    e = z3.IntVal(segs[-1][1])
    for b, off in reversed(segs[:-1]):
        e = z3.If(us.e < b, z3.IntVal(off), e)
    offs = [o for _, o in segs]
    off = V.mkint(e, min(offs), max(offs))
    return dt.with_tz(SymTZ(tz, off), off)


def us_of(d):
    return (d.toordinal() * 86400 + d.hour * 3600 + d.minute * 60 + d.second) * 10 ** 6 + d.microsecond


def datetime_of(us):
    days, rest = divmod(us, DAY_US)
    return datetime.datetime.combine(datetime.date.fromordinal(days), datetime.time()) + \
        datetime.timedelta(microseconds=rest)


US_MIN = us_of(datetime.datetime.min)
US_MAX = us_of(datetime.datetime.max)


def _sym(x):
    return isinstance(x, V.Sym)


class SymDT(V.Sym):
    __slots__ = ('_f', '_us', 'tzinfo', 'off', '_d', '_t')

    def __init__(self, fields=None, us=None, tzinfo=None, off=None, date=None, time=None):
        self._f = fields
        self._us = us
        self.tzinfo = tzinfo
        self.off = off
        self._d = date
        self._t = time
        if tzinfo is not None and off is None:
            probe = None
            if not getattr(type(tzinfo).utcoffset, '__sx_fn__', False):
                probe = datetime.datetime(2020, 1, 1, tzinfo=tzinfo).utcoffset()
            if getattr(tzinfo, '_utc_transition_times', None) or getattr(tzinfo, 'zone', None) is not None or \
                    type(tzinfo) is datetime.timezone:
                self.off = int(probe.total_seconds()) * 10 ** 6
            elif getattr(type(tzinfo).utcoffset, '__sx_fn__', False):
                td = SymTD.of(V.force(tzinfo.utcoffset(SymDT(fields, us, None, None, date, time))))
                if td is None:
                    V.unsupported('no utcoffset')
                self.off = td.us
            else:
                V.unsupported('time zone %r' % (tzinfo,))

    @property
    def __class__(self):
        return datetime.datetime

    @staticmethod
    def of(x):
        if type(x) is SymDT:
            return x
        if isinstance(x, datetime.datetime):
            off = None
            if x.tzinfo is not None:
                off = int(x.utcoffset().total_seconds()) * 10 ** 6
            return SymDT(fields=(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond), us=us_of(x),
                         tzinfo=x.tzinfo, off=off)
        return None

    def simplify(self):
        if self._us is not None and type(self._us) is int and self.tzinfo is None:
            return datetime_of(self._us)
        return self

    def with_tz(self, tz, off):
        return SymDT(self._f, self._us, tz, off, self._d, self._t)

    @property
    def us(self):
        if self._us is None:
            y, m, d, h, mi, s, us = self._f
            self._us = ((ordinal(y, m, d) * 24 + h) * 60 + mi) * 60 * 10 ** 6 + s * 10 ** 6 + us
        return self._us

    @property
    def _ymd(self):
        if self._f is not None:
            return self._f[:3]
        if self._d is None:
            self._d = ymd_of(self.us // DAY_US)
        return self._d

    @property
    def _hms(self):
        if self._f is not None:
            return self._f[3:]
        if self._t is None:
            r = self.us % DAY_US
            self._t = (r // (3600 * 10 ** 6), r // (60 * 10 ** 6) % 60, r // 10 ** 6 % 60, r % 10 ** 6)
        return self._t

    year = property(lambda self: self._ymd[0])
    month = property(lambda self: self._ymd[1])
    day = property(lambda self: self._ymd[2])
    hour = property(lambda self: self._hms[0])
    minute = property(lambda self: self._hms[1])
    second = property(lambda self: self._hms[2])
    microsecond = property(lambda self: self._hms[3])
    fold = 0

    def sym_truth(self):
        return True

    def __bool__(self):
        return True

    def concrete(self):
        f = [V.concretize(x) for x in tuple(self._ymd) + tuple(self._hms)]
        if self.tzinfo is not None:
            V.unsupported('concrete aware datetime')
        return datetime.datetime(*f)

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __repr__(self):
        return 'SymDT'

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def date(self):
        if self._f is not None:
            return SymDate(ordinal(*self._f[:3]), self._f[:3]).simplify()
        return SymDate(self.us // DAY_US).simplify()

    def time(self):
        return SymTime(*self._hms).simplify()

    def toordinal(self):
        return self.date().toordinal()

    def weekday(self):
        return self.date().weekday()

    def isoweekday(self):
        return self.weekday() + 1

    def isocalendar(self):
        return self.date().isocalendar()

    def utcoffset(self):
        return None if self.off is None else SymTD(self.off).simplify()

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None,
                tzinfo=True, fold=None):
        tz = self.tzinfo if tzinfo is True else tzinfo
        args = (year, month, day, hour, minute, second, microsecond)
        if all(a is None for a in args):
            if tzinfo is True:
                return self
            if tz is None:
                return SymDT(self._f, self._us, None, None, self._d, self._t).simplify()
            if isinstance(tz, SymTZ):
                return self.with_tz(tz, tz.off)
            return SymDT(self._f, self._us, tz, None, self._d, self._t)
        if year is None and month is None and day is None:
            # keep the date
            h, mi, s, us = [c if a is None else _num(a) for a, c in zip(args[3:], self._hms)]
            for v, hi in ((h, 23), (mi, 59), (s, 59), (us, 999999)):
                _check_range(V.mkbool(z_and(V.boolcond(v >= 0), V.boolcond(v <= hi))), 'out of range')
            o = ordinal(*self._f[:3]) if self._f is not None else self.us // DAY_US
            tot = ((o * 24 + h) * 60 + mi) * 60 * 10 ** 6 + s * 10 ** 6 + us
            f = None
            if self._f is not None:
                f = self._f[:3] + (h, mi, s, us)
            r = SymDT(f, tot, None, None, None if f else self._d, None if f else (h, mi, s, us))
        else:
            vals = [c if a is None else a for a, c in zip(args, tuple(self._ymd) + tuple(self._hms))]
            r = SymDT.of(make_datetime(*vals))
        if tz is not None:
            if isinstance(tz, SymTZ):
                return r.with_tz(tz, tz.off)
            if tz is self.tzinfo:
                return r.with_tz(tz, self.off)
            return r.with_tz(tz, None)
        return r.simplify()

    def astimezone(self, tz=None):
        if self.off is None or tz is None:
            V.unsupported('astimezone of a naive datetime')
        us = self.us - self.off
        zone = getattr(tz, 'zone', None)
        probe = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc).astimezone(tz)
        if getattr(tz, '_utc_transition_times', None):
            times = tz._utc_transition_times
            e = None
            lo, hi = V.bounds(us)
            segs = []
            for i in range(len(times)):
                segs.append((us_of(times[i]) if i else -1, int(tz._transition_info[i][0].total_seconds()) * 10 ** 6))
            k = 0
            while k + 1 < len(segs) and segs[k + 1][0] <= lo:
                k += 1
            e = segs[k][1]
            for b, off in segs[k + 1:]:
                if b > hi:
                    break
                e = V.ite(V.boolcond(us >= b), off, e)
            return SymDT(us=us + e, tzinfo=SymTZ(tz, e), off=e)
        off = int(probe.utcoffset().total_seconds()) * 10 ** 6
        return SymDT(us=us + off, tzinfo=tz, off=off)

    def timestamp(self):
        if self.off is None:
            V.unsupported('timestamp() of a naive datetime')
        return SymTD.of(SymTD(self.us - self.off - us_of(datetime.datetime(1970, 1, 1)))).total_seconds()

    def timetuple(self):
        if self.tzinfo is not None:
            V.unsupported('timetuple() of an aware datetime')
        y, m, d = self._ymd
        h, mi, sec, _ = self._hms
        return time_tuple(self.us // DAY_US, y, m, d, h, mi, sec)

    def strftime(self, fmt):
        parts = []
        i = 0
        while i < len(fmt):
            c = fmt[i]
            if c != '%':
                parts.append(c)
                i += 1
                continue
            f = fmt[i + 1]
            i += 2
            if f == 'Y':
                parts += digits(self.year, 4)
            elif f == 'm':
                parts += digits(self.month, 2)
            elif f == 'd':
                parts += digits(self.day, 2)
            elif f == 'H':
                parts += digits(self.hour, 2)
            elif f == 'M':
                parts += digits(self.minute, 2)
            elif f == 'S':
                parts += digits(self.second, 2)
            elif f == 'f':
                parts += digits(self.microsecond, 6)
            elif f == '%':
                parts.append('%')
            elif f == 'T':
                parts += digits(self.hour, 2) + [':'] + digits(self.minute, 2) + [':'] + digits(self.second, 2)
            elif f == 'F':
                parts += digits(self.year, 4) + ['-'] + digits(self.month, 2) + ['-'] + digits(self.day, 2)
            else:
                return self.concrete().strftime(fmt)
        return V.mkstr(parts)

    def isoformat(self, sep='T'):
        us = V.mkbool(V.boolcond(self.microsecond == 0)) if self.tzinfo is None else False
        if us is True or us is not False and ENG.branch(V.boolcond(us)):
            return self.strftime('%Y-%m-%d' + sep + '%H:%M:%S')
        return self.concrete().isoformat(sep)

    def _pair(self, o):
        o = SymDT.of(o)
        if o is None:
            return None
        if (self.off is None) != (o.off is None):
            return None
        if self.off is None:
            return self.us, o.us
        return self.us - self.off, o.us - o.off

    def __add__(self, o):
        if type(o) is V.SymUnion:
            return V.lift(_op.add, self, o)
        o = SymTD.of(o)
        if o is None:
            return NotImplemented
        us = self.us + o.us
        if not ENG.branch(z_and(V.boolcond(us >= US_MIN), V.boolcond(us <= US_MAX))):
            raise OverflowError('date value out of range')
        r = SymDT(us=clamp(us, US_MIN, US_MAX), tzinfo=self.tzinfo, off=self.off)
        f = self._f
        if f is None and self._d is not None and self._t is not None:
            f = tuple(self._d) + tuple(self._t)
        if f is not None:
            # the date fields step by a few days at most: no division is needed
            tod = ((f[3] * 60 + f[4]) * 60 + f[5]) * 10 ** 6 + f[6] + o.us
            lo, hi = V.bounds(tod)
            if lo is not None and hi is not None and lo >= -2 * DAY_US and hi < 3 * DAY_US:
                ymd, rest = step_days(f[:3], tod, lo, hi)
                r._d = ymd
                r._t = split_time(rest, f, o.us)
        return r.simplify()

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is V.SymUnion:
            return V.lift(_op.sub, self, o)
        t = SymTD.of(o)
        if t is not None:
            return self + (-t)
        p = self._pair(o)
        if p is None:
            if SymDT.of(o) is not None:
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return NotImplemented
        return SymTD(p[0] - p[1]).simplify()

    def __rsub__(self, o):
        o = SymDT.of(o)
        if o is None:
            return NotImplemented
        return o - self

    def _cmp(self, op, o):
        if type(o) is V.SymUnion:
            return V.lift(lambda a, b: V.PYOPS[op](a, b), self, o)
        if SymDT.of(o) is None:
            if op in ('eq', 'ne'):
                return op == 'ne'
            return NotImplemented
        p = self._pair(o)
        if p is None:
            if op in ('eq', 'ne'):
                return op == 'ne'
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        oo = SymDT.of(o)
        if op in ('eq', 'ne') and self.off is None and self._f is not None and oo._f is not None:
            r = V.mkbool(z_and(*[V.boolcond(V.eq(a, b)) for a, b in zip(self._f, oo._f)]))
            return r if op == 'eq' else V.not_(r)
        if self.off is None and self._f is not None and oo._f is not None:
            return lexical(op, self._f, oo._f)
        return V.PYOPS[op](*p)

    __eq__ = lambda self, o: self._cmp('eq', o)
    __ne__ = lambda self, o: self._cmp('ne', o)
    __lt__ = lambda self, o: self._cmp('lt', o)
    __le__ = lambda self, o: self._cmp('le', o)
    __gt__ = lambda self, o: self._cmp('gt', o)
    __ge__ = lambda self, o: self._cmp('ge', o)


def lexical(op, a, b):
    """Order of date and time fields"""
    less = z3.BoolVal(op in ('le', 'ge'))
    for x, y in reversed(list(zip(a, b))):
        if op in ('gt', 'ge'):
            x, y = y, x
        less = z3.Or(V.boolcond(V.PYOPS['lt'](x, y)), z_and(V.boolcond(V.eq(x, y)), less))
    return V.mkbool(z3.simplify(less))


def step_days(ymd, tod, lo, hi):
    """Date fields and time of day of tod µs after midnight of a date, -2 to 2 days away."""
    k0, k1 = lo // DAY_US, hi // DAY_US
    days = {0: ymd}
    for k in range(1, k1 + 1):
        days[k] = next_day(*days[k - 1])
    for k in range(-1, k0 - 1, -1):
        days[k] = previous_day(*days[k + 1])
    out, rest = days[k1], tod - k1 * DAY_US
    for k in range(k1 - 1, k0 - 1, -1):
        c = V.boolcond(tod < (k + 1) * DAY_US)
        out = tuple(V.ite(c, a, b) for a, b in zip(days[k], out))
        rest = V.ite(c, tod - k * DAY_US, rest)
    if type(rest) is V.SymInt:
        rest = V.SymInt(rest.e, 0, DAY_US - 1)
    return out, rest


def next_day(y, m, d):
    last = V.boolcond(V.eq(d, days_in_month(y, m)))
    dec = z_and(last, V.boolcond(V.eq(m, 12)))
    return V.ite(dec, y + 1, y), V.ite(last, V.ite(V.boolcond(V.eq(m, 12)), 1, m + 1), m), V.ite(last, 1, d + 1)


def previous_day(y, m, d):
    first = V.boolcond(V.eq(d, 1))
    jan = z_and(first, V.boolcond(V.eq(m, 1)))
    y2 = V.ite(jan, y - 1, y)
    m2 = V.ite(first, V.ite(V.boolcond(V.eq(m, 1)), 12, m - 1), m)
    return y2, m2, V.ite(first, days_in_month(y2, m2), d - 1)


def split_time(rest, f, delta):
    """Time fields of rest µs after midnight; what the delta leaves alone stays as it is."""
    if type(delta) is int:
        if delta % DAY_US == 0:
            return tuple(f[3:])
        if delta % (3600 * 10 ** 6) == 0:
            return (rest // (3600 * 10 ** 6),) + tuple(f[4:])
        if delta % (60 * 10 ** 6) == 0:
            m = rest // (60 * 10 ** 6)
            return (m // 60, m % 60) + tuple(f[5:])
    s, us = rest // 10 ** 6, rest % 10 ** 6
    m = s // 60
    return m // 60, m % 60, s % 60, us


def digits(v, n):
    if type(v) is int:
        return [str(v).zfill(n)]
    out = []
    for k in range(n - 1, -1, -1):
        out.append(('char', v // 10 ** k % 10 + 48))
    return out


class SymDate(V.Sym):
    __slots__ = ('ordinal', '_f')

    def __init__(self, o, f=None):
        self.ordinal = o
        self._f = f

    @property
    def __class__(self):
        return datetime.date

    @staticmethod
    def of(x):
        if type(x) is SymDate:
            return x
        if isinstance(x, datetime.date) and not isinstance(x, datetime.datetime):
            return SymDate(x.toordinal(), (x.year, x.month, x.day))
        return None

    def simplify(self):
        if type(self.ordinal) is int:
            return datetime.date.fromordinal(self.ordinal)
        return self

    def _fields(self):
        if self._f is None:
            self._f = ymd_of(self.ordinal)
        return self._f

    year = property(lambda self: self._fields()[0])
    month = property(lambda self: self._fields()[1])
    day = property(lambda self: self._fields()[2])

    def sym_truth(self):
        return True

    def __bool__(self):
        return True

    def toordinal(self):
        return self.ordinal

    def weekday(self):
        return (self.ordinal + 6) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def isocalendar(self):
        wd = self.weekday()
        thursday = self.ordinal - wd + 3
        y = ymd_of(thursday)[0]
        week = (thursday - ordinal(y, 1, 1)) // 7 + 1
        if type(week) is V.SymInt:
            week = V.SymInt(week.e, 1, 53)
        return IsoCalendarDate(y, week, wd + 1)

    def timetuple(self):
        return time_tuple(self.ordinal, *self._fields())

    def replace(self, year=None, month=None, day=None):
        f = self._fields()
        return make_date(f[0] if year is None else year, f[1] if month is None else month, f[2] if day is None else day)

    def concrete(self):
        return datetime.date(*[V.concretize(x) for x in self._fields()])

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return str(self.concrete())

    def __repr__(self):
        return 'SymDate'

    def strftime(self, fmt):
        return SymDT(fields=tuple(self._fields()) + (0, 0, 0, 0)).strftime(fmt)

    def isoformat(self):
        return self.strftime('%Y-%m-%d')

    def __add__(self, o):
        if type(o) is V.SymUnion:
            return V.lift(_op.add, self, o)
        o = SymTD.of(o)
        if o is None:
            return NotImplemented
        n = self.ordinal + o.us // DAY_US
        if not ENG.branch(z_and(V.boolcond(n >= 1), V.boolcond(n <= ORD_MAX))):
            raise OverflowError('date value out of range')
        return SymDate(n).simplify()

    __radd__ = __add__

    def __sub__(self, o):
        t = SymTD.of(o)
        if t is not None:
            return self + SymTD(-(t.us // DAY_US) * DAY_US)
        o = SymDate.of(o)
        if o is None:
            return NotImplemented
        return SymTD((self.ordinal - o.ordinal) * DAY_US).simplify()

    def __rsub__(self, o):
        o = SymDate.of(o)
        if o is None:
            return NotImplemented
        return o - self

    def _cmp(self, op, o):
        if type(o) is V.SymUnion:
            return V.lift(lambda a, b: V.PYOPS[op](a, b), self, o)
        o = SymDate.of(o)
        if o is None:
            if op in ('eq', 'ne'):
                return op == 'ne'
            return NotImplemented
        return V.PYOPS[op](self.ordinal, o.ordinal)

    __eq__ = lambda self, o: self._cmp('eq', o)
    __ne__ = lambda self, o: self._cmp('ne', o)
    __lt__ = lambda self, o: self._cmp('lt', o)
    __le__ = lambda self, o: self._cmp('le', o)
    __gt__ = lambda self, o: self._cmp('gt', o)
    __ge__ = lambda self, o: self._cmp('ge', o)


class SymTD(V.Sym):
    __slots__ = ('us',)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return datetime.timedelta

    @staticmethod
    def of(x):
        if type(x) is SymTD:
            return x
        if isinstance(x, datetime.timedelta):
            return SymTD((x.days * 86400 + x.seconds) * 10 ** 6 + x.microseconds)
        return None

    def simplify(self):
        if type(self.us) is int:
            return datetime.timedelta(microseconds=self.us)
        return self

    days = property(lambda self: self.us // DAY_US)
    seconds = property(lambda self: self.us // 10 ** 6 % 86400)
    microseconds = property(lambda self: self.us % 10 ** 6)

    def total_seconds(self):
        us = self.us
        if type(us) is not int and ENG.must(us.e % 10 ** 6 == 0):
            return V.SymFloat(us // 10 ** 6, 1)
        return V.SymFloat(us, 10 ** 6)

    def sym_truth(self):
        return V.not_(V.eq(self.us, 0))

    def __bool__(self):
        return bool(self.sym_truth())

    def __hash__(self):
        return hash(datetime.timedelta(microseconds=V.concretize(self.us)))

    def __str__(self):
        return str(datetime.timedelta(microseconds=V.concretize(self.us)))

    def __repr__(self):
        return 'SymTD'

    def __neg__(self):
        return SymTD(-self.us)

    def __abs__(self):
        return SymTD(abs(self.us))

    def __add__(self, o):
        t = SymTD.of(o)
        if t is None:
            return NotImplemented
        return SymTD(self.us + t.us).simplify()

    def __radd__(self, o):
        if type(o) is datetime.datetime:
            return SymDT.of(o) + self
        if type(o) is datetime.date:
            return SymDate.of(o) + self
        return self + o

    def __sub__(self, o):
        t = SymTD.of(o)
        if t is None:
            return NotImplemented
        return SymTD(self.us - t.us).simplify()

    def __rsub__(self, o):
        t = SymTD.of(o)
        if t is None:
            if type(o) is datetime.datetime:
                return SymDT.of(o) - self
            if type(o) is datetime.date:
                return SymDate.of(o) - self
            return NotImplemented
        return SymTD(t.us - self.us).simplify()

    def __mul__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return SymTD(self.us * o).simplify()

    __rmul__ = __mul__

    def __floordiv__(self, o):
        t = SymTD.of(o)
        if t is not None:
            return self.us // t.us
        return SymTD(self.us // o).simplify()

    def __mod__(self, o):
        return SymTD(self.us % SymTD.of(o).us).simplify()

    def __truediv__(self, o):
        t = SymTD.of(o)
        if t is not None:
            return V.int_op('truediv', self.us, t.us)
        V.unsupported('timedelta division')

    def _cmp(self, op, o):
        if type(o) is V.SymUnion:
            return V.lift(lambda a, b: V.PYOPS[op](a, b), self, o)
        o = SymTD.of(o)
        if o is None:
            if op in ('eq', 'ne'):
                return op == 'ne'
            return NotImplemented
        return V.PYOPS[op](self.us, o.us)

    __eq__ = lambda self, o: self._cmp('eq', o)
    __ne__ = lambda self, o: self._cmp('ne', o)
    __lt__ = lambda self, o: self._cmp('lt', o)
    __le__ = lambda self, o: self._cmp('le', o)
    __gt__ = lambda self, o: self._cmp('gt', o)
    __ge__ = lambda self, o: self._cmp('ge', o)


def make_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    tot = 0
    for v, f in ((days, DAY_US), (seconds, 10 ** 6), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * 10 ** 6),
                 (hours, 3600 * 10 ** 6), (weeks, 7 * DAY_US)):
        if type(v) is V.SymUnion:
            v = V.force(v)
        if type(v) is V.SymBool:
            v = V.as_int(v)
        if v is None or not isinstance(v, (int, float)):
            raise TypeError('unsupported type for timedelta component: %s' % type(v).__name__)
        if type(v) is float:
            v = V.SymFloat.of(v)
        if type(v) is V.SymFloat:
            n = v.num * f
            # exact only if divisible
            if f % v.den == 0:
                tot = tot + v.num * (f // v.den)
            else:
                tot = tot + V.rhe_div(n, v.den)
        else:
            tot = tot + v * f
    return SymTD(tot).simplify()


class SymTime(V.Sym):
    __slots__ = ('hour', 'minute', 'second', 'microsecond')
    tzinfo = None

    def __init__(self, hour, minute, second, microsecond):
        self.hour = hour
        self.minute = minute
        self.second = second
        self.microsecond = microsecond

    @property
    def __class__(self):
        return datetime.time

    @staticmethod
    def of(x):
        if type(x) is SymTime:
            return x
        if isinstance(x, datetime.time):
            return SymTime(x.hour, x.minute, x.second, x.microsecond)
        return None

    def simplify(self):
        f = (self.hour, self.minute, self.second, self.microsecond)
        if all(type(x) is int for x in f):
            return datetime.time(*f)
        return self

    def sym_truth(self):
        return True

    def __bool__(self):
        return True

    def __hash__(self):
        return hash(datetime.time(*[V.concretize(x) for x in (self.hour, self.minute, self.second, self.microsecond)]))

    def __repr__(self):
        return 'SymTime'

    def _us(self):
        return ((self.hour * 60 + self.minute) * 60 + self.second) * 10 ** 6 + self.microsecond

    def _cmp(self, op, o):
        if type(o) is V.SymUnion:
            return V.lift(lambda a, b: V.PYOPS[op](a, b), self, o)
        o = SymTime.of(o)
        if o is None:
            if op in ('eq', 'ne'):
                return op == 'ne'
            return NotImplemented
        return V.PYOPS[op](self._us(), o._us())

    __eq__ = lambda self, o: self._cmp('eq', o)
    __ne__ = lambda self, o: self._cmp('ne', o)
    __lt__ = lambda self, o: self._cmp('lt', o)
    __le__ = lambda self, o: self._cmp('le', o)
    __gt__ = lambda self, o: self._cmp('gt', o)
    __ge__ = lambda self, o: self._cmp('ge', o)


def merge_dt(members):
    """members: [(cond, SymDT)], all with the same tzinfo identity"""
    first = members[0][1]
    tz = first.tzinfo
    off = None
    if tz is not None:
        off = V.merge([(c, x.off) for c, x in members])
    if all(x._f is not None for _, x in members):
        f = tuple(V.merge([(c, x._f[i]) for c, x in members]) for i in range(7))
        return SymDT(fields=f, tzinfo=tz, off=off)
    return SymDT(us=V.merge([(c, x.us) for c, x in members]), tzinfo=tz, off=off)
