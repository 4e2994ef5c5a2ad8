"""Snapshots, rollback and merging of values and of mutable objects."""
import collections
import datetime
import decimal

import z3

from symx.engine import ENG, Abort, z_and, z_not, z_or


class _Marker(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


UNBOUND = _Marker('UNBOUND')
BRK = _Marker('BRK')
CONT = _Marker('CONT')


class Ret(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def kind_of(val):
    if isinstance(val, Ret):
        return ('ret',)
    if val is BRK:
        return ('brk',)
    if val is CONT:
        return ('cont',)
    return ('val',)


class Opt(object):
    """A list element or dict entry that is present only under a condition."""
    __slots__ = ('cond', 'v')

    def __init__(self, cond, v):
        self.cond = cond
        self.v = v


_UNION = []


def _union():
    if not _UNION:
        from symx.values import SymUnion
        _UNION.append(SymUnion)
    return _UNION[0]


class Frame(dict):
    __slots__ = ()

    def __setitem__(self, k, v):
        if ENG.regions:
            ENG.touch(self)
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        ENG.touch(self)
        dict.__delitem__(self, k)

    def __getitem__(self, k):
        v = dict.get(self, k, UNBOUND)
        if v is UNBOUND:
            raise UnboundLocalError("local variable '%s' referenced before assignment" % k)
        if type(v) is _union() and any(x is UNBOUND for _, x in v.alts):
            cs = [c for c, x in v.alts if x is UNBOUND]
            if ENG.branch(z_or(*cs)):
                raise UnboundLocalError("local variable '%s' referenced before assignment" % k)
            return merge([(c, x) for c, x in v.alts if x is not UNBOUND])
        return v


# -- snapshots ---------------------------------------------------------------------------------------------------------

class AttrCell(object):
    """Journal entry of one class-level attribute (or of a module global)."""


def snapshot(obj):
    d = None
    try:
        d = object.__getattribute__(obj, '__dict__')
    except AttributeError:
        pass
    if d is not None:
        d = dict(d)
    if isinstance(obj, dict):
        return ('dict', dict(obj.items()) if type(obj) is Frame else dict(dict.items(obj)), d)
    if isinstance(obj, list):
        return ('list', list(obj), d)
    if isinstance(obj, collections.deque):
        return ('deque', list(obj), d)
    if isinstance(obj, (set,)):
        return ('set', set(obj), d)
    if isinstance(obj, bytearray):
        return ('bytearray', bytes(obj), d)
    if isinstance(obj, type):
        return ('type', None, d)
    return ('obj', None, d)


def restore(obj, snap):
    kind, content, d = snap
    if kind == 'dict':
        dict.clear(obj)
        dict.update(obj, content)
    elif kind == 'list':
        obj[:] = content
    elif kind == 'deque':
        obj.clear()
        obj.extend(content)
    elif kind == 'set':
        obj.clear()
        obj.update(content)
    elif kind == 'bytearray':
        obj[:] = content
    elif kind == 'type':
        cur = obj.__dict__
        for k in list(cur):
            if k not in d:
                type.__delattr__(obj, k)
            elif cur[k] is not d[k]:
                type.__setattr__(obj, k, d[k])
        return
    if d is not None:
        cur = object.__getattribute__(obj, '__dict__')
        cur.clear()
        cur.update(d)


def merge_order(dicts):
    """The keys in an order that agrees with that of every dict; None if there is none"""
    keys = []
    seen = set()
    for d in dicts:
        for k in d:
            if k not in seen:
                seen.add(k)
                keys.append(k)
    place = {k: i for i, k in enumerate(keys)}
    after = {}
    agrees = True
    for d in dicts:
        last = None
        for k in d:
            if last is not None:
                agrees = agrees and place[last[0]] < place[k]
                after.setdefault(k, set()).add(last[0])
            last = (k,)
    if agrees:
        return keys
    out = []
    done = set()
    while len(out) < len(keys):
        for k in keys:
            if k not in done and after.get(k, done) <= done:
                done.add(k)
                out.append(k)
                break
        else:
            return None
    return out


def _merge_dicts(conds, dicts, is_frame):
    if is_frame:
        keys = list({k: None for d in dicts for k in d})
    else:
        keys = merge_order(dicts)
    out = {}
    for k in keys:
        pairs = []
        present = []
        for c, d in zip(conds, dicts):
            if k in d:
                v = d[k]
                if type(v) is Opt:
                    pairs.append((z_and(c, v.cond), v.v))
                    present.append(z_and(c, v.cond))
                else:
                    pairs.append((c, v))
                    present.append(c)
        always = len(pairs) == len(dicts) and not any(type(d[k]) is Opt for d in dicts)
        if always:
            out[k] = merge(pairs)
        elif is_frame:
            missing = [(c, UNBOUND) for c, d in zip(conds, dicts) if k not in d]
            out[k] = merge(pairs + missing)
        else:
            pairs = [(c, v) for c, v in pairs if not z3.is_false(c)]
            if pairs:
                out[k] = Opt(z_or(*present), merge(pairs))
    return out


def _merge_lists(conds, lists):
    n = len(lists[0])
    if all(len(l) == n for l in lists):
        out = []
        for i in range(n):
            if any(type(l[i]) is Opt for l in lists):
                pairs = []
                present = []
                for c, l in zip(conds, lists):
                    if type(l[i]) is Opt:
                        pairs.append((z_and(c, l[i].cond), l[i].v))
                    else:
                        pairs.append((c, l[i]))
                    present.append(pairs[-1][0])
                out.append(Opt(z_or(*present), merge(pairs)))
            else:
                out.append(merge([(c, l[i]) for c, l in zip(conds, lists)]))
        return out
    # Different lengths: keep the common prefix (by identity); what follows becomes optional, aligned by position
    m = min(len(l) for l in lists)
    p = 0
    while p < m and all(l[p] is lists[0][p] for l in lists):
        p += 1
    out = list(lists[0][:p])
    for i in range(p, max(len(l) for l in lists)):
        pairs = []
        for c, l in zip(conds, lists):
            if i < len(l):
                e = l[i]
                if type(e) is Opt:
                    pairs.append((z_and(c, e.cond), e.v))
                else:
                    pairs.append((c, e))
        pairs = [(c, e) for c, e in pairs if not z3.is_false(c)]
        if pairs:
            out.append(Opt(z_or(*[c for c, _ in pairs]), merge(pairs)))
    return out


def merge_snaps(obj, conds, snaps):
    kind = snaps[0][0]
    ds = [s[2] for s in snaps]
    d = None
    if ds[0] is not None and kind != 'type':
        d = _merge_dicts(conds, ds, True)
    if kind == 'type':
        d = _merge_dicts(conds, ds, True)
        return (kind, None, d)
    if kind == 'dict':
        return (kind, _merge_dicts(conds, [s[1] for s in snaps], isinstance(obj, Frame)), d)
    if kind in ('list', 'deque'):
        return (kind, _merge_lists(conds, [s[1] for s in snaps]), d)
    if kind in ('set', 'bytearray'):
        if all(s[1] == snaps[0][1] for s in snaps):
            return (kind, snaps[0][1], d)
        i = ENG.decide(list(conds))
        return snaps[i]
    return (kind, None, d)


def exception_state(e):
    """What tells exceptions of one class apart: attributes, and the arguments of operating system errors.  Messages do
    not count."""
    d = {k: v for k, v in e.__dict__.items() if not k.startswith('__')}
    values = list(d.values())
    if isinstance(e, OSError):
        values += list(e.args)
    elif not d:
        return None
    if all(type(v) in _ATOMIC for v in values):
        return tuple(d), tuple(type(v).__name__ + repr(v) for v in values)
    return id(e)


def apply_merged(eng, outs):
    """outs: outcomes of one kind. Applies their heap effects and returns or raises the merged value."""
    conds = [z_and(*o[2]) for o in outs]
    objs = {}
    for o in outs:
        for k, (obj, fin, snap) in o[3].items():
            if k not in objs:
                objs[k] = (obj, snap)
    # Mutable sets cannot be merged symbolically, nor deques of different lengths: fork
    for k, (obj, snap) in objs.items():
        snaps = [o[3][k][1] if k in o[3] else snap for o in outs]
        if snaps[0][0] in ('set', 'bytearray') and any(s[1] != snaps[0][1] for s in snaps) or (
                snaps[0][0] == 'deque' and len({len(s[1]) for s in snaps}) > 1):
            i = eng.decide(conds)
            outs = [outs[i]]
            conds = [conds[i]]
            break
    # Nor dicts whose keys are in conflicting orders
    for k, (obj, snap) in objs.items():
        if len(outs) == 1:
            break
        snaps = [o[3][k][1] if k in o[3] else snap for o in outs]
        if snaps[0][0] != 'dict' or type(obj) is Frame or merge_order([x[1] for x in snaps]) is not None:
            continue
        orders = {}
        for i, x in enumerate(snaps):
            orders.setdefault(tuple(x[1]), []).append(i)
        orders = list(orders.values())
        chosen = orders[eng.decide([z_or(*[conds[i] for i in g]) for g in orders])]
        outs = [outs[i] for i in chosen]
        conds = [conds[i] for i in chosen]
    for k, (obj, snap) in objs.items():
        if len(outs) == 1:
            m = outs[0][3][k][1] if k in outs[0][3] else None
            if m is None:
                continue
        else:
            snaps = [o[3][k][1] if k in o[3] else snap for o in outs]
            m = merge_snaps(obj, conds, snaps)
        eng.touch(obj)
        restore(obj, m)
    kind = outs[0][0]
    if kind[0] == 'exc':
        e = outs[0][1]
        if len(outs) > 1 and kind[2] is not None and id(e) in outs[0][3]:
            # An equal exception on every path; those of the other paths never touched this object
            eng.touch(e)
            restore(e, outs[0][3][id(e)][1])
        raise e
    if kind[0] == 'ret':
        return Ret(merge([(c, o[1].v) for c, o in zip(conds, outs)]))
    if kind[0] == 'brk':
        return BRK
    if kind[0] == 'cont':
        return CONT
    vals = [o[1] for o in outs]
    if all(v is None for v in vals):
        return None
    return merge([(c, v) for c, v in zip(conds, vals)])


# -- values ------------------------------------------------------------------------------------------------------------

_ATOMIC = (int, float, str, bytes, bool, decimal.Decimal, datetime.datetime, datetime.date, datetime.timedelta,
           datetime.time, type(None))


def same(a, b):
    if a is b:
        return True
    ta = type(a)
    if ta is not type(b):
        return False
    if ta in (int, str, bytes, bool, float):
        return a == b
    if ta is decimal.Decimal:
        return a.as_tuple() == b.as_tuple()
    if ta in (datetime.datetime, datetime.date, datetime.timedelta, datetime.time):
        return a == b
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def merge_tables(flat, v):
    """Decimals that are functions of one input, if the conditions are too: one table"""
    from symx.engine import ENG
    if not all(v.table_number(x) and type(x) not in (int, v.SymInt) for _, x in flat):
        return None
    got = v.table_var([x for _, x in flat])
    if got is None:
        return None
    var, lo, hi = got
    for c, _ in flat:
        if v.root_of(c) not in (0, var.get_id()):
            return None
    out = {}
    tables = [(c, v.values_of(x, var, lo, hi), v.holds(c, var, lo, hi)) for c, x in flat]
    for n in range(lo, hi + 1):
        for c, t, h in tables:
            if n in h:
                try:
                    x = t[n]
                except KeyError:
                    continue
                out[n] = x
                break
    if not out:
        return None
    return v.mktab(var, out)


def merge(pairs):
    from symx import values as v
    flat = []
    for c, x in pairs:
        if z3.is_false(c):
            continue
        if type(x) is v.SymUnion:
            for c2, y in x.alts:
                cc = z_and(c, c2)
                if not z3.is_false(cc):
                    flat.append((cc, y))
        else:
            flat.append((c, x))
    if not flat:
        raise Abort('merge of nothing')
    x0 = flat[0][1]
    if all(same(x, x0) for _, x in flat[1:]):
        return x0
    if any(type(x) is v.SymTab for _, x in flat):
        nums = [(c, x) for c, x in flat if v.table_number(x)]
        rest = [(c, x) for c, x in flat if not v.table_number(x)]
        tab = nums[0][1] if len(nums) == 1 else merge_tables(nums, v)
        if tab is not None:
            if not rest:
                return tab
            other = merge(rest)
            alts = list(other.alts) if type(other) is v.SymUnion else [(z_or(*[c for c, _ in rest]), other)]
            return v.SymUnion([(z_or(*[c for c, _ in nums]), tab)] + alts)
        return merge([(c, x.dec() if type(x) is v.SymTab else x) for c, x in flat])
    # group
    groups = []
    for c, x in flat:
        key = v.merge_key(x)
        for g in groups:
            if g[0] == key and (key is not None or same(g[1][0][1], x)):
                g[1].append((c, x))
                break
        else:
            groups.append((key, [(c, x)]))
    alts = []
    for key, members in groups:
        if len(members) == 1:
            alts.append(members[0])
            continue
        cond = z_or(*[c for c, _ in members])
        if all(same(x, members[0][1]) for _, x in members[1:]):
            alts.append((cond, members[0][1]))
        else:
            alts.append((cond, v.merge_same(key, members)))
    if len(alts) == 1:
        return alts[0][1]
    return v.SymUnion(alts)
