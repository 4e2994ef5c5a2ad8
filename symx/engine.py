"""Path exploration with state merging.

A *region* is a piece of the transformed program (a function body, an if statement, a loop iteration ...) whose paths
are enumerated exhaustively from the current path condition; the outcomes of the same kind (fall through, return,
break, exception of one class ...) are merged into one outcome with if-then-else values, and the enclosing region
then forks only over the distinct kinds.
"""
import time

import z3

class Control(BaseException):
    """Engine control flow; user code never handles it."""


class Infeasible(Control):
    pass


class Abort(Control):
    """This path cannot be continued (unsupported operation or exhausted budget): the run is incomplete."""


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def is_true(c):
    return c is True or (c is not False and z3.is_true(c))


def is_false(c):
    return c is False or (c is not True and z3.is_false(c))


def z_not(c):
    if z3.is_true(c):
        return FALSE
    if z3.is_false(c):
        return TRUE
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def z_and(*cs):
    out = []
    seen = set()
    for c in cs:
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return FALSE
        i = c.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    ids = {c.get_id() for c in out}
    for c in out:
        if z3.is_not(c) and c.arg(0).get_id() in ids:
            return FALSE
    return z3.And(*out)


def z_or(*cs):
    out = []
    seen = set()
    for c in cs:
        if z3.is_false(c):
            continue
        if z3.is_true(c):
            return TRUE
        i = c.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    ids = {c.get_id() for c in out}
    for c in out:
        if z3.is_not(c) and c.arg(0).get_id() in ids:
            return TRUE
    return z3.Or(*out)


class Region(object):
    __slots__ = ('decisions', 'pos', 'alternatives', 'journal', 'name', 'assumed', 'key', 'ordinal')

    def __init__(self, name, key=()):
        self.name = name
        self.key = key
        self.assumed = False
        self.reset([])

    def reset(self, decisions):
        self.decisions = decisions
        self.pos = 0
        self.alternatives = []
        self.journal = {}
        self.ordinal = 0            # number of regions entered so far on this run


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.region_runs = 0
        self.merges = 0
        self.queries = 0
        self.query_cache = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.unknown = 0


class Engine(object):
    FEAS_MS = 3000

    def __init__(self):
        self.memo = {}
        self.solver = z3.Solver()
        self.stats = Stats()
        self.pc = []
        self.regions = []
        self.cache = {}
        self.stack = []          # conditions asserted in the solver, one push level each
        self.side = []           # definitional constraints of fresh variables, always true
        self.keep = []           # keeps cached ASTs alive
        self.incomplete = {}
        self.deadline = None
        self.functions = {}
        self.inputs = {}
        self.domains = {}
        self.lazy_links = {}
        self.fresh_n = 0

    # -- solver -----------------------------------------------------------------------------------------------------
    def add_side(self, c):
        """A constraint that holds on every path (it defines a fresh variable)."""
        while self.stack:
            self.solver.pop()
            self.stack.pop()
        self.side.append(c)
        self.solver.add(c)

    def pc_epoch(self):
        return self.side

    def fresh_int(self, prefix):
        self.fresh_n += 1
        return z3.Int('%s!%d' % (prefix, self.fresh_n))

    def _sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n].get_id() == pc[n].get_id():
            n += 1
        k = len(st) - n
        if k:
            self.solver.pop(k)
            del st[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, cond=None, timeout=None, want_model=False, extra=()):
        """Satisfiability of pc /\\ cond."""
        if self.deadline and time.time() > self.deadline:
            self.note_incomplete('time budget exhausted')
            raise Abort('time budget exhausted')
        if cond is not None and z3.is_false(cond):
            return (z3.unsat, None) if want_model else z3.unsat
        key = None
        if not want_model and not extra:
            key = (tuple(c.get_id() for c in self.pc), cond.get_id() if cond is not None else -1, len(self.side))
            r = self.cache.get(key)
            if r is not None:
                self.stats.query_cache += 1
                return r
        self._sync(self.pc)
        budget = timeout or self.FEAS_MS
        r, m = self._solve(cond, extra, min(budget, 1500), want_model)
        if r == z3.unknown:
            var = self._split_var(cond) if cond is not None else None
            if budget > 1500:
                r, m = self._solve(cond, extra, budget // 3 if var else budget, want_model)
            if r == z3.unknown and var:
                r, m = self._solve_split(cond, extra, var, budget, want_model)
                if r == z3.unknown and budget > 3000:
                    r, m = self._solve(cond, extra, budget, want_model)
        if r == z3.unknown:
            self.stats.unknown += 1
        if key is not None:
            self.cache[key] = r
            self.keep.append((list(self.pc), cond))
        if want_model:
            return r, m
        return r

    def _solve(self, cond, extra, ms, want_model):
        self.solver.set('timeout', int(ms))
        t = time.time()
        self.solver.push()
        if cond is not None:
            self.solver.add(cond)
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if want_model and r == z3.sat else None
        self.solver.pop()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        return r, m

    def _split_var(self, cond):
        """The input with the widest of the small domains among those in cond"""
        best = None
        todo, seen = [cond], set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if x.num_args():
                todo.extend(x.children())
            elif i in self.domains:
                var, lo, hi = self.domains[i]
                if 15 < hi - lo <= 6000 and (best is None or hi - lo > best[2] - best[1]):
                    best = (var, lo, hi)
        return best

    def _solve_split(self, cond, extra, split, budget, want_model):
        """Decides a query piece by piece of the domain of one input"""
        var, lo, hi = split
        end = time.time() + max(budget, 3000) * 4 / 1000.0
        step = (hi - lo) // 16 + 1
        todo = [(a, min(a + step - 1, hi)) for a in range(lo, hi + 1, step)][::-1]
        unknown = False
        while todo:
            a, b = todo.pop()
            if time.time() > end or self.deadline and time.time() > self.deadline:
                return z3.unknown, None
            r, m = self._solve(cond, tuple(extra) + (var >= a, var <= b), 1500, want_model)
            if r == z3.sat:
                return r, m
            if r == z3.unknown:
                if b > a:
                    c = (a + b) // 2
                    todo += [(c + 1, b), (a, c)]
                else:
                    unknown = True
        return (z3.unknown if unknown else z3.unsat), None

    def feasible(self, cond):
        return self.check(cond) != z3.unsat

    def must(self, cond):
        """pc implies cond."""
        if z3.is_true(cond):
            return True
        return self.check(z_not(cond)) == z3.unsat

    def note_incomplete(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    # -- decisions --------------------------------------------------------------------------------------------------
    def decide(self, conds):
        """Forks over mutually exclusive conditions; returns the index taken on this path."""
        if len(conds) == 1 and z3.is_true(conds[0]):
            return 0
        r = self.regions[-1]
        if r.pos < len(r.decisions):
            i = r.decisions[r.pos]
            r.pos += 1
            self._assume(conds[i])
            return i
        self.stats.decisions += 1
        feas = []
        n = len(conds)
        if n == 2 and z3.is_true(z_or(conds[0], conds[1])):
            if self.feasible(conds[0]):
                feas.append(0)
                if self.feasible(conds[1]):
                    feas.append(1)
            else:
                feas.append(1)
        else:
            for i, c in enumerate(conds):
                if self.feasible(c):
                    feas.append(i)
        if not feas:
            raise Infeasible()
        prefix = r.decisions[:r.pos]
        for i in reversed(feas[1:]):
            r.alternatives.append(prefix + [i])
        r.decisions = prefix + [feas[0]]
        r.pos += 1
        if len(feas) > 1 or n > 2:
            self._assume(conds[feas[0]])
        return feas[0]

    def _assume(self, c):
        if not z3.is_true(c):
            self.pc.append(c)

    def branch(self, cond):
        """Boolean fork."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.decide([cond, z_not(cond)]) == 0

    def assume(self, cond):
        if z3.is_true(cond):
            return
        if not self.feasible(cond):
            raise Infeasible()
        self.pc.append(cond)
        if self.regions:
            self.regions[-1].assumed = True

    # -- regions ----------------------------------------------------------------------------------------------------
    def explore(self, fn):
        """Runs fn() on all its paths; their effects are undone, nothing is merged."""
        base = list(self.pc)
        reg = Region('root')
        self.regions.append(reg)
        pending = [[]]
        try:
            while pending:
                reg.reset(pending.pop())
                self.pc = list(base)
                self.stats.region_runs += 1
                try:
                    fn()
                except Infeasible:
                    pass
                finally:
                    self._rollback(reg)
                pending.extend(reg.alternatives)
        finally:
            del self.regions[:]
            self.pc = base

    def region(self, fn, name='region'):
        """Runs fn() on all its paths and returns (or raises) the merged outcome of one kind."""
        from symx import merge as mg
        base = list(self.pc)
        key = known = None
        if self.regions:
            # When the run of the region around this one is a replay that chose one kind of outcome of this region,
            # only the runs that end so are repeated (runs are deterministic)
            up = self.regions[-1]
            key = (up.key, up.ordinal, tuple(up.decisions[:up.pos]))
            up.ordinal += 1
            known = self.memo.get(key)
            if known is not None and up.pos >= len(up.decisions):
                known = None
        reg = Region(name, key or ())
        self.regions.append(reg)
        outcomes = []
        pending = [[]]
        if known is not None:
            pending = [list(d) for d in known[up.decisions[up.pos]]]
            up.pos += 1
        first = True
        try:
            while pending:
                dec = pending.pop()
                reg.reset(dec)
                self.pc = list(base)
                self.stats.region_runs += 1
                if self.stats.region_runs > 300000000:
                    self.note_incomplete('region run budget exhausted')
                    raise Abort('region runs')
                val = None
                try:
                    val = fn()
                    kind = mg.kind_of(val)
                except Infeasible:
                    self._rollback(reg)
                    pending.extend(reg.alternatives)
                    first = False
                    continue
                except Control:
                    self._rollback(reg)
                    raise
                except Exception as e:
                    kind = ('exc', type(e), mg.exception_state(e))
                    val = e
                pending.extend(reg.alternatives)
                if first and not pending:
                    # One path only: keep its effects in place
                    self.regions.pop()
                    if self.regions:
                        if reg.assumed:
                            self.regions[-1].assumed = True
                        pj = self.regions[-1].journal
                        for k, (obj, snap) in reg.journal.items():
                            if k not in pj:
                                pj[k] = (obj, snap)
                    reg = None
                    if kind[0] == 'exc':
                        raise val
                    return val
                first = False
                delta = self.pc[len(base):]
                finals = {}
                for k, (obj, snap) in reg.journal.items():
                    finals[k] = (obj, mg.snapshot(obj), snap)
                self._rollback(reg)
                outcomes.append((kind, val, delta, finals, list(reg.decisions)))
        finally:
            if reg is not None:
                if self.regions and self.regions[-1] is reg:
                    self.regions.pop()
                self.pc = list(base)
                assumed = reg.assumed
        if not outcomes:
            if assumed and self.regions:
                self.regions[-1].assumed = True
            raise Infeasible()
        self.stats.merges += 1
        if assumed:
            self._assume(z_or(*[z_and(*o[2]) for o in outcomes]))
            if self.regions:
                self.regions[-1].assumed = True
        kinds = []
        groups = {}
        for o in outcomes:
            if o[0] not in groups:
                groups[o[0]] = []
                kinds.append(o[0])
            groups[o[0]].append(o)
        if known is not None:
            chosen = outcomes
            self._assume(z_or(*[z_and(*o[2]) for o in outcomes]))
        elif len(kinds) > 1:
            if key is not None:
                self.memo[key] = [[o[4] for o in groups[k]] for k in kinds]
            conds = [z_or(*[z_and(*o[2]) for o in groups[k]]) for k in kinds]
            i = self.decide(conds)
            chosen = groups[kinds[i]]
        else:
            chosen = groups[kinds[0]]
        return mg.apply_merged(self, chosen)

    def _rollback(self, reg):
        from symx import merge as mg
        for obj, snap in reg.journal.values():
            mg.restore(obj, snap)

    def touch(self, obj):
        """Must be called before obj is mutated."""
        if self.regions:
            j = self.regions[-1].journal
            k = id(obj)
            if k not in j:
                from symx import merge as mg
                j[k] = (obj, mg.snapshot(obj))


ENG = Engine()


def reset():
    global ENG
    old = ENG
    new = Engine()
    old.__dict__.clear()
    old.__dict__.update(new.__dict__)
    return old
