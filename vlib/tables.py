"""A small database that executes the statements the exporter sends.  (Executed symbolically, like the code it serves.)

Rows are dicts from column name to value.  NULL is None; comparisons with it are neither true nor false (None).  Stored
values are not rounded to the precision of their column.  A cursor whose rows were not all read refuses the next
statement, like MySQL's own."""
import datetime
import decimal
import os

import mysql.connector.errors
import weatherlink

from plain import sqleval, sqlparse
from vlib import db

SCHEMA = sqlparse.schema(os.path.join(os.path.dirname(weatherlink.__file__), 'exporter', 'mysql.sql'))
D = decimal.Decimal


class Database(db.Server):
    def __init__(self, ctx, schema=None, faults=None):
        db.Server.__init__(self, faults)
        self.ctx = ctx
        self.schema = SCHEMA if schema is None else schema
        self.tables = {}
        for name in self.schema:
            self.tables[name] = []
        self.uncommitted = 0
        self.commits = 0
        self.writes = []
        self.cursor_class = Cursor

    def connect(self, *args, **kwargs):
        self.step('connect', (args, kwargs))
        c = Connection(self)
        self.connections.append(c)
        return c

    def put(self, table, **values):
        """A row that was there before"""
        row = {}
        for column in self.schema[table]['columns']:
            row[column] = None
        for k, v in values.items():
            row[k] = v
        rows = self.tables[table]
        key = self.schema[table]['primary']
        if key is not None and row[key] is None:
            row[key] = len(rows) + 1
        rows.append(row)
        return row

    def run(self, statement, args):
        """The rows of a query, or None; and the new id"""
        s = sqlparse.parse(statement)
        if isinstance(s, str):
            self.ctx.unsupported('statement not understood: %s' % s)
            raise sqleval.Unknown(s)
        n = 0 if args is None else len(args)
        if isinstance(args, dict):
            n = s['params']
        if s['params'] != n:
            raise mysql.connector.errors.ProgrammingError('Not all parameters were used in the SQL statement')
        table = s['table']
        if table not in self.schema:
            raise mysql.connector.errors.ProgrammingError("Table '%s' doesn't exist" % table)
        missing = sqleval.unknown_column(s, self.schema[table]['columns'])
        if missing is not None:
            raise mysql.connector.errors.ProgrammingError("Unknown column '%s'" % missing)
        if args is not None:
            args = dict((k, bound(v)) for k, v in args.items()) if isinstance(args, dict) else [bound(v) for v in args]
        kind = s['kind']
        if kind == 'select':
            return select(self, s, args), None
        self.uncommitted = self.uncommitted + 1
        if kind == 'insert':
            return None, insert(self, s, args)
        if kind == 'update':
            return None, update(self, s, args)
        return None, delete(self, s, args)


class Connection(db.Connection):
    def __init__(self, server):
        db.Connection.__init__(self, server)
        self.unread = None

    def cursor(self, *args, **kwargs):
        self.server.step('cursor', kwargs)
        c = Cursor(self, bool(kwargs.get('buffered')))
        self.cursors.append(c)
        return c

    def check_unread(self):
        if self.unread is not None:
            raise mysql.connector.errors.InternalError('Unread result found')

    def commit(self):
        self.check_unread()
        self.server.step('commit')
        self.server.commits = self.server.commits + 1
        self.server.uncommitted = 0


class Cursor(db.Cursor):
    def __init__(self, connection, buffered=False):
        db.Cursor.__init__(self, connection.server)
        self.connection = connection
        self.buffered = buffered

    def execute(self, statement, arguments=None, *args, **kwargs):
        self.connection.check_unread()
        self.server.step('execute', (statement, arguments))
        rows, new = self.server.run(statement, arguments)
        self.rows = []
        if new is not None:
            self.lastrowid = new
        if rows is not None:
            self.rows = rows
            if not self.buffered:
                self.connection.unread = self
        return None

    def fetchone(self):
        self.server.step('fetch')
        rows = self.rows
        if len(rows) == 0:
            self.read()
            return None
        row = rows[0]
        self.rows = rows[1:]
        if len(rows) == 1:
            self.read()
        return row

    def read(self):
        if self.connection.unread is self:
            self.connection.unread = None

    def fetchall(self):
        self.server.step('fetch')
        rows = self.rows
        self.rows = []
        self.read()
        return rows

    def fetchmany(self, size=1):
        self.server.step('fetch')
        rows = self.rows
        self.rows = rows[size:]
        if len(rows) <= size:
            self.read()
        return rows[:size]

    def __iter__(self):
        return self

    def __next__(self):
        row = self.fetchone()
        if row is None:
            raise StopIteration()
        return row

    next = __next__

    def close(self):
        try:
            self.server.step('cursor-close')
            self.connection.check_unread()
        finally:
            self.closed = True


# -- expressions

class Ops(object):
    """What conditions do with values that may be symbolic"""

    @staticmethod
    def compare(op, a, b):
        if op == '<=>':
            if a is None or b is None:
                return a is None and b is None
            return equal(a, b)
        if a is None or b is None:
            return None
        if op == '=':
            return equal(a, b)
        if op == '<>':
            return not equal(a, b)
        if op == '<':
            return less(a, b)
        if op == '>':
            return less(b, a)
        if op == '<=':
            return not less(b, a)
        return not less(a, b)

    @staticmethod
    def both(a, b):
        if a is not None and not a:
            return False
        if b is not None and not b:
            return False
        if a is None or b is None:
            return None
        return True

    @staticmethod
    def negate(v):
        return None if v is None else not v

    @staticmethod
    def is_null(v):
        return v is None

    @staticmethod
    def arith(op, a, b):
        if a is None or b is None:
            return None
        return a + b if op == '+' else (a - b if op == '-' else (a * b if op == '*' else a / b))

    @staticmethod
    def coalesce(values):
        out = None
        for v in values:
            if out is None:
                out = v
        return out


def less(a, b):
    """a < b, both not NULL"""
    if isinstance(a, datetime.date) and isinstance(b, datetime.date):
        return moment(a) < moment(b)
    return a < b


def moment(a):
    if isinstance(a, datetime.datetime):
        return a
    return datetime.datetime(a.year, a.month, a.day)


def equal(a, b):
    if isinstance(a, datetime.date) and isinstance(b, datetime.date):
        return moment(a) == moment(b)
    return a == b


def holds(v):
    """A condition is true (neither false nor NULL)"""
    return v is not None and bool(v)


def bound(v):
    """What the driver sends for a value"""
    if v is None or isinstance(v, (int, str, float, D, datetime.date, datetime.time, datetime.timedelta)):
        return v
    raise mysql.connector.errors.ProgrammingError('Failed processing format-parameters')


# -- queries

def evaluate(e, row, args, new=None):
    return sqleval.evaluate(e, row, args, Ops, new)


def candidates(rows, where, args):
    return sqleval.candidates(rows, where, args, Ops)


def select(base, s, args):
    rows = candidates(base.tables[s['table']], s['where'], args)
    if s['aggregate'] and not s['group']:
        return [tuple([aggregate(e, rows, args) for e in s['columns']])]
    if s['group']:
        return grouped(s, rows, args)
    if s['limit'] == 1 and len(s['order']) == 1:
        return first(s, rows, args)
    out = []
    for cond, row in rows:
        if holds(cond):
            key = [evaluate(e, row, args) for e, _ in s['order']]
            values = tuple([evaluate(e, row, args) for e in s['columns']])
            at = len(out)
            while at > 0 and before(key, out[at - 1][0], s['order']):
                at = at - 1
            out.insert(at, (key, values))
    if s['limit'] is not None:
        out = out[:s['limit']]
    return [values for _, values in out]


def before(a, b, order):
    """The row with key a comes before the row with key b"""
    for i, (_, descending) in enumerate(order):
        x, y = (b[i], a[i]) if descending else (a[i], b[i])
        if sorts_before(x, y):
            return True
        if sorts_before(y, x):
            return False
    return False


def sorts_before(x, y):
    """NULL comes first"""
    if x is None:
        return y is not None
    if y is None:
        return False
    return less(x, y)


def first(s, rows, args):
    """The first row of an ordered query, if any"""
    found = False
    best = None
    values = None
    order, descending = s['order'][0]
    for cond, row in rows:
        if holds(cond):
            key = evaluate(order, row, args)
            if not found or (sorts_before(best, key) if descending else sorts_before(key, best)):
                found = True
                best = key
                values = tuple([evaluate(e, row, args) for e in s['columns']])
    return [values] if found else []


def aggregate(e, rows, args):
    if e[0] != 'func' or e[1] not in sqlparse.AGGREGATES:
        raise sqleval.Unknown('expression over an aggregate')
    what = e[2][0]
    name = e[1]
    if name == 'COUNT':
        n = 0
        for cond, row in rows:
            if what[0] == 'star' or evaluate(what, row, args) is not None:
                n = n + (1 if holds(cond) else 0)
        return n
    n = 0
    out = None
    for cond, row in rows:
        v = evaluate(what, row, args)
        if v is not None and holds(cond):
            n = n + 1
            out = v if out is None else combined(name, out, v)
    if out is None or name == 'MIN' or name == 'MAX':
        return out
    return D(out) if name == 'SUM' else D(out) / n


def combined(name, a, b):
    if name == 'MIN':
        return b if less(b, a) else a
    if name == 'MAX':
        return b if less(a, b) else a
    return a + b


def grouped(s, rows, args):
    """Groups of one column, the one with most rows first"""
    if len(s['group']) != 1 or s['limit'] != 1 or len(s['order']) != 1:
        raise sqleval.Unknown('grouping')
    order, descending = s['order'][0]
    found = False
    best = None
    values = None
    for cond, row in rows:
        mine = evaluate(s['group'][0], row, args)
        members = [(holds(c) and Ops.compare('<=>', evaluate(s['group'][0], r, args), mine), r) for c, r in rows]
        members = [(c, r) for c, r in members if c is not False]
        key = aggregate(order, members, args) if sqlparse.aggregates(order) else evaluate(order, row, args)
        if holds(cond) and (not found or (sorts_before(best, key) if descending else sorts_before(key, best))):
            found = True
            best = key
            values = tuple([aggregate(e, members, args) if sqlparse.aggregates(e) else evaluate(e, row, args)
                            for e in s['columns']])
    return [values] if found else []


# -- changes

def stored(base, table, column, v):
    """What a column holds after v was written to it"""
    kind, nullable = base.schema[table]['columns'][column]
    if v is None:
        if not nullable:
            raise mysql.connector.errors.IntegrityError("Column '%s' cannot be null" % column)
        return None
    if kind.startswith('enum'):
        if not isinstance(v, str) or ("'" + v + "'") not in kind:
            raise mysql.connector.errors.DataError("Data truncated for column '%s'" % column)
        return v
    if kind == 'datetime':
        if not isinstance(v, datetime.date):
            raise mysql.connector.errors.DataError("Incorrect datetime value for column '%s'" % column)
        return moment(v)
    if kind == 'date':
        if not isinstance(v, datetime.date):
            raise mysql.connector.errors.DataError("Incorrect date value for column '%s'" % column)
        return v.date() if isinstance(v, datetime.datetime) else v
    if kind == 'time':
        if isinstance(v, datetime.datetime):
            return v.time()
        if not isinstance(v, (datetime.time, datetime.timedelta)):
            raise mysql.connector.errors.DataError("Incorrect time value for column '%s'" % column)
        return v
    if isinstance(v, (str, datetime.date, datetime.time, datetime.timedelta)):
        raise mysql.connector.errors.DataError("Incorrect value for column '%s'" % column)
    return v


def insert(base, s, args):
    table = s['table']
    schema = base.schema[table]
    new_id = None
    for column in s['columns']:
        if column not in schema['columns']:
            raise mysql.connector.errors.ProgrammingError("Unknown column '%s' in 'field list'" % column)
    for exprs in s['rows']:
        if len(exprs) != len(s['columns']):
            raise mysql.connector.errors.ProgrammingError("Column count doesn't match value count")
        row = {}
        for column in schema['columns']:
            row[column] = None
        for column, e in zip(s['columns'], exprs):
            if row[column] is not None:
                raise mysql.connector.errors.ProgrammingError("Column '%s' specified twice" % column)
            row[column] = stored(base, table, column, evaluate(e, {}, args))
        for column in schema['columns']:
            if column not in s['columns'] and column != schema['primary'] and not schema['columns'][column][1]:
                raise mysql.connector.errors.DatabaseError("Field '%s' doesn't have a default value" % column)
        there = clash(base, table, row)
        if there is None:
            rows = base.tables[table]
            if schema['primary'] is not None and row[schema['primary']] is None:
                new_id = len(rows) + 1
                row[schema['primary']] = new_id
            rows.append(row)
            base.writes.append(('insert', table, row))
        elif s['update']:
            for column, e in s['update']:
                there[column] = stored(base, table, column, evaluate(e, there, args, row))
            base.writes.append(('update', table, there))
        elif not s['ignore']:
            raise mysql.connector.errors.IntegrityError('Duplicate entry')
    return new_id


def clash(base, table, row):
    """The row that has the same unique key, if any"""
    for key in base.schema[table]['unique'] + [[base.schema[table]['primary']]]:
        for other in base.tables[table]:
            equal_key = True
            for column in key:
                if row[column] is None or not equal(row[column], other[column]):
                    equal_key = False
                    break
            if equal_key:
                return other
    return None


def update(base, s, args):
    table = s['table']
    for column, _ in s['set']:
        if column not in base.schema[table]['columns']:
            raise mysql.connector.errors.ProgrammingError("Unknown column '%s' in 'field list'" % column)
    for cond, row in candidates(base.tables[table], s['where'], args):
        if holds(cond):
            for column, e in s['set']:
                row[column] = stored(base, table, column, evaluate(e, row, args))
            base.writes.append(('update', table, row))
    return None


def delete(base, s, args):
    table = s['table']
    gone = []
    for cond, row in candidates(base.tables[table], s['where'], args):
        if holds(cond):
            base.writes.append(('delete', table, row))
            gone.append(row)
    base.tables[table] = [row for row in base.tables[table] if not any(row is g for g in gone)]
    return None
