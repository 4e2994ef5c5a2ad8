"""A stand-in for MySQL connections.  `with Installed(server): ...`"""
import mysql.connector


class Endless(Exception):
    """The code under test goes on and on"""


class Server(object):
    """`faults` maps (operation, n-th call or None) to what to raise if the operation fails; `answer(statement,
    arguments)` gives the rows of a query."""

    def __init__(self, faults=None, answer=None):
        self.faults = faults or {}
        self.counts = {}
        self.log = []
        self.connections = []
        self.answer = answer
        self.most = None  # the most steps a test should take

    def step(self, operation, value=None):
        n = self.counts.get(operation, 0)
        self.counts[operation] = n + 1
        self.log.append((operation, value))
        if self.most is not None and len(self.log) > self.most:
            raise Endless('more than %d steps' % self.most)
        error = self.faults.get((operation, n))
        if error is None:
            error = self.faults.get((operation, None))
        if error is not None:
            raise error

    def connect(self, *args, **kwargs):
        self.step('connect', (args, kwargs))
        c = Connection(self)
        self.connections.append(c)
        return c

    def open(self):
        return [c for c in self.connections if not c.closed]

    def open_cursors(self):
        return [k for c in self.connections for k in c.cursors if not k.closed]


class Connection(object):
    def __init__(self, server):
        self.server = server
        self.closed = False
        self.cursors = []

    def cursor(self, *args, **kwargs):
        self.server.step('cursor', kwargs)
        c = Cursor(self.server)
        self.cursors.append(c)
        return c

    def commit(self):
        self.server.step('commit')

    def rollback(self):
        self.server.step('rollback')

    def is_connected(self):
        return not self.closed

    def close(self):
        try:
            self.server.step('close')
        finally:
            self.closed = True


class Cursor(object):
    def __init__(self, server):
        self.server = server
        self.closed = False
        self.rows = []
        self.lastrowid = None
        self.rowcount = -1
        self.description = None

    def execute(self, statement, arguments=None, *args, **kwargs):
        self.server.step('execute', (statement, arguments))
        if self.server.answer is not None:
            rows = self.server.answer(statement, arguments, self)
            self.rows = [] if rows is None else list(rows)
        return None

    def fetchone(self):
        self.server.step('fetch')
        if not self.rows:
            return None
        row = self.rows[0]
        self.rows = self.rows[1:]
        return row

    def fetchall(self):
        self.server.step('fetch')
        rows = self.rows
        self.rows = []
        return rows

    def __iter__(self):
        self.server.step('fetch')
        rows = self.rows
        self.rows = []
        return iter(rows)

    def close(self):
        try:
            self.server.step('cursor-close')
        finally:
            self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class Installed(object):
    def __init__(self, server):
        self.server = server

    def __enter__(self):
        self.saved = mysql.connector.connect
        mysql.connector.connect = self.server.connect
        return self.server

    def __exit__(self, *args):
        mysql.connector.connect = self.saved
        return False
