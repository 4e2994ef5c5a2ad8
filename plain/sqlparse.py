"""A parser for the SQL that the MySQL exporter may use.  (Not executed symbolically: statements are plain text.)"""
import re

TOKEN = re.compile(r"""\s*(?:
    (?P<number>\d+\.\d+|\d+)
  | (?P<name>[A-Za-z_][A-Za-z0-9_$]*|`[^`]+`)
  | (?P<string>'(?:[^'\\]|''|\\.)*'|"(?:[^"\\]|""|\\.)*")
  | (?P<param>%s|%\([A-Za-z_0-9]+\)s)
  | (?P<op><=>|<=|>=|<>|!=|[-+*/=<>(),.;])
)""", re.X)

AGGREGATES = ('MIN', 'MAX', 'AVG', 'SUM', 'COUNT')


class SQLError(Exception):
    """Not understood"""


class Parser(object):
    def __init__(self, text):
        self.toks = []
        pos = 0
        text = text.rstrip()
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                raise SQLError('cannot read %r' % text[pos:pos + 30])
            pos = m.end()
            kind = m.lastgroup
            self.toks.append((kind, m.group(kind)))
        self.i = 0
        self.params = 0

    def peek(self, *words):
        if self.i >= len(self.toks):
            return False
        kind, t = self.toks[self.i]
        return (kind in ('name', 'op')) and t.upper() in words

    def take(self, *words):
        if self.peek(*words):
            self.i += 1
            return self.toks[self.i - 1][1].upper()
        return None

    def need(self, *words):
        t = self.take(*words)
        if t is None:
            raise SQLError('expected %s at %r' % ('/'.join(words), self.toks[self.i:self.i + 3]))
        return t

    def name(self):
        if self.i >= len(self.toks) or self.toks[self.i][0] != 'name':
            raise SQLError('expected a name at %r' % (self.toks[self.i:self.i + 3],))
        self.i += 1
        t = self.toks[self.i - 1][1].strip('`')
        if self.take('.'):
            return self.name()
        return t

    def listed(self, f):
        out = [f()]
        while self.take(','):
            out.append(f())
        return out

    # -- expressions
    def expr(self):
        parts = [self.conj()]
        while self.take('OR'):
            parts.append(self.conj())
        return parts[0] if len(parts) == 1 else ('or', parts)

    def conj(self):
        parts = [self.negation()]
        while self.take('AND'):
            parts.append(self.negation())
        return parts[0] if len(parts) == 1 else ('and', parts)

    def negation(self):
        if self.take('NOT'):
            return ('not', self.negation())
        return self.comparison()

    def comparison(self):
        a = self.sum()
        while True:
            op = self.take('=', '<', '>', '<=', '>=', '<>', '!=', '<=>')
            if op:
                a = ('cmp', '<>' if op == '!=' else op, a, self.sum())
                continue
            if self.take('IS'):
                no = self.take('NOT')
                self.need('NULL')
                a = ('isnull', a)
                if no:
                    a = ('not', a)
                continue
            no = None
            if self.peek('NOT'):
                self.i += 1
                no = True
            if self.take('BETWEEN'):
                lo = self.sum()
                self.need('AND')
                e = ('and', [('cmp', '>=', a, lo), ('cmp', '<=', a, self.sum())])
            elif self.take('IN'):
                self.need('(')
                e = ('or', [('cmp', '=', a, x) for x in self.listed(self.sum)])
                self.need(')')
            elif no:
                raise SQLError('NOT')
            else:
                return a
            a = ('not', e) if no else e

    def sum(self):
        a = self.product()
        while self.peek('+', '-'):
            op = self.take('+', '-')
            a = ('arith', op, a, self.product())
        return a

    def product(self):
        a = self.primary()
        while self.peek('*', '/'):
            op = self.take('*', '/')
            a = ('arith', op, a, self.primary())
        return a

    def primary(self):
        if self.take('('):
            if self.peek('SELECT'):
                raise SQLError('subquery')
            e = self.expr()
            self.need(')')
            return e
        if self.take('-'):
            return ('arith', '-', ('lit', 0), self.primary())
        if self.i >= len(self.toks):
            raise SQLError('unexpected end')
        kind, t = self.toks[self.i]
        if kind == 'number':
            self.i += 1
            return ('lit', int(t) if '.' not in t else ('decimal', t))
        if kind == 'string':
            self.i += 1
            return ('lit', t[1:-1].replace(t[0] * 2, t[0]))
        if kind == 'param':
            self.i += 1
            if t == '%s':
                self.params += 1
                return ('param', self.params - 1)
            return ('param', t[2:-2])
        if kind == 'op' and t == '*':
            self.i += 1
            return ('star',)
        if kind == 'name':
            up = t.upper()
            if up in ('NULL', 'TRUE', 'FALSE'):
                self.i += 1
                return ('lit', {'NULL': None, 'TRUE': 1, 'FALSE': 0}[up])
            if up == 'VALUES' or self.i + 1 < len(self.toks) and self.toks[self.i + 1] == ('op', '('):
                self.i += 1
                self.need('(')
                if self.take('DISTINCT'):
                    raise SQLError('DISTINCT')
                args = [] if self.peek(')') else self.listed(self.expr)
                self.need(')')
                return ('func', up, args)
            return ('col', self.name())
        raise SQLError('unexpected %r' % t)

    # -- statements
    def statement(self):
        word = self.need('SELECT', 'INSERT', 'UPDATE', 'DELETE')
        s = getattr(self, word.lower())()
        self.take(';')
        if self.i < len(self.toks):
            raise SQLError('trailing %r' % (self.toks[self.i:self.i + 3],))
        s['params'] = self.params
        return s

    def select(self):
        if self.take('DISTINCT'):
            raise SQLError('DISTINCT')
        s = {'kind': 'select', 'where': None, 'group': [], 'order': [], 'limit': None}

        def column():
            e = self.expr()
            if self.take('AS'):
                self.name()
            return e
        s['columns'] = self.listed(column)
        self.need('FROM')
        s['table'] = self.name()
        if self.take('WHERE'):
            s['where'] = self.expr()
        if self.take('GROUP'):
            self.need('BY')
            s['group'] = self.listed(self.expr)
        if self.take('ORDER'):
            self.need('BY')
            s['order'] = self.listed(self.ordering)
        if self.take('LIMIT'):
            if self.toks[self.i][0] != 'number':
                raise SQLError('LIMIT')
            s['limit'] = int(self.toks[self.i][1])
            self.i += 1
        s['aggregate'] = any(aggregates(e) for e in s['columns'])
        return s

    def ordering(self):
        e = self.expr()
        return (e, self.take('ASC', 'DESC') == 'DESC')

    def assignment(self):
        n = self.name()
        self.need('=')
        return (n, self.expr())

    def insert(self):
        s = {'kind': 'insert', 'update': [], 'ignore': bool(self.take('IGNORE'))}
        self.need('INTO')
        s['table'] = self.name()
        self.need('(')
        s['columns'] = [] if self.peek(')') else self.listed(self.name)
        self.need(')')
        self.need('VALUES')

        def row():
            self.need('(')
            r = [] if self.peek(')') else self.listed(self.expr)
            self.need(')')
            return r
        s['rows'] = self.listed(row)
        if self.take('ON'):
            self.need('DUPLICATE')
            self.need('KEY')
            self.need('UPDATE')
            s['update'] = self.listed(self.assignment)
        return s

    def update(self):
        s = {'kind': 'update', 'table': self.name(), 'where': None}
        self.need('SET')
        s['set'] = self.listed(self.assignment)
        if self.take('WHERE'):
            s['where'] = self.expr()
        return s

    def delete(self):
        self.need('FROM')
        s = {'kind': 'delete', 'table': self.name(), 'where': None}
        if self.take('WHERE'):
            s['where'] = self.expr()
        return s


def aggregates(e):
    return e[0] == 'func' and e[1] in AGGREGATES


_CACHE = {}


def parse(text):
    """The statement as a dict, or a text saying why it is not understood"""
    got = _CACHE.get(text)
    if got is None:
        try:
            got = Parser(text).statement()
        except SQLError as e:
            got = str(e)
        _CACHE[text] = got
    return got


def schema(path):
    """{table: {'columns': {name: (type, null?)}, 'primary': name, 'unique': [[column, ...]]}} of a file of CREATE TABLEs"""
    with open(path, 'rb') as f:
        text = f.read().decode('utf-8')
    out = {}
    for m in re.finditer(r'CREATE TABLE `(\w+)` \((.*?)\n\)', text, re.S):
        t = out[m.group(1)] = {'columns': {}, 'primary': None, 'unique': []}
        for line in m.group(2).split('\n'):
            line = line.strip()
            c = re.match(r'`(\w+)` (\w+(?:\([^)]*\))?)(.*)', line)
            if c:
                t['columns'][c.group(1)] = (c.group(2), 'NOT NULL' not in c.group(3).split('COMMENT')[0])
            c = re.match(r'PRIMARY KEY \(`(\w+)`\)', line)
            if c:
                t['primary'] = c.group(1)
            c = re.match(r'UNIQUE INDEX `[^`]+` \(([^)]*)\)', line)
            if c:
                t['unique'].append([x.strip(' `') for x in c.group(1).split(',')])
    return out
