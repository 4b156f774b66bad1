"""Effect of SQL statements on an abstract row.

The predicates of the statements only compare columns with parameters, constants and other columns; the rows are
quotiented accordingly (same/other queue, same/other transaction, the three states, before/at/after now, ...), so a
statement is a finite function on the abstract rows.  That function is computed from the text and compared with the
one the property requires.
"""
from fractions import Fraction
from .. import sql
from ..facts import AnalysisError

NOW = 1000000            # microseconds; the abstract present
JULIAN = Fraction(4881175, 2) + Fraction(NOW, 86400 * 10**6)


class Cannot(Exception):
    pass


def parse(text):
    try:
        st, params = sql.parse(text)
    except sql.SqlError as e:
        raise AnalysisError(f'sql not understood: {e}: {" ".join(text.split())[:100]}')
    return st, params


class Eval:
    """tables: {name: [rows]} for sub selects; row: the current row; params: values by position"""

    def __init__(self, table, row, params, tables, extra=None):
        self.table, self.row, self.params, self.tables, self.extra = table, row, params, tables, extra or {}
        self.inner = []

    def col(self, t, n):
        for alias, table, row in reversed(self.inner):
            if (t is None and n in row) or t in (alias, table) and n in row:
                return row[n]
        if t in ('new', 'old') and t in self.extra:
            return self.extra[t][n]
        if n in self.row:
            return self.row[n]
        if n in ('rowid', '_rowid_', 'oid') and 'rowid' in self.row:
            return self.row['rowid']
        raise Cannot(f'column {n}')

    def ev(self, e):
        k = e[0]
        if k in ('num',):
            return Fraction(str(e[1])) if isinstance(e[1], float) else e[1]
        if k == 'str':
            return e[1]
        if k == 'null':
            return None
        if k == 'param':
            if e[1] >= len(self.params):
                return None
            v = self.params[e[1]]
            if v is Ellipsis:
                raise Cannot('parameter')
            return v
        if k == 'col':
            return self.col(e[1], e[2])
        if k == 'not':
            v = self.ev(e[1])
            return None if v is None else not v
        if k == 'in':
            a = self.ev(e[1])
            return None if a is None else a in [self.ev(x) for x in e[2]]
        if k == 'case':
            for c, v in e[1]:
                if self.ev(c):
                    return self.ev(v)
            return self.ev(e[2]) if e[2] is not None else None
        if k == 'sel':
            s = e[1]
            for r in self.tables.get(s['table'], []):
                self.inner.append((s['alias'], s['table'], r))
                try:
                    if s['where'] is None or self.ev(s['where']):
                        return self.ev(s['cols'][0])
                finally:
                    self.inner.pop()
            return None
        if k == 'fn':
            n = e[1]
            if n == 'coalesce':
                for a in e[2]:
                    v = self.ev(a)
                    if v is not None:
                        return v
                return None
            if n == 'ifnull':
                v = self.ev(e[2][0])
                return self.ev(e[2][1]) if v is None else v
            if n == 'length':
                v = self.ev(e[2][0])
                return None if v is None else v[1] if isinstance(v, tuple) and v[0] == 'len' else len(v) if isinstance(v, str) else ('len of', v)
            if n == 'julianday':
                if len(e[2]) == 1 and e[2][0] in (('str', "'now'"), ('str', 'now')):
                    return JULIAN
                raise Cannot('julianday')
            if n in ('max', 'min') and len(e[2]) == 2:
                return (max if n == 'max' else min)(self.ev(e[2][0]), self.ev(e[2][1]))
            raise Cannot('function ' + n)
        if k == 'op':
            o = e[1]
            if o in ('and', 'or'):
                a = self.ev(e[2])
                if (o == 'and' and a is not None and not a) or (o == 'or' and a):
                    return bool(a)
                b = self.ev(e[3])
                if (o == 'and' and b is not None and not b) or (o == 'or' and b):
                    return bool(b)
                return None if a is None or b is None else (o == 'and')
            a, b = self.ev(e[2]), self.ev(e[3])
            if a is None or b is None:
                return None
            if o == '=':
                return a == b
            if o == '!=':
                return a != b
            try:
                return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '+': lambda: a + b, '-': lambda: a - b,
                        '*': lambda: a * b, '%': lambda: a % b, '/': lambda: (a / b if isinstance(a, Fraction) or isinstance(b, Fraction) else a // b)}[o]()
            except (KeyError, TypeError):
                raise Cannot('operator ' + o)
        raise Cannot(k)


def selects(st, params, row, tables):
    """is the row matched by the statement's condition"""
    return st['where'] is None or bool(Eval(st['table'], row, params, tables).ev(st['where']))


def apply(text, params, row, tables, table='message'):
    """the row after the statement: a row, or None when deleted; raises Cannot"""
    sts, ps = parse(text)
    for st in sts:
        if st['op'] in ('table', 'trigger', 'other', 'select'):
            continue
        if st['table'] != table or row is None:
            continue
        if st['op'] == 'insert':
            continue
        if not selects(st, params, row, tables):
            continue
        if st['op'] == 'delete':
            return None
        if st['op'] == 'update':
            E = Eval(table, row, params, tables)
            new = dict(row)
            for c, e in st['set']:
                new[c] = E.ev(e)
            row = new
    return row


def mutates(text, table=None):
    return any(s['op'] in ('insert', 'update', 'delete') and (table is None or s['table'] == table) for s in parse(text)[0])


def columns(texts):
    """{table: [columns]} from the create table statements"""
    out = {}
    for t in texts:
        for s in parse(t)[0]:
            if s['op'] == 'table':
                out[s['table']] = s['cols']
    return out
