"""A small SQL front end (the subset sqlite users write): tokens -> statements -> expressions."""
import re

TOKEN = re.compile(r"""\s+|--[^\n]*|/\*.*?\*/|(?P<str>'(?:[^']|'')*')|(?P<num>\d+(?:\.\d+)?)|(?P<param>:[A-Za-z_]\w*|\?\d*)|(?P<id>[A-Za-z_]\w*|"[^"]*")|(?P<op><=|>=|<>|!=|==|\|\||[-+*/%<>=(),.;&|])""", re.S)


class SqlError(Exception):
    pass


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise SqlError(f'unexpected {s[i:i+20]!r}')
        i = m.end()
        for k in ('str', 'num', 'param', 'id', 'op'):
            if m.group(k) is not None:
                v = m.group(k)
                out.append((k, v.lower() if k == 'id' else v))
    return out


class Parser:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0
        self.params = []   # in order of appearance: name or '?'

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else (None, None)

    def at(self, *vs):
        for n, v in enumerate(vs):
            if self.peek(n)[1] != v:
                return False
        return True

    def take(self, *vs):
        if self.at(*vs):
            self.i += len(vs)
            return True
        return False

    def want(self, v):
        if not self.take(v):
            raise SqlError(f'expected {v} at {self.peek()}')

    def ident(self):
        k, v = self.peek()
        if k != 'id':
            raise SqlError(f'expected a name at {self.peek()}')
        self.i += 1
        return v.strip('"')

    # ---- expressions: ('col', table|None, name) ('num', v) ('str', v) ('param', key) ('op', o, a, b) ('not', a) ('fn', name, args) ('sel', stmt) ('case', [(c, v)], else) ('in', a, [..])
    def expr(self):
        return self.p_or()

    def p_or(self):
        a = self.p_and()
        while self.take('or'):
            a = ('op', 'or', a, self.p_and())
        return a

    def p_and(self):
        a = self.p_not()
        while self.take('and'):
            a = ('op', 'and', a, self.p_not())
        return a

    def p_not(self):
        if self.take('not'):
            return ('not', self.p_not())
        return self.p_cmp()

    def p_cmp(self):
        a = self.p_add()
        while True:
            k, v = self.peek()
            if v in ('=', '==', '!=', '<>', '<', '>', '<=', '>='):
                self.i += 1
                a = ('op', {'==': '=', '<>': '!='}.get(v, v), a, self.p_add())
            elif v == 'is':
                self.i += 1
                neg = self.take('not')
                b = self.p_add()
                a = ('op', '!=' if neg else '=', a, b)
            elif v == 'in' or (v == 'not' and self.peek(1)[1] == 'in'):
                neg = self.take('not')
                self.want('in')
                self.want('(')
                if self.at('select'):
                    xs = [('sel', self.select())]
                else:
                    xs = [self.expr()]
                    while self.take(','):
                        xs.append(self.expr())
                self.want(')')
                a = ('in', a, tuple(xs))
                if neg:
                    a = ('not', a)
            elif v == 'between':
                self.i += 1
                lo = self.p_add()
                self.want('and')
                hi = self.p_add()
                a = ('op', 'and', ('op', '>=', a, lo), ('op', '<=', a, hi))
            else:
                return a

    def p_add(self):
        a = self.p_mul()
        while self.peek()[1] in ('+', '-', '||', '&', '|'):
            o = self.peek()[1]
            self.i += 1
            a = ('op', o, a, self.p_mul())
        return a

    def p_mul(self):
        a = self.p_prim()
        while self.peek()[1] in ('*', '/', '%'):
            o = self.peek()[1]
            self.i += 1
            a = ('op', o, a, self.p_prim())
        return a

    def p_prim(self):
        k, v = self.peek()
        if v == '(':
            self.i += 1
            e = ('sel', self.select()) if self.at('select') else self.expr()
            self.want(')')
            return e
        if v == '-':
            self.i += 1
            return ('op', '-', ('num', 0), self.p_prim())
        if k == 'num':
            self.i += 1
            return ('num', float(v) if '.' in v else int(v))
        if k == 'str':
            self.i += 1
            return ('str', v)
        if k == 'param':
            self.i += 1
            if v.startswith('?'):
                self.params.append(v)
                return ('param', len(self.params) - 1)
            if v not in self.params:
                self.params.append(v)
            return ('param', self.params.index(v))
        if v == '*':
            self.i += 1
            return ('col', None, '*')
        if v == 'case':
            self.i += 1
            arms, els = [], None
            while self.take('when'):
                c = self.expr()
                self.want('then')
                arms.append((c, self.expr()))
            if self.take('else'):
                els = self.expr()
            self.want('end')
            return ('case', tuple(arms), els)
        if v == 'null':
            self.i += 1
            return ('null',)
        if v == 'distinct':
            self.i += 1
            return self.p_prim()
        name = self.ident()
        if self.take('('):
            args = []
            if not self.at(')'):
                self.take('distinct')
                args.append(self.expr())
                while self.take(','):
                    args.append(self.expr())
            self.want(')')
            return ('fn', name, tuple(args))
        if self.take('.'):
            if self.take('*'):
                return ('col', name, '*')
            return ('col', name, self.ident())
        return ('col', None, name)

    # ---- statements
    def exprs(self):
        xs = [self.expr()]
        while self.take(','):
            xs.append(self.expr())
        return xs

    def select(self):
        self.want('select')
        self.take('distinct')
        cols = [self.expr()]
        if self.take('as'):
            self.ident()
        while self.take(','):
            cols.append(self.expr())
            if self.take('as'):
                self.ident()
        st = dict(op='select', cols=cols, table=None, alias=None, where=None, order=[], limit=None)
        if self.take('from'):
            st['table'] = self.ident()
            if self.peek()[0] == 'id' and self.peek()[1] not in ('where', 'order', 'limit', 'group'):
                self.take('as')
                st['alias'] = self.ident()
        if self.take('where'):
            st['where'] = self.expr()
        if self.take('group', 'by'):
            st['group'] = self.exprs()
        if self.take('order', 'by'):
            while True:
                e = self.expr()
                d = 'desc' if self.take('desc') else 'asc'
                self.take('asc')
                st['order'].append((e, d))
                if not self.take(','):
                    break
        if self.take('limit'):
            st['limit'] = self.expr()
        return st

    def returning(self, st):
        st['returning'] = self.exprs() if self.take('returning') else []
        return st

    def statement(self):
        if self.at('select'):
            return self.select()
        if self.take('update'):
            st = dict(op='update', table=self.ident(), set=[], where=None)
            self.want('set')
            while True:
                c = self.ident()
                self.want('=')
                st['set'].append((c, self.expr()))
                if not self.take(','):
                    break
            if self.take('where'):
                st['where'] = self.expr()
            return self.returning(st)
        if self.take('delete'):
            self.want('from')
            st = dict(op='delete', table=self.ident(), where=None)
            if self.take('where'):
                st['where'] = self.expr()
            return self.returning(st)
        if self.take('insert') or self.take('replace'):
            if self.take('or'):
                self.ident()
            self.want('into')
            st = dict(op='insert', table=self.ident(), cols=None)
            if self.take('('):
                st['cols'] = [self.ident()]
                while self.take(','):
                    st['cols'].append(self.ident())
                self.want(')')
            self.want('values')
            self.want('(')
            st['values'] = self.exprs()
            self.want(')')
            return self.returning(st)
        if self.at('create', 'table'):
            self.i += 2
            self.take('if', 'not', 'exists')
            st = dict(op='table', table=self.ident(), cols=[])
            self.want('(')
            while not self.take(')'):
                if self.at('foreign') or self.at('primary') or self.at('unique') or self.at('constraint'):
                    self.skip_def()
                else:
                    st['cols'].append(self.ident())
                    self.skip_def()
                self.take(',')
            return st
        if self.at('create', 'trigger'):
            self.i += 2
            self.take('if', 'not', 'exists')
            st = dict(op='trigger', name=self.ident(), of=[], body=[])
            for w in ('before', 'after', 'instead'):
                if self.take(w):
                    st['when'] = w
            st['event'] = self.ident()
            if self.take('of'):
                st['of'].append(self.ident())
                while self.take(','):
                    st['of'].append(self.ident())
            self.want('on')
            st['table'] = self.ident()
            if self.take('for'):
                self.take('each')
                self.take('row')
            st['cond'] = self.expr() if self.take('when') else None
            self.want('begin')
            while not self.take('end'):
                st['body'].append(self.statement())
                self.take(';')
            return st
        # anything else: skip to ;
        st = dict(op='other', what=self.peek()[1])
        while self.i < len(self.t) and not self.at(';'):
            self.i += 1
        return st

    def skip_def(self):
        d = 0
        while self.i < len(self.t):
            v = self.peek()[1]
            if d == 0 and v in (',', ')'):
                return
            if v == '(':
                d += 1
            if v == ')':
                d -= 1
            self.i += 1

    def all(self):
        out = []
        while self.i < len(self.t):
            if self.take(';'):
                continue
            out.append(self.statement())
        return out


def parse(text):
    p = Parser(text)
    st = p.all()
    return st, p.params


def conjuncts(e):
    if e is None:
        return []
    if e[0] == 'op' and e[1] == 'and':
        return conjuncts(e[2]) + conjuncts(e[3])
    return [e]


def text(e):
    if e is None:
        return ''
    k = e[0]
    if k == 'col':
        return (e[1] + '.' if e[1] else '') + e[2]
    if k in ('num', 'str'):
        return str(e[1])
    if k == 'param':
        return f'?{e[1]}'
    if k == 'op':
        return f'({text(e[2])} {e[1]} {text(e[3])})'
    if k == 'fn':
        return f"{e[1]}({', '.join(text(a) for a in e[2])})"
    if k == 'in':
        return f"{text(e[1])} in ({', '.join(text(a) for a in e[2])})"
    if k == 'not':
        return f'not {text(e[1])}'
    if k == 'case':
        return 'case ' + ' '.join(f'when {text(c)} then {text(v)}' for c, v in e[1]) + f' else {text(e[2])}'
    if k == 'sel':
        s = e[1]
        return f"(select {', '.join(text(c) for c in s['cols'])} from {s['table']} where {text(s['where'])})"
    return k


class Unknown(Exception):
    pass


def evaluate(e, env):
    """value of an expression over a finite abstract row; env(col expression) -> value, raises Unknown"""
    k = e[0]
    if k in ('num', 'str'):
        return e[1]
    if k == 'null':
        return None
    if k in ('col', 'param', 'fn', 'sel', 'case'):
        return env(e)
    if k == 'not':
        return not evaluate(e[1], env)
    if k == 'in':
        return evaluate(e[1], env) in [evaluate(x, env) for x in e[2]]
    if k == 'op':
        o = e[1]
        if o in ('and', 'or'):
            vs = []
            for x in (e[2], e[3]):
                try:
                    v = evaluate(x, env)
                except Unknown:
                    v = None
                    vs.append(v)
                    continue
                if bool(v) != (o == 'and'):
                    return o == 'or'
                vs.append(v)
            if None in vs:
                raise Unknown()
            return o == 'and'
        a, b = evaluate(e[2], env), evaluate(e[3], env)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if o == '=':
                return a == b
            if o == '!=':
                return a != b
            raise Unknown()
        try:
            return {'=': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
                    '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '%': lambda: a % b, '/': lambda: a // b}[o]()
        except (KeyError, TypeError):
            raise Unknown()
    raise Unknown()
