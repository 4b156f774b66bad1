"""SQL used by a component: prepared statements, what is executed on which path with which values, where results go.

Statement objects are identified by the members they are stored in; the text of every statement comes from the
(constant folded) argument of precompile/execute/query.  Executions are events of a path:
  ('sql', text, (argument terms), site)        site = (file, line)
Rows are values: ('call', 'sql.row', (query,)), columns ('call', 'sql.column', (query, index)).
"""
import re
from ..interp import Interp, Rule, Budget, State, path, root, strip_hv, contains, dedupe
from .. import facts, model, sql
from ..facts import AnalysisError

NS = r'^sql::database::'
PRECOMPILE = re.compile(NS + r'Connection::precompile$')
CONN_EXEC = re.compile(NS + r'Connection::(execute|statement)$')
CONN_QUERY = re.compile(NS + r'Connection::query$')
ST_EXEC = re.compile(NS + r'Statement::execute$')
ST_QUERY = re.compile(NS + r'Statement::query$')
Q_FETCH = re.compile(NS + r'Statement::Query::fetch$')
Q_EXEC = re.compile(NS + r'Statement::Query::execute$')
FETCH = re.compile(NS + r'query::(fetch|first)$')
ROW_GET = re.compile(NS + r'row::get$')
ROW_GET1 = re.compile(NS + r'Row::get$')
TX = re.compile(NS + r'Connection::(begin|exclusive_begin|commit|rollback)$')
ANY = re.compile(NS)
QUIET = re.compile(r'(log::line|log::error|log::write|Trace::Trace|Trace::~Trace|verbose::error|log::category)$|^casual::common::log::')
SWAP = re.compile(r'^std::(ranges::)?swap$|^std::(vector|deque|list|basic_string|optional)<.*>::swap$')


def literal(P, v, depth=0):
    """constant string of a value, or None"""
    if not isinstance(v, tuple) or not v or depth > 8:
        return None
    if v[0] == 'c' and isinstance(v[1], str):
        s = v[1]
        return s[1:-1] if len(s) > 1 and s[0] == '"' and s[-1] == '"' else s
    if v[0] == 'new' and v[2]:
        return literal(P, v[2][0], depth + 1)
    if v[0] in ('upd', 'hv', 'bool'):
        return literal(P, v[1], depth + 1)
    if v[0] == 'call' and v[2] and re.search(r'(operator std::|operator basic_string|::data|::c_str|string_view|compose$)', v[1]):
        if v[1].endswith('compose'):
            parts = [literal(P, x, depth + 1) for x in v[2]]
            return None if None in parts else ''.join(parts)
        return literal(P, v[2][0], depth + 1)
    if v[0] == 'sym':
        g = P.global_qn(v[1])
        i = g.get('init') if g else None
        while i is not None and i['k'] in ('cast', 'ctor', 'init') :
            i = i.get('e') or (i.get('a') or [None])[0]
        if i is not None and i['k'] == 'str':
            return i.get('v')
    return None


def tail(t):
    """member names of an lvalue, innermost object first"""
    p = []
    t = strip_hv(t)
    while isinstance(t, tuple) and t and t[0] in ('mem', 'hv', 'upd', 'deref', 'addr'):
        if t[0] == 'mem':
            p.append(t[2])
        t = t[1]
    return tuple(reversed(p))


class Statements(Rule):
    """finds what precompile() results are stored in"""
    try_may_throw = False

    def __init__(self, P):
        self.P, self.found = P, []

    def on_call(self, I, fr, node, name, obj, args, st):
        if not name:
            return None
        self.here = fr.id
        if QUIET.search(name):
            return [(('c', None), st)]
        if PRECOMPILE.search(name):
            txt = literal(self.P, I.read(args[0], st))
            return [(('call', 'sql.prepared', (('c', txt),), (fr.F.file, node.get('l'))), st)]
        if ANY.search(name) and 'operator' not in name:
            return [(('c', None), st)]
        return None

    def on_assign(self, I, fr, node, lhs, val, st):
        if isinstance(val, tuple) and val and val[0] == 'call' and val[1] == 'sql.prepared':
            self.found.append((tail(lhs), val[2][0][1], val[3]))
        return st


def prepared(P, file):
    """{member tail: (text, where)} of every prepared statement in files matching"""
    cached = getattr(P, '_prepared', {})
    if file in cached:
        return cached[file]
    out = {}
    for F in P.find(file=file):
        if F.d.get('lambda') or not any(n['k'] == 'call' and PRECOMPILE.search(F.name(n) or '') for n in all_nodes(P, F)):
            continue
        r = Statements(P)
        I = Interp(P, r)
        I.run(F, ()) if F.body else None
        for t, txt, where in r.found:
            if t in out and out[t][0] != txt:
                raise AnalysisError(f'two texts for the prepared statement {".".join(t)}')
            out[t] = (txt, where)
    cached[file] = out
    P._prepared = cached
    return out


def all_nodes(P, F):
    yield from facts.walk(F.body)
    for n in facts.walk(F.body):
        if n['k'] == 'lambda':
            for f in n['f']:
                if f in P.funcs:
                    yield from all_nodes(P, P.funcs[f])


def resolve(prep, t):
    tl = tail(t)
    best = None
    for k in prep:
        if tl[-len(k):] == k and (best is None or len(k) > len(best)):
            best = k
    return prep[best] if best else None


class Uses(Rule):
    """auto: tuple of events"""
    try_may_throw = False
    keep = None       # more calls to record: [(regex, tag)]

    def __init__(self, P, prep, scope=None):
        self.P, self.prep, self.unresolved = P, prep, []
        self.scope = scope

    here = None

    def swap(self, I, fr, node, two, st):
        """two values change places"""
        vals = [I.rvalue(x, st) for x in two]
        vals = [v if v[0] in ('new', 'c', 'call') else ('call', 'std::exchange', (v,), None) for v in vals]
        watch = getattr(self, 'watch', None)
        for x in two:
            if watch and re.search(watch, path(x)) and root(x)[0] != 'v':
                st = self.event(st, ('shrink', path(x), (), (fr.F.file, node.get('l'))))
        for x, v in zip(two, reversed(vals)):
            st = I.write(x, v, st)
        return [(('c', None), st)]

    def event(self, st, e):
        """events of one dynamic context (chain of call sites) are recorded once: loops stay finite"""
        e = e + (('in', self.here),)
        if isinstance(st.auto, tuple) and e in st.auto:
            return st
        if len(st.auto) > 40:
            return st
        return st.with_auto(st.auto + (e,))

    def inline(self, F, node):
        return True

    def arg_values(self, I, args, st):
        return tuple(I.rvalue(a, st) for a in args)

    def text_of(self, I, fr, node, obj, st):
        r = resolve(self.prep, obj)
        if r is None:
            r = resolve(self.prep, I.read(obj, st))
        if r is None:
            v = I.read(obj, st)
            if v[0] == 'call' and v[1] == 'sql.prepared':
                r = (v[2][0][1], v[3])
        if r is None or r[0] is None:
            self.unresolved.append((fr.F, node))
            return None
        return r[0]

    def run_sql(self, I, fr, node, text, vals, st):
        return self.event(st, ('sql', text, vals, (fr.F.file, node.get('l'))))

    def query(self, text, vals, fr, node):
        return ('call', 'sql.query', (('c', text),) + vals, (fr.F.file, node.get('l')))

    def step(self, I, fr, node, q, st):
        q = I.read(q, st)
        while q[0] in ('upd', 'hv', 'bool'):
            q = q[1]
        if q[0] == 'call' and q[1] == 'sql.query':
            return q, self.event(st, ('sql', q[2][0][1], q[2][1:], q[3]))
        self.unresolved.append((fr.F, node))
        return None, st

    def on_call(self, I, fr, node, name, obj, args, st):
        if not name:
            return None
        self.here = fr.id
        if QUIET.search(name):
            return [(('c', None), st)]
        if SWAP.search(name):
            two = list(args) if obj is None else [obj] + list(args)
            if len(two) == 2:
                return self.swap(I, fr, node, two, st)
        r = self.special(I, fr, node, name, obj, args, st)
        if r is not None:
            return r
        if not ANY.search(name) or 'operator' in name:
            return None
        if PRECOMPILE.search(name):
            return [(('call', 'sql.prepared', (('c', literal(self.P, I.read(args[0], st))),), (fr.F.file, node.get('l'))), st)]
        if CONN_EXEC.search(name) or CONN_QUERY.search(name):
            txt = literal(self.P, I.read(args[0], st))
            if txt is None:
                self.unresolved.append((fr.F, node))
            vals = self.arg_values(I, args[1:], st)
            if CONN_QUERY.search(name):
                return [(self.query(txt, vals, fr, node), st)]
            return [(('c', None), self.run_sql(I, fr, node, txt, vals, st))]
        if ST_EXEC.search(name) or ST_QUERY.search(name):
            txt = self.text_of(I, fr, node, obj, st)
            vals = self.arg_values(I, args, st)
            if ST_QUERY.search(name):
                return [(self.query(txt, vals, fr, node), st)]
            return [(('c', None), self.run_sql(I, fr, node, txt, vals, st))]
        if Q_FETCH.search(name):
            q, s = self.step(I, fr, node, obj, st)
            if args:
                ret = ('call', 'sql.found', (q,), I.site(fr, node))
                out = []
                for b, s2 in I.truth(ret, I.fresh_call(ret, s)):
                    if b:
                        s2 = I.write(args[0], ('call', 'sql.row', (q,), None), s2)
                    out.append((('c', b), s2))
                return out
            return [(('call', 'sql.rows', (q,), None), s)]
        if Q_EXEC.search(name):
            q, s = self.step(I, fr, node, obj, st)
            return [(('c', None), s)]
        if FETCH.search(name):
            q, s = self.step(I, fr, node, args[0], st)
            row = ('call', 'sql.row', (q,), None)
            fn = I.read(args[1], s)
            out = []
            for v, s2 in self.apply(I, fr, node, fn, row, s):
                v = I.rvalue(v, s2)
                if name.endswith('first'):
                    out.append((('call', 'sql.first', (q, v), None), s2))
                else:
                    out.append((('call', 'sql.all', (q, v), None), s2))
            return out
        if ROW_GET.search(name):
            row = I.read(args[0], st)
            dests = args[1:]
            off = 0
            if dests and node['a'][1] is not None and 'offset' in fr.F.t(node['a'][1]):
                dests = dests[1:]
                off = None
            return [(('c', None), self.columns(I, fr, node, row, dests, off, st))]
        if ROW_GET1.search(name):
            row = I.read(obj, st)
            i = I.read(args[0], st) if args else ('c', 0)
            if len(args) == 2:
                i2 = i[1] if i[0] == 'c' else None
                return [(('c', None), self.columns(I, fr, node, row, args[1:], i2, st))]
            return [(self.column(row, i, fr, node), st)]
        if TX.search(name):
            return [(('c', None), self.event(st, ('tx', name.rsplit('::', 1)[-1], (), (fr.F.file, node.get('l')))))]
        if name.endswith('Connection::affected'):
            return [(('call', 'sql.affected', (), I.site(fr, node)), st)]
        if name.endswith('Connection::rowid'):
            t = ('call', 'sql.rowid', (), I.site(fr, node))
            return [(t, self.event(st, ('rowid', I.site(fr, node), (), (fr.F.file, node.get('l')))))]
        return None

    def special(self, I, fr, node, name, obj, args, st):
        return None

    def apply(self, I, fr, node, fn, row, st):
        if fn[0] == 'lam':
            return I.invoke(fn, [row], fr, st, node)
        # a functor object: its call operator
        t = fn[1] if fn[0] == 'new' else None
        for F in self.P.by_qn.get((t or '') + '::operator()', []):
            if len(F.params) == 1:
                fake = I._fid.setdefault((id(node), F.id), {'k': 'call', 'l': node.get('l'), 'f': F.id})
                return I.enter(F, fake, fn, [row], fr, st)
        if t:
            tt = model.clean(t).split('::')[-1]
            for F in self.P.funcs.values():
                if F.qn.endswith('::operator()') and model.clean(F.cls()).split('::')[-1] == tt and len(F.params) == 1:
                    fake = I._fid.setdefault((id(node), F.id), {'k': 'call', 'l': node.get('l'), 'f': F.id})
                    return I.enter(F, fake, fn, [row], fr, st)
        self.unresolved.append((fr.F, node))
        return [(('call', 'sql.applied', (fn, row), None), st)]

    def column(self, row, i, fr, node):
        while row[0] in ('upd', 'hv'):
            row = row[1]
        q = row[2][0] if row[0] == 'call' and row[1] == 'sql.row' else row
        return ('call', 'sql.column', (q, i), None)

    def columns(self, I, fr, node, row, dests, off, st):
        while row[0] in ('upd', 'hv'):
            row = row[1]
        q = row[2][0] if row[0] == 'call' and row[1] == 'sql.row' else row
        ps = []
        for i, d in enumerate(dests):
            st = I.write(d, ('call', 'sql.column', (q, ('c', (off or 0) + i)), None), st)
            ps.append((d, (off or 0) + i))
        st = self.got(I, fr, node, q, ps, st)
        return st

    def got(self, I, fr, node, q, dests, st):
        """row::get: destinations of the columns of a query"""
        return st
