"""Shared by the queue properties: what each request handler of a queue group does to the queue-base, per path."""
import re
from .. import model, facts
from ..interp import Interp, Budget, path, root, strip_hv, contains, Limits
from ..rules import dbase, rows
from ..rules.replies import SENDS, strip
from ..rules.rows import NOW, Cannot
from ..facts import AnalysisError
from .common_replies import fact, eq

PERSIST = re.compile(r'queue::group::handle::(persist|local::detail::pending::dequeues)$')


class More(Limits):
    states = 160


class GroupUses(dbase.Uses):
    """additionally: sends, changes of the size account, and the (batch) persist as an event"""
    try_may_throw = True
    cut = True
    each = False

    def __init__(self, P, prep):
        super().__init__(P, prep)
        self.maps = {}    # result of a transform -> values of its elements

    def special(self, I, fr, node, name, obj, args, st):
        if self.cut and PERSIST.search(name):
            return [(('c', None), self.event(st, (name.rsplit('::', 1)[-1],) * 2 + ((), (fr.F.file, node.get('l')))))]
        if name.endswith('signal::timer::set') or name.endswith('signal::timer::unset'):
            return [(('c', None), self.event(st, ('timer', name.rsplit('::', 1)[-1], tuple(I.rvalue(a, st) for a in args), (fr.F.file, node.get('l')))))]
        if name.endswith('message::reverse::type'):
            d = model.defaults(self.P, fr.F.t(node))
            v = ('call', name, tuple(I.rvalue(a, st) for a in args[:1]), None)
            return [(('upd', v, tuple(sorted(d.items()))) if d else v, st)]
        if self.each and name.endswith(('::push_back', '::emplace_back')) and args:
            st = self.event(st, ('append', path(obj) if obj is not None else '', tuple(I.rvalue(a, st) for a in args), (fr.F.file, node.get('l'))))
            return self.appended(I, fr, node, obj, st)
        if name.endswith('algorithm::transform') and len(args) == 2 and I.read(args[1], st)[0] == 'lam':
            rng, lam = I.read(args[0], st), I.read(args[1], st)
            t = ('call', name, (rng, lam), None)
            out = []
            for v, s2 in I.invoke(lam, [('elem', rng)], fr, self.on_element(I, fr, node, ('elem', rng), st), node):
                self.maps.setdefault(t, []).append(I.rvalue(v, s2))
                out.append((t, s2))
            return [(t, st)] + out
        for rx, di, mi in SENDS:
            if rx.search(name) and len(args) > max(di or 0, mi):
                mt = model.msgtype(self.P, fr.F.t(node['a'][mi]))
                kind = 'pending' if 'pending' in name else 'blocking' if 'blocking' in name and 'non' not in name else 'send'
                v = I.rvalue(args[mi], st)
                return [(('call', name, (), I.site(fr, node)), self.event(st, ('send', mt, (I.rvalue(args[di or 0], st), v), (fr.F.file, node.get('l')), kind)))]
        if name.endswith('ipc::pending::Holder::send') or re.search(r'pending::basic_holder<.*>::send$', name):
            return [(('c', None), self.event(st, ('flush', path(obj) if obj is not None else '', (), (fr.F.file, node.get('l')))))]
        return None

    def appended(self, I, fr, node, obj, st):
        return [(('c', None), I.havoc(obj, I.site(fr, node), st) if obj is not None else st)]

    def on_element(self, I, fr, node, elem, st):
        self.here = fr.id
        if self.each and path(strip(elem)).startswith('request.'):
            return self.event(st, ('each', path(strip(elem)), (), (fr.F.file, node.get('l'))))
        return st

    def on_loop(self, I, fr, node, st):
        self.here = fr.id
        if self.each:
            for part in (('init', 'cond', 'inc'), ('body',)):
                names = [n['n'] for k in part for n in facts.walk(node.get(k)) if n['k'] == 'mem' and isinstance(n.get('n'), str)]
                hit = [x for x in names if x in ('queues', 'ids', 'gtrids')]
                if hit:
                    return self.event(st, ('each', f'request.{hit[0]}[]', (), (fr.F.file, node.get('l'))))
        return st

    def on_assign(self, I, fr, node, lhs, val, st):
        self.here = fr.id
        t = dbase.tail(lhs)
        if t[-2:] == ('size', 'current') or (len(t) >= 1 and t[-1] == 'current' and 'size' in path(lhs)):
            self.sizes = True
            return self.event(st, ('size', val, (), (fr.F.file, node.get('l'))))
        if t[-1:] == ('capacity',):
            return self.event(st, ('capacity', val, (), (fr.F.file, node.get('l'))))
        return st


def load(ctx):
    P = ctx.load('queue/source/*')
    ctx.prep = dbase.prepared(P, r'^queue/source/group/')
    ctx.need(ctx.prep, 'no prepared statements found')
    ctx.names = {' '.join(v[0].split()): '.'.join(k) for k, v in ctx.prep.items() if v[0]}
    ctx.rel = facts.relevant(P, lambda F, n: n['k'] == 'call' and interesting(F.name(n)) or n['k'] == 'mem' and n.get('n') == 'current' and F.file.startswith('queue/'))
    ctx.hs = {}
    for h in model.handlers(P, r'^queue/source/group/'):
        ctx.hs.setdefault(h.type, h)
    return P


def also_relevant(ctx, members):
    """functions that touch these members are interpreted as well"""
    base = ctx.rel
    ctx.rel = set(base) | set(facts.relevant(ctx.P, lambda F, n: F.id in base or n['k'] == 'mem' and n.get('n') in members and F.file.startswith('queue/')))


def interesting(n):
    return bool(n and (dbase.ANY.search(n) or any(rx.search(n) for rx, _, _ in SENDS) or n.endswith('Holder::send') or 'timer::' in n or n.endswith('size::add') or n.endswith('Size::subtract')))


def paths(ctx, type, cut=True, throw=True, limits=None, each=False, cls=GroupUses):
    """[(kind, state)] of the handler of a message type"""
    h = ctx.hs.get(type)
    ctx.need(h is not None, f'no handler of {type} found')
    for lim in ([limits] if limits else [Limits, More]):
        r = cls(ctx.P, ctx.prep)
        r.cut, r.each = cut, each
        r.try_may_throw = throw
        I = Interp(ctx.P, r, lim, relevant=ctx.rel)
        out = I.run(h.F, (), args=[('sym', 'request')], this=h.lam[3], caps=h.lam[2])
        if not I.stats['lossy']:
            break
    ctx.maps = r.maps
    ctx.lossy = I.stats['lossy']
    ctx.used(I)
    ctx.count('handlers')
    ctx.count('paths', len(out))
    for F, n in r.unresolved:
        raise AnalysisError(f'{F.where(n)}: the sql of this call is not known')
    return h, [(k, s) for k, v, s in out if k != 'throw']


def label(ctx, text):
    return ctx.names.get(' '.join((text or '').split()), ' '.join((text or '').split())[:60])


def at(e):
    return f'{e[3][0]}:{e[3][1]}'


# ---------------------------------------------------------------- what a value stands for
SEE_THROUGH = re.compile(r'(range|value|underlying|get|data|global|range::global|operator .*|native|move|id)$')


def column_of(v):
    """name of the selected column a value comes from"""
    if v[0] == 'call' and v[1] == 'sql.column' and v[2][1][0] == 'c':
        q = v[2][0]
        if q[0] == 'call' and q[1] == 'sql.query':
            sts, _ = rows.parse(q[2][0][1])
            cols = sts[0].get('cols') if sts[0]['op'] == 'select' else sts[0].get('returning')
            i = v[2][1][1]
            if cols and i < len(cols):
                return cols[i], sts[0], q
    return None


def roles(v):
    """what a value stands for: 'queue' 'gtrid' 'id' 'properties' 'now' 'last' ('const', n) ('column', name) ... or a member name"""
    v = strip(v)
    if not isinstance(v, tuple) or not v:
        return None
    k = v[0]
    if k == 'c':
        return ('const', v[1])
    if k == 'e':
        return ('const', int(v[2])) if len(v) > 2 and v[2] is not None else ('enum', v[1])
    if k == 'addr':
        return roles(v[1])
    if k == 'mem':
        n = v[2]
        r = {'queue': 'queue', 'queues': 'queue', 'qid': 'queue', 'trid': 'gtrid', 'gtrid': 'gtrid', 'gtrids': 'gtrid', 'm_gtrid': 'gtrid', 'ids': 'id'}.get(n)
        if r:
            return r
        if n in ('m_size', 'm_bqual'):
            return roles(v[1])
        return n
    if k in ('elem', 'deref', 'idx'):
        return roles(v[1])
    if k == 'call':
        c = column_of(v)
        if c:
            e, st, q = c
            while e[0] == 'fn' and len(e[2]) == 1 and e[1] in ('min', 'max'):
                e = e[2][0]
            if st['table'] == 'queue' and e[0] == 'col' and e[2] == 'id':
                return 'queue'
            if e[0] == 'col':
                return ('column', e[2])
            return ('column', '?')
        n = v[1].rsplit('::', 1)[-1]
        if n == 'sql.first' or n == 'sql.all':
            return roles(v[2][1])
        if n == 'now':
            return 'now'
        if v[1].endswith('uuid::make'):
            return 'new id'
        for a in v[2]:
            r = roles(a)
            if r is not None:
                return r
        return None
    if k == 'new':
        for a in v[2]:
            if isinstance(a, tuple):
                r = roles(a)
                if r is not None and not (isinstance(r, tuple) and r[0] == 'const' and len(v[2]) > 1):
                    return r
        return None
    if k == 'bin':
        return roles(v[2])
    return None


Q, QE, QO = 4, 3, 6
VALUE = {'queue': Q, 'gtrid': 'G', 'id': 'I', 'properties': 'P', 'now': NOW, 'last': 10, 'new id': 'I'}


def bind(v, ctx, e):
    r = roles(v)
    if isinstance(r, tuple) and r[0] == 'const':
        return r[1]
    if isinstance(r, tuple) and r[0] == 'column':
        if r[1] in ('rowid', '_rowid_', 'oid'):
            return 7
        return {'id': 'I'}.get(r[1], ...)
    if r in VALUE:
        return VALUE[r]
    raise AnalysisError(f'{at(e)}: not known what the value {path(v)[:120]} is')


def queue_table(delay, retry=1):
    return {'queue': [dict(id=Q, rowid=Q, name='n', retry_count=retry, retry_delay=delay, error=QE, count=1), dict(id=QE, rowid=QE, name='n.error', retry_count=0, retry_delay=0, error=0, count=1),
                      dict(id=QO, rowid=QO, name='o', retry_count=retry, retry_delay=delay, error=QO - 1, count=1)]}


BASE = dict(rowid=7, id='I', queue=Q, origin=Q, gtrid='G', properties='P', state=2, reply='r', redelivered=0, type='t', available=0, timestamp=20, payload='xyz')


def variants(**dims):
    """abstract rows: the product of the given columns' values"""
    out = [dict(BASE)]
    for c, vs in dims.items():
        out = [dict(r, **{c: v}) for r in out for v in vs]
    return out


def effect(ctx, events, row, tables=None):
    """row after the statements of the events (None: deleted)"""
    tables = tables or queue_table(0)
    for e in events:
        if e[0] == 'sql' and row is not None and rows.mutates(e[1], 'message'):
            params = [bind(a, ctx, e) for a in e[2]]
            row = rows.apply(e[1], params, row, tables)
    return row


def visible(row):
    """what a client can tell of a row"""
    if row is None:
        return None
    return {k: row[k] for k in ('queue', 'state', 'redelivered', 'available', 'origin', 'id', 'properties', 'reply', 'type', 'payload')} | ({'gtrid': row['gtrid']} if row['state'] != 2 else {})


def show(row):
    if row is None:
        return 'deleted'
    return '{' + ', '.join(f'{k}={v}' for k, v in row.items() if k in ('state', 'queue', 'gtrid', 'redelivered', 'available')) + '}'


def sqls(st, table='message', mutating=True):
    return [e for e in st.auto if e[0] == 'sql' and (not mutating or rows.mutates(e[1], table))]


def reply_value(st, mt, member):
    """value of a member of the reply sent on the path"""
    for e in st.auto:
        if e[0] == 'send' and e[1] == mt:
            v = e[2][1]
            while isinstance(v, tuple) and v and v[0] == 'upd':
                d = dict(v[2])
                if member in d:
                    return d[member]
                v = v[1]
            if isinstance(v, tuple) and v and v[0] == 'new' and v[3] and member in v[3]:
                return v[2][v[3].index(member)]
            return ('mem', v, member)
    return None


def code_is(v, name):
    """True/False when the enum value is known"""
    v = strip(v) if v is not None else None
    if isinstance(v, tuple) and v and v[0] == 'e':
        return v[1].rsplit('::', 1)[-1] == name
    return None


def check_effect(ctx, key, h, st, events, expected, domain, tables, extra=''):
    for row in domain:
        want = expected(row)
        if want is ...:
            continue
        try:
            got = effect(ctx, events, row, tables)
        except Cannot as e:
            raise AnalysisError(f'{key}: {e}')
        if visible(got) != visible(want):
            where = at(events[0]) if events else h.F.where()
            ctx.bad(key, f'{extra}a message {show(row)} becomes {show(got)}, must become {show(want)}', where, [f'{label(ctx, e[1])} at {at(e)}' for e in events])
            return False
    return True


def mapped(ctx, v):
    """a member of an element of a transformed range, in terms of the elements of the original range"""
    chain = []
    x = strip(v)
    while isinstance(x, tuple) and x and x[0] == 'mem':
        chain.append(x[2])
        x = strip_hv(x[1])
    if not (isinstance(x, tuple) and x and x[0] in ('elem', 'idx', 'deref')) or chain[:1] in (['id'], ['error']):
        return v
    todo, hit = [x[1]], None
    while todo and hit is None:
        y = todo.pop()
        if isinstance(y, tuple):
            if y in ctx.maps:
                hit = y
                break
            todo += [z for z in y if isinstance(z, tuple)]
    if hit is None:
        return v
    vals = []
    for val in ctx.maps[hit]:
        for m in reversed(chain):
            val = strip_hv(val)
            if val[0] == 'upd' and m in dict(val[2]):
                val = dict(val[2])[m]
                continue
            while val[0] == 'upd':
                val = val[1]
            if val[0] == 'new' and val[3] and m in val[3]:
                val = val[2][val[3].index(m)]
            elif val[0] == 'new' and not val[2]:
                return ('new', 'default', (), None)
            else:
                val = ('mem', val, m)
        vals.append(val)
    return vals[0] if all(x == vals[0] for x in vals) else v
