"""the counters of a queue follow its messages (triggers); queues are created in pairs and configured as asked"""
from .queue_common import *
from ..rules.rows import Eval, parse
from ..rules import rows as R
from ..facts import walk

COUNTERS = ('count', 'size', 'uncommitted_count', 'metric_enqueued', 'metric_dequeued')


def executed(ctx, F):
    """sql texts a function hands to the connection directly"""
    out = []
    for n in walk(F.body):
        if n['k'] == 'call' and F.name(n) and F.name(n).endswith('database::Connection::statement') and n['a']:
            for x in walk(n['a'][0]):
                v = None
                if x['k'] == 'str':
                    v = str(x['v'])
                elif x['k'] == 'ref' and x.get('dk') == 'gvar':
                    v = dbase.literal(ctx.P, ('sym', F.S[x['q']]))
                if v:
                    out.append((v, n))
    return out


def fire(triggers, event, cols, old, new, queues):
    for tr in triggers:
        if tr['event'] != event or tr['of'] and not set(tr['of']) & set(cols):
            continue
        E = lambda row: Eval('queue', row, [], {}, extra={'new': new, 'old': old})
        if tr['cond'] is not None and not Eval('queue', {}, [], {}, extra={'new': new, 'old': old}).ev(tr['cond']):
            continue
        for s in tr['body']:
            if s['op'] != 'update' or s['table'] != 'queue':
                continue
            nxt = []
            for q in queues:
                e = E(q)
                if s['where'] is None or e.ev(s['where']):
                    q = dict(q, **{c: e.ev(x) for c, x in s['set']})
                nxt.append(q)
            queues = nxt
    return queues


def length(r):
    return 0 if r['payload'] is None else len(r['payload'])


def required(old, new):
    """change of the counters {queue: {counter: n}}"""
    d = {}

    def add(q, c, n):
        d.setdefault(q, dict.fromkeys(COUNTERS, 0))[c] += n
    for r, sign in ((old, -1), (new, 1)):
        if r is None:
            continue
        if r['state'] == 1:
            add(r['queue'], 'uncommitted_count', sign)
        else:
            add(r['queue'], 'count', sign)
            add(r['queue'], 'size', sign * length(r))
    arrived = new is not None and new['state'] != 1 and (old is None or old['state'] == 1 or old['queue'] != new['queue'])
    left = old is not None and old['state'] != 1 and (new is None or new['queue'] != old['queue'])
    if arrived:
        add(new['queue'], 'metric_enqueued', 1)
    if left:
        add(old['queue'], 'metric_dequeued', 1)
    return d


def counters(ctx):
    triggers, where, opened = [], None, []
    for F in ctx.P.funcs.values():
        if F.file.startswith('queue/source/group/'):
            for text, n in executed(ctx, F):
                for s in parse(text)[0]:
                    if s['op'] == 'trigger' and s['table'] == 'message':
                        triggers.append(s)
                        where = F.where(n)
                        opened.append(F)
    ctx.expect(bool(triggers), 'triggers', 'the queue-base is opened without the triggers that maintain the counters', where)
    ctx.count('triggers', len(triggers))
    base = dict(BASE, timestamp=20)
    trans = []
    for p in ('xyz', None):
        for q in (Q, QO, QE):
            for s in (1, 2):
                trans.append(('insert', (), None, dict(base, state=s, queue=q, payload=p)))
            for s in (1, 2, 3):
                trans.append(('delete', (), dict(base, state=s, queue=q, payload=p), None))
            for a, b in ((1, 2), (2, 3), (3, 2)):
                r = dict(base, queue=q, payload=p)
                trans.append(('update', ('state',), dict(r, state=a), dict(r, state=b)))
        for a, b in ((Q, QE), (QO, Q), (QE, Q)):
            r = dict(base, payload=p)
            trans.append(('update', ('queue',), dict(r, queue=a), dict(r, queue=b)))
        trans.append(('update', ('available',), dict(base, payload=p), dict(base, payload=p, available=7)))
    n = 0
    for ev, cols, old, new in trans:
        queues = [dict(id=i, rowid=i, name='n', retry_count=1, retry_delay=0, error=0, count=100, size=200, uncommitted_count=300, metric_dequeued=400, metric_enqueued=500, last=3, created=1) for i in (QE, Q, QO)]
        after = fire(triggers, ev, cols, old, new, queues)
        want = required(old, new)
        for q, r in zip(queues, after):
            for c in COUNTERS:
                n += 1
                d, w = None if r[c] is None else r[c] - q[c], want.get(q['id'], {}).get(c, 0)
                what = f'{ev} of {",".join(cols)} {show(old) if old else ""}->{show(new) if new else ""}'
                key = f'{ev} {",".join(cols)}: {c}'
                if d != w:
                    ctx.bad(key, f'{c} of queue {"error " if q["id"] == QE else ""}{q["id"]} changes by {"NULL" if d is None else d}, must change by {w}, on {what}', where)
                else:
                    ctx.obligations += 1
            for c in ('id', 'name', 'retry_count', 'retry_delay', 'error', 'created'):
                if r[c] != q[c]:
                    ctx.bad(f'{ev}: {c}', f'a trigger changes {c} of a queue', where)
    ctx.count('transitions', len(trans))
    ctx.ok('counters', where)


def configuration(ctx):
    """creation, update and removal of queues"""
    t = 'queue_group_configuration_update_request'
    h, out = paths(ctx, t)
    cols = None
    from .Q04 import schema
    cols = R.columns(schema(ctx))['queue']
    created = updated = removed = 0
    for k, st in out:
        ev = [e for e in st.auto if e[0] in ('sql', 'rowid')]
        ins = [(i, e) for i, e in enumerate(ev) if e[0] == 'sql' and any(s['op'] == 'insert' and s['table'] == 'queue' for s in parse(e[1])[0])]
        if ins:
            created += 1
            ctx.expect(len(ins) % 2 == 0, f'{t}: pairs', 'a queue is created without its error queue', at(ins[0][1]))
            for (i, a), (j, b) in zip(ins[::2], ins[1::2]):
                ra, rb = row_of(ctx, a, cols), row_of(ctx, b, cols)
                rid = next((e for e in ev[i:j] if e[0] == 'rowid'), None)
                want_a = dict(retry_count=('const', 0), retry_delay=('const', 0), error=('const', 0), count=('const', 0), size=('const', 0), uncommitted_count=('const', 0), metric_dequeued=('const', 0), metric_enqueued=('const', 0), created='now')
                for c, w in want_a.items():
                    ctx.expect(ra[c][0] == w, f'{t}: created error queue: {c}', f'{c} of a new error queue is {path(ra[c][1])[:80]}', at(a))
                ctx.expect(is_error_name(ra['name'][-1], rb['name'][-1]), f'{t}: created error queue: name', 'the error queue is not named after its queue', at(a))
                want_b = dict(name='name', retry_count='count', retry_delay='delay', count=('const', 0), size=('const', 0), uncommitted_count=('const', 0), metric_dequeued=('const', 0), metric_enqueued=('const', 0), created='now')
                for c, w in want_b.items():
                    ctx.expect(rb[c][0] == w, f'{t}: created queue: {c}', f'{c} of a new queue is {path(rb[c][1])[:80]}', at(b))
                ctx.expect(rid is not None and contains(rb['error'][1], rid[1]), f'{t}: created queue: error', 'a new queue does not refer to the error queue created just before it', at(b))
        up = [e for e in ev if e[0] == 'sql' and any(s['op'] == 'update' and s['table'] == 'queue' for s in parse(e[1])[0])]
        if up:
            updated += 1
            # the existing queue (id 4, error 3), another one
            rows_ = [dict(id=Q, rowid=Q, name='old', retry_count=1, retry_delay=2, error=QE, count=5), dict(id=QE, rowid=QE, name='old.error', retry_count=0, retry_delay=0, error=0, count=6), dict(id=QO, rowid=QO, name='o', retry_count=7, retry_delay=8, error=QO - 1, count=9)]
            want = [dict(rows_[0], name='N', retry_count='RC', retry_delay='RD'), dict(rows_[1], name='N.error'), rows_[2]]
            for r, w in zip(rows_, want):
                got = r
                for e in up:
                    got = R.apply(e[1], [config_value(ctx, a, e) for a in e[2]], got, {}, 'queue')
                diff = 'deleted' if got is None else ', '.join(f'{c} becomes {got[c]}' for c in r if got[c] != w[c])
                ctx.expect(got == w, f'{t}: update: queue {r["id"]}', f'{"the" if r["id"] == Q else "the error" if r["id"] == QE else "another"} queue: {diff}', at(up[0]))
        rm = [e for e in ev if e[0] == 'sql' and any(s['op'] == 'delete' for s in parse(e[1])[0])]
        if rm:
            removed += 1
            for r, keep in ((dict(id=Q, rowid=Q, error=QE), False), (dict(id=QE, rowid=QE, error=0), False), (dict(id=QO, rowid=QO, error=QO - 1), True), (dict(id=QO - 1, rowid=QO - 1, error=0), True)):
                got = r
                for e in rm:
                    ctx.expect(not R.mutates(e[1], 'message'), f'{t}: remove: messages', 'messages are deleted by a change of configuration', at(e))
                    got = R.apply(e[1], [config_value(ctx, a, e) for a in e[2]], got, {}, 'queue') if got is not None else None
                ctx.expect((got is not None) == keep, f'{t}: remove: {"other" if keep else "queue"}', f'{"another" if keep else "a removed"} queue is {"deleted" if keep else "kept, or its error queue is"}', at(rm[0]))
    ctx.expect(created > 0, f'{t}: creates', 'no path creates a configured queue', h.F.where())
    ctx.expect(updated > 0, f'{t}: updates', 'no path updates an existing queue', h.F.where())
    ctx.expect(removed > 0, f'{t}: removes', 'no path removes a queue', h.F.where())


def row_of(ctx, e, cols):
    s = next(s for s in parse(e[1])[0] if s['op'] == 'insert')
    cs = s.get('cols') or cols
    out = {}
    for c, x in zip(cs, s['values']):
        if x[0] == 'param':
            a = e[2][x[1]] if x[1] < len(e[2]) else ('c', None)
            m = mapped(ctx, a)
            out[c] = (roles(m), m, a)
        elif x[0] == 'num':
            out[c] = (('const', x[1]), ('c', x[1]))
        else:
            out[c] = (x[0], ('c', None))
    # columns the statement does not name
    for c in cols:
        out.setdefault(c, (None, ('c', None)))
    return out


def is_error_name(v, base):
    t = path(strip(v))
    return '.error' in t and (contains(v, base) or path(strip(base)) in t)


def config_value(ctx, a, e):
    a = mapped(ctx, a)
    r = roles(a)
    p = path(strip(a))
    if '.error"' in p or ".error'" in p or '.error' in p and 'operator+' in p:
        return 'N.error'
    if isinstance(r, tuple) and r[0] == 'const':
        return r[1]
    c = column_of(strip(a)) or (column_of(strip(a[2][0])) if a[0] == 'call' and a[2] and isinstance(a[2][0], tuple) else None)
    last = p.rsplit('.', 1)[-1]
    if 'sql.first' in p or c:
        # a column of the existing queue
        x = column_in(a)
        if x == 'error':
            return QE
        if x in ('id', 'rowid'):
            return Q
    if r == 'error' or last == 'error':
        return QE
    if r in ('queue', 'id'):
        return Q
    if r == 'name':
        return 'N'
    if r == 'count':
        return 'RC'
    if r == 'delay':
        return 'RD'
    if last.endswith('[]'):
        return Q
    raise AnalysisError(f'{at(e)}: not known what {p[:120]} is')


def column_in(v):
    c = column_of(v)
    if c:
        return c[0][2] if c[0][0] == 'col' else None
    if isinstance(v, tuple):
        if v and v[0] == 'call' and v[1] == 'sql.first':
            return column_in(v[2][1])
        if v and v[0] == 'mem':
            b = strip_hv(v[1])
            while isinstance(b, tuple) and b and b[0] in ('deref', 'hv'):
                b = b[1]
            if b[0] == 'call' and b[1] == 'sql.first':
                from .Q04 import leaves
                for p, x in leaves(b[2][1]):
                    if p == v[2]:
                        return column_in(x)
        for x in v:
            if isinstance(x, tuple):
                c = column_in(x)
                if c:
                    return c
    return None


def check(ctx):
    load(ctx)
    ctx.rule('the triggers installed when a queue-base is opened change the counters of every queue exactly as required, for every change a message row can make')
    ctx.rule('the statements of a configuration change create queues in pairs (error queue first, referred to by its rowid), update exactly the queue and its error queue, delete exactly both')
    counters(ctx)
    configuration(ctx)
