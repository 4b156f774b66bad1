"""enqueue stores what was sent, dequeue/browse return what was stored and only messages they may return"""
from .queue_common import *
from ..rules.rows import Eval, parse, JULIAN

# enqueue: column -> role
STORED = {'id': {'id', 'new id'}, 'queue': {'queue'}, 'origin': {'queue'}, 'gtrid': {'gtrid'}, 'properties': {'properties'}, 'state': None, 'reply': {'reply'}, 'redelivered': {('const', 0)},
          'type': {'type'}, 'available': {'available'}, 'timestamp': {'now'}, 'payload': {'data'}}

MESSAGE = {'id': 'id', 'attributes.properties': 'properties', 'attributes.reply': 'reply', 'redelivered': 'redelivered', 'payload.type': 'type', 'attributes.available': 'available',
           'timestamp': 'timestamp', 'payload.data': 'payload'}


def present(st, what):
    """is a request member (by its path) known to be present/empty on this path"""
    for f, v in st.facts.items():
        if f[0] != 't':
            continue
        t, pol = f[1], v
        while t[0] == 'un' and t[1] == '!':
            t, pol = t[2], not pol
        if t[0] == 'bool' and path(strip(t[1])) == what:
            return pol
        if t[0] == 'call' and t[1].rsplit('::', 1)[-1] == 'empty' and t[2] and path(strip(t[2][0])) == what:
            return not pol
        if t[0] == 'call' and t[1].rsplit('::', 1)[-1] in ('operator bool', 'valid', 'has_value') and t[2] and path(strip(t[2][0])) == what:
            return pol
    return None


def leaves(v, prefix=''):
    """(member path, value) of the members of an aggregate value"""
    v = strip_hv(v)
    if isinstance(v, tuple) and v and v[0] == 'upd':
        seen = set()
        for k, x in v[2]:
            seen.add(k)
            yield from leaves(x, prefix + k + '.')
        for p, x in leaves(v[1], prefix):
            if p[len(prefix):].split('.')[0] not in seen:
                yield p, x
        return
    if isinstance(v, tuple) and v and v[0] == 'new' and v[3] and len(v[3]) == len(v[2]) and v[2]:
        for k, x in zip(v[3], v[2]):
            yield from leaves(x, prefix + k + '.')
        return
    if isinstance(v, tuple) and v and v[0] == 'new' and len(v[2]) == 1 and isinstance(v[2][0], tuple):
        yield from leaves(v[2][0], prefix)
        return
    if isinstance(v, tuple) and v and v[0] == 'call' and v[1] in ('sql.all', 'sql.first'):
        yield from leaves(v[2][1], prefix)
        return
    yield prefix.rstrip('.'), v


def enqueue(ctx):
    t = 'queue_group_enqueue_request'
    h, out = paths(ctx, t)
    tables = rows.columns([v for v in ctx.schema])
    ctx.need('message' in tables, 'the message table is not known')
    n = 0
    for k, st in out:
        ins = [e for e in sqls(st) if any(s['op'] == 'insert' for s in parse(e[1])[0])]
        rep = [e for e in st.auto if e[0] == 'send' and e[1] == 'queue_group_enqueue_reply']
        code = code_is(reply_value(st, 'queue_group_enqueue_reply', 'code'), 'ok')
        where = at(rep[-1]) if rep else h.F.where()
        if code is not True:
            if code is None and 'capture' not in path(strip(reply_value(st, 'queue_group_enqueue_reply', 'code') or ('c', None))):
                ctx.bad(f'{t}: code', 'the code of an enqueue reply is not known to be ok or an error', where)
            continue
        n += 1
        if not ctx.expect(len(ins) == 1 and len(sqls(st)) == 1, f'{t}: stored once', f'an enqueue that answers ok stores {len(ins)} messages', where):
            continue
        e = ins[0]
        s = next(s for s in parse(e[1])[0] if s['op'] == 'insert')
        cols = s.get('cols') or tables['message']
        vals = s['values']
        ctx.expect(len(vals) == len(cols), f'{t}: columns', f'{len(vals)} values for {len(cols)} columns', at(e))
        got = {}
        for c, x in zip(cols, vals):
            if x[0] == 'param':
                a = e[2][x[1]] if x[1] < len(e[2]) else ('c', None)
                got[c] = (roles(a), a)
            else:
                got[c] = (('const', x[1]) if x[0] == 'num' else x[0], ('c', x[1] if len(x) > 1 else None))
        for c, want in STORED.items():
            r, a = got.get(c, (None, ('c', None)))
            if c == 'state':
                tx = present(st, 'request.trid')
                if tx is None:
                    ctx.need(not ctx.lossy, f'{at(e)}: not known if the enqueue is in a transaction when the message is stored')
                    ctx.bad(f'{t}: state', 'the state a message is stored with does not depend on the request being in a transaction', at(e))
                    continue
                ctx.expect(r == ('const', 1 if tx else 2), f'{t}: state', f'a message enqueued {"in" if tx else "outside"} a transaction is stored with state {r[1] if isinstance(r, tuple) else r}', at(e))
                continue
            ctx.expect(r in want, f'{t}: {c}', f'column {c} of an enqueued message is {path(a)[:100]}', at(e))
        # the id the caller gets is the id stored
        rid = reply_value(st, 'queue_group_enqueue_reply', 'id')
        stored = strip(got['id'][1])
        while isinstance(stored, tuple) and stored[0] == 'call' and stored[1].rsplit('::', 1)[-1] == 'range':
            stored = strip(stored[2][0])
        ctx.expect(rid is not None and strip(rid) == stored, f'{t}: reply id', f'the reply carries id {path(strip(rid))[:80]}, stored is {path(stored)[:80]}', where)
        given = present(st, 'request.message.id')
        ctx.expect(got['id'][0] == ('new id' if given is False else 'id' if given else got['id'][0]), f'{t}: given id', 'the id of the request is not the one used', at(e))
    ctx.need(n, 'no enqueue path answers ok')


def matched(e, s, row, ctx):
    params = [bind(a, ctx, e) for a in e[2]]
    try:
        return rows.selects(s, params, row, queue_table(0))
    except Cannot as x:
        raise AnalysisError(f'{at(e)}: {x}')


SPACE = dict(state=[1, 2, 3], queue=[Q, QE], id=['I', 'J'], properties=['P', 'O', None], available=[0, NOW - 1, NOW + 1], gtrid=['G', None], redelivered=[0, 9], timestamp=[5, 20])


def predicate(ctx, key, e, s, want, what):
    for row in variants(**SPACE):
        if matched(e, s, row, ctx) != want(row):
            ctx.bad(key, f'{what} {"does not consider" if want(row) else "considers"} a message ' + '{' + ', '.join(f'{k}={row[k]}' for k in ('state', 'queue', 'id', 'properties', 'available', 'timestamp')) + '}', at(e), [label(ctx, e[1])])
            return
    ctx.ok(key, at(e))


def earliest(s):
    """the statement yields the row with the smallest timestamp"""
    o = s.get('order') or []
    first = o[0] if o else None
    if first is not None and first[0][0] == 'col' and first[0][2] == 'timestamp' and first[1] == 'asc':
        return True
    mins = [c for c in s['cols'] if c[0] == 'fn' and c[1] == 'min']
    return len(mins) == 1 and mins[0][2][0][0] == 'col' and mins[0][2][0][2] == 'timestamp' and not o


def message_queries(st):
    out = []
    for e in st.auto:
        if e[0] == 'sql':
            for s in parse(e[1])[0]:
                if s['op'] == 'select' and s['table'] == 'message' and any(c[0] == 'col' and c[2] == 'payload' for c in s['cols']):
                    out.append((e, s))
    return out


def fields(ctx, key, v, want, where, table='message', skip=()):
    """every member of the reply comes from the column it must"""
    got = {}
    for p, x in leaves(v):
        c = column_of(x) or (column_of(x[2][0]) if x[0] == 'call' and x[2] and isinstance(x[2][0], tuple) else None)
        if c:
            e = c[0]
            if e[0] == 'fn' and e[1] in ('min', 'max', 'length') and len(e[2]) == 1:
                e = e[2][0] if e[1] != 'length' else ('col', None, f'length({e[2][0][2]})')
            got[p] = e[2] if e[0] == 'col' else '?'
    for p, c in want.items():
        hit = [q for q in got if q == p or q.endswith('.' + p)]
        hit = sorted(hit, key=len)[:1]
        ctx.expect(bool(hit) and got[hit[0]] == c, f'{key}: {p}', f'{p} of the reply is ' + (f'column {got[hit[0]]}' if hit else 'not set') + f', must be {c}', where)


def dequeue(ctx):
    t, rt = 'queue_group_dequeue_request', 'queue_group_dequeue_reply'
    h, out = paths(ctx, t, throw=False)
    seen, n = set(), 0
    for k, st in out:
        qs = message_queries(st)
        rep = [e for e in st.auto if e[0] == 'send' and e[1] == rt]
        code = code_is(reply_value(st, rt, 'code'), 'ok') if rep else None
        mut = sqls(st)
        where = at(rep[-1]) if rep else h.F.where()
        if code is not True:
            ctx.expect(not mut, f'{t}: nothing taken', f'a message is changed although the dequeue is ' + ('answered with an error' if rep else 'parked'), at(mut[0]) if mut else where)
            if not qs:
                continue
        if not qs:
            ctx.bad(f'{t}: no selection', 'a dequeue answers ok without selecting a message', where)
            continue
        e, s = qs[-1]
        byid, props = present(st, 'request.selector.id'), present(st, 'request.selector.properties')
        kind = 'id' if byid else 'properties' if props and byid is False else 'fifo' if byid is False and props is False else None
        if kind is None:
            # the path was merged: tell from the statement, which must be the same for the merged ones
            rs = {roles(a) for a in e[2]}
            kind = 'id' if 'id' in rs and byid is not False else 'properties' if 'properties' in rs and props is not False and byid is not True else 'fifo'
            ctx.count('merged_paths')
        if (kind, e[3]) not in seen:
            seen.add((kind, e[3]))
            key = f'{t}: {kind}'
            predicate(ctx, f'{key} selection', e, s, {
                'id': lambda r: r['id'] == 'I' and r['queue'] == Q and r['state'] == 2,
                'properties': lambda r: r['properties'] == 'P' and r['queue'] == Q and r['state'] == 2 and r['available'] < NOW,
                'fifo': lambda r: r['queue'] == Q and r['state'] == 2 and r['available'] < NOW}[kind], f'a dequeue by {kind}')
            if kind != 'id':
                ctx.expect(earliest(s), f'{key} order', 'the earliest message is not taken first', at(e), [label(ctx, e[1])])
        if code is not True:
            continue
        n += 1
        tx = present(st, 'request.trid')
        if tx is None:
            ctx.need(not ctx.lossy, f'{where}: not known if the dequeue is in a transaction')
            ctx.bad(f'{t}: in transaction', 'what happens to the message taken does not depend on the request being in a transaction', where)
            continue
        want = (lambda r: dict(r, state=3, gtrid='G')) if tx else (lambda r: None)
        ok = True
        for row, expected in ((dict(BASE, gtrid=None), want), (dict(BASE, rowid=8, id='J', gtrid=None), lambda r: r)):
            try:
                got = effect(ctx, mut, row)
            except Cannot as x:
                raise AnalysisError(f'{where}: {x}')
            w = expected(row)
            if visible(got) != visible(w):
                ok = False
                ctx.bad(f'{t}: {"in" if tx else "outside"} transaction', f'the {"selected" if row["rowid"] == 7 else "other"} message becomes {show(got)}, must become {show(w)}', at(mut[0]) if mut else where, [label(ctx, m[1]) for m in mut])
        if ok:
            ctx.ok(f'{t}: {"in" if tx else "outside"} transaction', where)
        # what is returned is the row that was taken
        v = reply_value(st, rt, 'message')
        fields(ctx, t, v, MESSAGE, where)
    ctx.need(n, 'no dequeue path answers ok')
    ctx.expect({k for k, _ in seen} == {'id', 'properties', 'fifo'}, f'{t}: kinds', 'not all ways of selecting a message are used', h.F.where())


def browse(ctx):
    t, rt = 'queue_group_message_browse_request', 'queue_group_message_browse_reply'
    h, out = paths(ctx, t)
    n = 0
    for k, st in out:
        ctx.expect(not sqls(st), f'{t}: no change', 'a browse changes messages', h.F.where())
        for e, s in message_queries(st):
            predicate(ctx, f'{t}: selection', e, s, lambda r: r['queue'] == Q and r['state'] == 2 and r['available'] < NOW and r['timestamp'] > VALUE['last'], 'a browse')
            ctx.expect(earliest(s), f'{t}: order', 'the earliest message is not given first', at(e))
        v = reply_value(st, rt, 'message')
        if v is not None and any(column_of(x) for _, x in leaves(v)):
            n += 1
            fields(ctx, t, v, MESSAGE, h.F.where())
    ctx.need(n, 'no browse path returns a message')


def check(ctx):
    load(ctx)
    ctx.schema = schema(ctx)
    ctx.rule('every enqueue path that answers ok inserts exactly one row whose columns are the members of the request (by role), with state by transaction, and answers the id stored')
    ctx.rule('the condition of each dequeue/browse selection equals the required predicate on the abstract rows; the selected row (only) is removed or marked on exactly the paths that answer ok; '
             'each member of the message returned comes from its own column')
    enqueue(ctx)
    dequeue(ctx)
    browse(ctx)


def schema(ctx):
    """create table statements found in the sources"""
    from ..facts import walk
    out = []
    for g in ctx.P.globals.values():
        for n in walk(g.get('init')):
            if n['k'] == 'str' and 'create table' in str(n.get('v')).lower():
                out.append(str(n['v']))
    return out
