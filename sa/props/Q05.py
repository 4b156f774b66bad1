"""administration of queues: which messages are affected; reading does not change anything"""
from .queue_common import *
from ..rules.rows import parse
from .Q04 import present, leaves, fields, MESSAGE, predicate
from ..rules import rows as R

DOMAIN = dict(state=[1, 2, 3], queue=[Q, QE, QO], origin=[Q, QO], id=['I', 'J'], gtrid=['G', None], available=[0, NOW + 5], redelivered=[0, 3])

META = {'id': 'id', 'queue': 'queue', 'origin': 'origin', 'trid': 'gtrid', 'properties': 'properties', 'state': 'state', 'reply': 'reply', 'redelivered': 'redelivered', 'type': 'type',
        'available': 'available', 'timestamp': 'timestamp', 'size': 'length(payload)'}
STATE = {'id': 'id', 'name': 'name', 'retry.count': 'retry_count', 'retry.delay': 'retry_delay', 'error': 'error', 'metric.count': 'count', 'metric.size': 'size', 'metric.uncommitted': 'uncommitted_count',
         'metric.dequeued': 'metric_dequeued', 'metric.enqueued': 'metric_enqueued', 'metric.last': 'last', 'created': 'created'}


def delete_if(p):
    return lambda r: None if p(r) else r


EFFECTS = {
    'queue_group_queue_clear_request': ('request.queues', delete_if(lambda r: r['state'] == 2 and r['queue'] == Q)),
    'queue_group_queue_restore_request': ('request.queues', lambda r: dict(r, queue=Q) if r['state'] == 2 and r['origin'] == Q else r),
    'queue_group_message_remove_request': ('request.ids', {True: delete_if(lambda r: r['queue'] == Q and r['id'] == 'I'), False: delete_if(lambda r: r['state'] == 2 and r['queue'] == Q and r['id'] == 'I')}),
}


def rounds(st, over):
    """events of each iteration over a member of the request"""
    out, cur = [], None
    for e in st.auto:
        if e[0] == 'each' and e[1].startswith(over):
            cur = []
            out.append(cur)
        elif cur is not None and e[0] == 'sql':
            cur.append(e)
    return out


def check(ctx):
    load(ctx)
    ctx.rule('each administrative operation executes, for every element of the request, statements whose composed effect on every abstract message row equals the required one')
    ctx.rule('peek, browse, meta and state handlers execute no mutating statement, and every member of what they return comes from its own column')
    for t, (over, want) in EFFECTS.items():
        h, out = paths(ctx, t, each=True)
        some = set()
        for k, st in out:
            w = want
            flag = None
            if isinstance(want, dict):
                flag = next((v for f, v in st.facts.items() if f[0] == 't' and path(strip(f[1])) == 'request.force'), None)
                ctx.need(flag is not None or not ctx.lossy, f'{t}: not known if it is forced')
                w = want.get(flag)
            rs = rounds(st, over)
            before = [e for e in st.auto if e[0] == 'sql' and R.mutates(e[1])]
            inside = [e for r in rs for e in r if R.mutates(e[1])]
            ctx.expect(len(before) == len(inside), f'{t}: only what was asked for', 'messages are changed outside the iteration over what was asked for', at(before[0]) if before else h.F.where())
            for r in rs:
                muts = [e for e in r if R.mutates(e[1], 'message')]
                other = [e for e in r if R.mutates(e[1]) and e not in muts]
                ctx.expect(not other, f'{t}: only messages', 'something else than messages is changed', at(other[0]) if other else h.F.where())
                if w is None:
                    ctx.bad(f'{t}: forced', 'the operation does not depend on being forced', h.F.where())
                    continue
                some.add(flag)
                if check_effect(ctx, f'{t}: effect{"" if flag is None else " forced" if flag else " not forced"}', h, st, muts, w, variants(**DOMAIN), queue_table(0)):
                    ctx.ok(f'{t}: {flag}', h.F.where())
        ctx.need(some == ({True, False} if isinstance(want, dict) else {None}), f'{t}: no iteration found')
    # metrics
    t = 'queue_group_metric_reset_request'
    h, out = paths(ctx, t, each=True)
    n = 0
    for k, st in out:
        for r in rounds(st, 'request.queues'):
            n += 1
            muts = [e for e in r if R.mutates(e[1])]
            row0 = dict(id=Q, rowid=Q, name='n', retry_count=2, retry_delay=3, error=QE, count=5, size=6, uncommitted_count=7, metric_dequeued=8, metric_enqueued=9, last=10, created=11)
            for row in (row0, dict(row0, id=QO, rowid=QO)):
                want = dict(row, metric_dequeued=0, metric_enqueued=0) if row['id'] == Q else row
                got = row
                for e in muts:
                    if R.mutates(e[1], 'message'):
                        ctx.bad(f'{t}: messages', 'a metric reset changes messages', at(e))
                    got = R.apply(e[1], [bind(a, ctx, e) for a in e[2]], got, {}, 'queue')
                diff = None if got == want else 'deleted' if got is None else ', '.join(f'{c}: {got[c]}' for c in row if got[c] != want[c])
                ctx.expect(diff is None, f'{t}: effect', f'a metric reset of {"the" if row["id"] == Q else "another"} queue leaves {diff}', at(muts[0]) if muts else h.F.where())
    ctx.need(n, f'{t}: no iteration found')
    # reading
    reading(ctx)


def reading(ctx):
    for t, rt, member, want in (('queue_group_message_meta_peek_request', 'queue_group_message_meta_peek_reply', 'messages', META), ('queue_group_message_meta_request', 'queue_group_message_meta_reply', 'messages', META),
                                ('queue_group_state_request', 'queue_group_state_reply', 'queues', STATE), ('queue_group_message_peek_request', 'queue_group_message_peek_reply', 'messages', MESSAGE)):
        h, out = paths(ctx, t, each=True)
        found = 0
        for k, st in out:
            muts = [e for e in st.auto if e[0] == 'sql' and R.mutates(e[1])]
            ctx.expect(not muts, f'{t}: no change', 'a request that only reads changes the queue-base', at(muts[0]) if muts else h.F.where())
            vs = [reply_value(st, rt, member)]
            vs += [a for e in st.auto if e[0] == 'append' for a in e[2]]
            for v in vs:
                if v is not None and any(column_of(x) for _, x in leaves(v)):
                    found += 1
                    fields(ctx, t, v, want, h.F.where())
            for e in st.auto:
                if e[0] == 'sql':
                    for s in parse(e[1])[0]:
                        if s['op'] == 'select' and s['table'] == 'message':
                            w = {'queue_group_message_meta_peek_request': lambda r: r['queue'] == Q and (present(st, 'request.selector.properties') is not True or r['properties'] == 'P'),
                                 'queue_group_message_meta_request': lambda r: r['queue'] == Q, 'queue_group_message_peek_request': lambda r: r['id'] == 'I'}.get(t)
                            if w and any(c[0] == 'col' and c[2] == 'id' for c in s['cols']):
                                predicate(ctx, f'{t}: selection', e, s, w, t)
                        elif s['op'] == 'select' and s['table'] == 'queue' and t == 'queue_group_state_request':
                            ctx.expect(s['where'] is None and s.get('limit') is None, f'{t}: all queues', 'the state does not contain all queues', at(e))
        ctx.need(found, f'{t}: no row is returned')
