"""nothing is acknowledged before it is in the database"""
from .queue_common import *
from ..rules.rows import mutates
from ..facts import walk

# request -> reply, the member that tells the outcome, when it applies
DURABLE = {
    'transaction_resource_prepare_request': ('transaction_resource_prepare_reply', 'state'),
    'transaction_resource_commit_request': ('transaction_resource_commit_reply', 'state'),
    'transaction_resource_rollback_request': ('transaction_resource_rollback_reply', 'state'),
    'queue_group_enqueue_request': ('queue_group_enqueue_reply', 'code'),
}


def changes(e):
    return e[0] == 'sql' and e[1] and rows.parse(e[1])[0][0]['op'] in ('insert', 'update', 'delete')


def pattern(ctx, st, key, where):
    """commit/rollback is always followed by a new begin"""
    opened = None
    for e in st.auto:
        if e[0] == 'tx':
            if e[1] in ('commit', 'rollback'):
                if opened:
                    ctx.bad(key, f'two ends of a database transaction without a begin in between', at(e), [opened])
                opened = at(e)
            else:
                opened = None
    if opened:
        ctx.bad(key, 'the database transaction is ended and no new one is begun: what follows is not atomic', opened)
        return False
    return True


def committed_after(st, i):
    """index of a tx commit before event i and after the last change before i"""
    last = max([j for j, e in enumerate(st.auto[:i]) if changes(e)], default=-1)
    return any(e[0] == 'tx' and e[1] == 'commit' for e in st.auto[last + 1:i])


def check(ctx):
    P = load(ctx)
    ctx.rule('an ok answer to a commit, rollback, prepare and non transactional enqueue is only handed to the persistent-reply holder, or sent after a database commit that follows the last change; '
             'the holder is only emptied after a database commit; every commit is followed by a begin; idle and batch limit lead to persist')
    for t, (rt, member) in DURABLE.items():
        h, out = paths(ctx, t)
        n = 0
        for k, st in out:
            for i, e in enumerate(st.auto):
                if e[0] != 'send' or e[1] != rt:
                    continue
                v = code_is(reply_value(st, rt, member), 'ok')
                if t.endswith('enqueue_request'):
                    if not any(changes(x) for x in st.auto[:i]):
                        continue
                    trid = fact(st, r'^request\.trid$', True) or any(f[0] == 't' and v2 is True and 'request.trid' in path(f[1]) for f, v2 in st.facts.items())
                    if trid:
                        continue
                elif v is False:
                    continue
                n += 1
                good = e[4] == 'pending' or committed_after(st, i)
                ctx.expect(good, f'{t}: {rt}', f'{rt} is sent before what it promises is in the database', at(e), [f'{label(ctx, x[1])} at {at(x)}' for x in st.auto[:i] if x[0] == 'sql'])
            pattern(ctx, st, f'{t}: database transaction', h.F.where())
        ctx.need(n, f'{t}: no path answers ok')

    # the other ends of database transactions
    for t in ('queue_group_configuration_update_request', 'queue_group_queue_restore_request', 'shutdown_request'):
        if t not in ctx.hs:
            continue
        h, out = paths(ctx, t)
        for k, st in out:
            if pattern(ctx, st, f'{t}: database transaction', h.F.where()):
                ctx.ok(f'{t}: transaction', h.F.where())
            for i, e in enumerate(st.auto):
                if e[0] == 'send' and e[1] == 'queue_group_queue_restore_reply':
                    ctx.expect(e[4] == 'pending' or committed_after(st, i), f'{t}: reply', 'the reply is sent before the restored messages are in the database', at(e))

    # who empties the holder
    n = 0
    for F in P.find(file=r'^queue/(source|include)/(queue/)?group/'):
        if F.body is None or F.d.get('lambda') or not direct_flush(P, F):
            continue
        r = GroupUses(P, ctx.prep)
        r.cut = True
        I = Interp(P, r, relevant=ctx.rel)
        out = I.run(F, ())
        ctx.used(I)
        for k, v, st in out:
            if k == 'throw':
                continue
            fl = [i for i, e in enumerate(st.auto) if e[0] == 'flush' and e[1].endswith('replies')]
            if fl:
                n += 1
            for i in fl:
                ctx.expect(any(e[0] == 'tx' and e[1] == 'commit' for e in st.auto[:i]), f'{F.qn}: flush',
                           'the waiting replies are sent before the database is committed', at(st.auto[i]))
            pattern(ctx, st, f'{F.qn}: database transaction', F.where())
    ctx.need(n, 'nothing empties the holder of persistent replies')

    # persist sends what waits, and lets the blocked dequeues have a go
    F = next(iter(P.named(r'queue::group::handle::persist$')), None)
    ctx.need(F is not None, 'queue::group::handle::persist is gone')
    r = GroupUses(P, ctx.prep)
    r.cut = True
    I = Interp(P, r, relevant=ctx.rel)
    out = I.run(F, ())
    ctx.used(I)
    for k, v, st in out:
        if k == 'throw':
            continue
        empty = any(f[0] == 't' and v2 is True and f[1][0] == 'call' and f[1][1].rsplit('::', 1)[-1] == 'empty' and 'replies' in path(f[1]) for f, v2 in st.facts.items())
        if not empty:
            ctx.expect(any(e[0] == 'flush' and e[1].endswith('replies') for e in st.auto), 'persist: replies', 'the replies that wait for persistence are not sent', F.where())
        ctx.expect(any(e[0] == 'dequeues' for e in st.auto), 'persist: blocked dequeues', 'blocked dequeues are not tried after messages have become visible', F.where())

    # idle, batch limit and shutdown lead to persist
    idle = [F for F in P.find(file=r'^queue/source/group/') if F.body is not None and any(n['k'] == 'call' and (F.name(n) or '').endswith('dispatch::condition::idle') for n in walk(F.body))]
    ctx.need(idle, 'no idle condition of the queue group is found')
    for F in idle:
        r = GroupUses(P, ctx.prep)
        lams = []
        orig = r.special
        r.special = lambda I, fr, node, name, obj, args, st: (lams.append(I.read(args[0], st)), orig(I, fr, node, name, obj, args, st))[1] if name.endswith('dispatch::condition::idle') else orig(I, fr, node, name, obj, args, st)
        I = Interp(P, r)
        I.run(F, ())
        for lam in lams:
            if lam[0] != 'lam':
                raise AnalysisError(f'{F.where()}: the idle callback is not known')
            I2 = Interp(P, GroupUses(P, ctx.prep))
            G = P.funcs[lam[1][0]]
            for k, v, st in I2.run(G, (), this=lam[3], caps=lam[2]):
                if k != 'throw':
                    ctx.expect(any(e[0] == 'persist' for e in st.auto), 'idle: persist', 'an idle queue group does not persist: what waits for persistence is never answered', G.where())
    h, out = paths(ctx, 'queue_group_enqueue_request')
    ctx.expect(any(e[0] == 'persist' for k, st in out for e in st.auto), 'batch: persist', 'a full batch of replies is not persisted', h.F.where())
    h, out = paths(ctx, 'shutdown_request')
    for k, st in out:
        ctx.expect(any(e[0] == 'persist' for e in st.auto), 'shutdown: persist', 'a shutdown does not persist what waits', h.F.where())


def direct_flush(P, F):
    return any(n['k'] == 'call' and (F.name(n) or '').endswith('Holder::send') or n['k'] == 'call' and re.search(r'pending::basic_holder<.*>::send$', F.name(n) or '') for n in dbase.all_nodes(P, F))
