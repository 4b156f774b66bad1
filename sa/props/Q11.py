"""blocked dequeues: parked, retried, forgotten, cleaned up"""
from .queue_common import *
from ..rules.grow import Tracks
from .Q10 import positive
from .Q04 import predicate, variants
from ..rules import rows as R
from ..facts import walk

DEQ = re.compile(r'queue::group::handle::local::dequeue::handle$')


class Tracked(Tracks, GroupUses):
    watch = r'dequeues|replies'

    def special(self, I, fr, node, name, obj, args, st):
        if name.endswith('signal::timer::get'):
            return [(('call', name, (), None), st)]
        if 'Queuebase::available' in name and not self.cut:
            return [(('call', name, tuple(I.rvalue(a, st) for a in args), None), self.event(st, ('available', name, tuple(I.rvalue(a, st) for a in args), (fr.F.file, node.get('l')))))]
        s2 = self.track(I, fr, node, name, obj, args, st)
        r = super().special(I, fr, node, name, obj, args, s2)
        if r is None and s2 is not st:
            target = obj if obj is not None else args[0]
            if name.endswith('::exchange'):
                old = I.rvalue(args[0], st)
                return [(old, I.write(args[0], I.rvalue(args[1], st), s2))]
            return [(('c', None), I.havoc(target, I.site(fr, node), s2))]
        return r

    def on_fact(self, I, key, val, st):
        s = repr(key)
        if 'timer::get' in s or 'dequeues' in s or 'Queuebase::available' in s or 'sql.column' in s or 'replies' in s:
            return self.event(st, ('fact', key, val, None))
        return st


def facts_of(st, i=None):
    return [e for e in st.auto[:i] if e[0] == 'fact']


def check(ctx):
    P = load(ctx)
    also_relevant(ctx, {'dequeues', 'replies'})
    ctx.rule('a blocking dequeue that finds nothing is parked, with the timer armed for the earliest message that becomes available; every parked request is retried after a persist and when the timer fires, unless it is forgotten, '
             'its process is gone, or the group shuts down; the forget reply says whether it was removed')
    t = 'queue_group_dequeue_request'
    h, out = paths(ctx, t, cls=Tracked)
    n = 0
    for k, st in out:
        parked = [i for i, e in enumerate(st.auto) if e[0] == 'grow' and 'dequeues' in e[1]]
        if not parked:
            ctx.expect(any(e[0] == 'send' for e in st.auto), f'{t}: parked', 'a dequeue is neither answered nor parked', h.F.where())
            continue
        n += 1
        i = parked[0]
        e = st.auto[i]
        ctx.expect(any(path(strip(a)) == 'request' for a in e[2]), f'{t}: parked', 'what is parked is not the request', at(e))
        ctx.expect(not sqls(st), f'{t}: parked unchanged', 'a message is taken and the request is parked', at(e))
        asked = [x for x in st.auto if x[0] == 'sql' and re.search(r'MIN\( *(m\.)?available', x[1] or '', re.I)]
        if not ctx.expect(asked, f'{t}: earliest', 'a request is parked without looking for the earliest message that becomes available', at(e)):
            continue
        for x in asked:
            predicate(ctx, f'{t}: earliest', x, R.parse(x[1])[0][0], lambda row: row['state'] == 2 and row['queue'] == Q, 'the earliest message that becomes available')
        avail = None
        for f in facts_of(st):
            if f[1][0] == 't' and 'timer::get' not in repr(f[1]) and 'sql.column' in repr(f[1]):
                avail = positive(f[1], f[2])
        timers = [x for x in st.auto if x[0] == 'timer' and x[1] == 'set']
        if avail and not timers:
            current = [positive(f[1], f[2]) for f in facts_of(st) if f[1][0] == 't' and 'timer::get' in repr(f[1])]
            cmp = [f for f in facts_of(st) if f[1][0] == 'bin' and 'timer::get' in repr(f[1])]
            ok = True in current and any(sooner(f) is False for f in cmp)
            ctx.expect(ok, f'{t}: timer', 'a parked request has to wait for a message that becomes available later and no timer is set for it', at(e))
        elif timers:
            v = path(timers[0][2][0]) if timers[0][2] else ''
            cmp = [f for f in facts_of(st) if f[1][0] == 'bin' and 'timer::get' in repr(f[1])]
            ctx.expect('now()' in v and 'sql.column' in v and not any(sooner(f) is False for f in cmp), f'{t}: timer', 'the timer is set to something else than the time to the earliest available message', at(timers[0]))
    ctx.need(n, f'{t}: no path parks the request')

    # timer
    t = 'signal_timeout'
    h, out = paths(ctx, t, cls=Tracked)
    for k, st in out:
        if any(e[0] == 'dequeues' for e in st.auto):
            ctx.ok(f'{t}: retry', h.F.where())
            continue
        waiting = [positive(f[1], f[2]) for f in facts_of(st) if 'replies' in repr(f[1])]
        ctx.expect(waiting and waiting[-1] is True or any(e[0] == 'persist' for e in st.auto), f'{t}: retry', 'the timer fires, nothing is going to be persisted, and blocked dequeues are not retried', h.F.where())

    # forget
    t = 'queue_group_dequeue_forget_request'
    h, out = paths(ctx, t, cls=Tracked)
    kinds = set()
    for k, st in out:
        v = reply_value(st, 'queue_group_dequeue_forget_reply', 'discarded')
        gone = [e for e in st.auto if e[0] == 'shrink' and 'dequeues' in e[1]]
        found = [positive(f[1], f[2]) for f in facts_of(st) if 'dequeues' in repr(f[1])]
        kinds.add(bool(gone))
        if gone:
            ctx.expect(v is not None and v[0] == 'c' and v[1] in (True, 'true', 1), f'{t}: discarded', 'a parked request is removed and the answer says it was not', at(gone[0]))
            ctx.expect(found and found[-1], f'{t}: found', 'something else than the parked request with the correlation is removed', at(gone[0]))
            ctx.expect('correlation' in repr([f[1] for f in facts_of(st)]), f'{t}: which', 'the parked request is not identified by the correlation', at(gone[0]))
        else:
            ctx.expect(not (found and found[-1]), f'{t}: kept', 'the parked request is found and not removed', h.F.where())
            ctx.expect(v is None or not (v[0] == 'c' and v[1] in (True, 'true', 1)), f'{t}: discarded', 'the answer says removed and nothing is', h.F.where())
    ctx.expect(kinds == {True, False}, f'{t}: both', 'a parked request can not be forgotten', h.F.where())

    # dead callers
    for t, what in (('event_process_exit', 'pid'), ('event_ipc_destroyed', 'ipc')):
        h, out = paths(ctx, t, cls=Tracked)
        for k, st in out:
            for c in ('dequeues', 'replies'):
                ctx.expect(any(e[0] == 'shrink' and e[1].endswith(c) and (any(what in path(a) for a in e[2]) or any(a[0] == 'lam' for a in e[2])) for e in st.auto), f'{t}: {c}', f'what waits for a dead process ({c}) is kept', h.F.where())

    # shutdown: the callers that wait are told
    h, out = paths(ctx, 'shutdown_request', cls=Tracked)
    for k, st in out:
        gone = [e for e in st.auto if e[0] == 'shrink' and 'dequeues' in e[1]]
        told = any(e[0] == 'flush' and not e[1].endswith('replies') for e in st.auto) or any(e[0] == 'send' and 'forget' in (e[1] or '') for e in st.auto)
        ctx.expect(gone and told, 'shutdown: blocked dequeues', 'blocked dequeues are not told about the shutdown', h.F.where())

    # the retry itself
    for F in P.named(r'detail::pending::dequeues$'):
        if not F.file.startswith('queue/source/group'):
            continue
        r = Tracked(P, ctx.prep)
        r.cut = False
        calls = []

        def special(I, fr, node, name, obj, args, st, r=r):
            if DEQ.search(name):
                calls.append(node)
                return [(('call', name, tuple(I.rvalue(a, st) for a in args), None), r.event(st, ('retry', path(args[-1]), (), (fr.F.file, node.get('l')))))]
            return Tracked.special(r, I, fr, node, name, obj, args, st)
        r.special = special
        rel = facts.relevant(P, lambda F2, n: F2.id in ctx.rel or n['k'] == 'call' and DEQ.search(F2.name(n) or '') is not None)
        I = Interp(P, r, relevant=rel)
        out = I.run(F, ())
        ctx.used(I)
        some = 0
        for k, v, st in out:
            if k == 'throw':
                continue
            nothing = any('dequeues' in repr(f[1]) and f[1][0] == 't' and f[1][1][0] == 'call' and f[1][1][1].endswith('::empty') and f[2] is True for f in facts_of(st))
            if nothing:
                continue
            some += 1
            ctx.expect(any(e[0] == 'available' and e[1].endswith('available') for e in st.auto), 'retry: available', 'blocked dequeues are retried without asking what is available', F.where())
            ctx.expect(any(e[0] == 'timer' for e in st.auto), 'retry: timer', 'after a retry the timer is neither set nor turned off', F.where())
            for e in st.auto:
                if e[0] == 'timer' and e[1] == 'set':
                    ctx.expect(bool(e[2]) and 'now()' in path(e[2][0]), 'retry: timer', 'the timer is set to something else than the time to the earliest available message', at(e))
        ctx.expect(calls, 'retry: dequeue', 'the blocked dequeues are not handed to the dequeue again', F.where())
        ctx.expect(any(e[0] == 'timer' and e[1] == 'set' for k, v, st in out for e in st.auto), 'retry: timer', 'a retry never arms the timer', F.where())
        ctx.need(some, 'no path of the retry is understood')
        # a filter that retries some and keeps others: the others are put back
        choosy = [G for G in P.funcs.values() if G.d.get('lambda') and G.id.startswith(F.qn + '(') and {n['e']['v'] for n in walk(G.body) if n['k'] == 'return' and n.get('e') and n['e']['k'] == 'bool'} == {True, False}]
        if choosy:
            tried = [st for k, v, st in out if k != 'throw' and any(e[0] == 'retry' for e in st.auto)]
            for st in tried:
                ctx.expect(any(e[0] == 'grow' and 'dequeues' in e[1] for e in st.auto), 'retry: put back', 'blocked dequeues that are not retried are not put back', choosy[0].where())

    # what may be available
    for F in P.named(r'queue::group::Queuebase::available$'):
        r = GroupUses(P, ctx.prep)
        I = Interp(P, r, relevant=ctx.rel)
        for k, v, st in I.run(F, ()):
            for e in st.auto:
                if e[0] == 'sql' and e[1]:
                    x = R.parse(e[1])[0][0]
                    if x['table'] == 'queue':
                        for count in (1, 2, 50):
                            ctx.expect(R.selects(x, [bind(a, ctx, e) for a in e[2]], dict(queue_table(0)['queue'][0], count=count), queue_table(0)), 'available: queues', f'a queue with {count} messages is not considered when blocked dequeues are retried', at(e))


def sooner(f):
    """wanted < current as decided on the path (None: another comparison)"""
    op, l, r = f[1][1], f[1][2], f[1][3]
    wl, wr = 'timer::get' in repr(l), 'timer::get' in repr(r)
    if wl == wr:
        return None
    # op is always '>' (normal form): l > r
    return f[2] if wl else not f[2]
