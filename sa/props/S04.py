"""a call that outlives its deadline is answered with a timeout, and every deadline has a timer"""
from .svc_common import *
from ..interp import subterms_of as subterms

REPLY = 'service_name_lookup_reply'


class D(SM):
    facts_of = SM.facts_of + r'|duration|deadline|Deadline|trid|gtrid|contract'
    again = False

    def on_assign(self, I, fr, node, lhs, val, st):
        if 'Deadline::find_entry' in repr(lhs) and strip_hv(lhs)[0] == 'mem':
            return self.event(st, ('entry', strip_hv(lhs)[2], (I.rvalue(val, st), lhs), self.site(fr, node)))
        return super().on_assign(I, fr, node, lhs, val, st)


class Again(D):
    again = True


def check(ctx):
    P = load(ctx)
    ctx.rule('every deadline that is added, and every deadline that becomes the next when one is removed, sets the timer; the deadline of a call is the earlier of its service\'s timeout and its caller\'s; an ack removes it; '
             'when it passes, the lookup or the caller that waits is answered once with a timeout, the instance is remembered until its ack and an assassination is ordered')
    lookup(ctx)
    computed(ctx)
    ack(ctx)
    expired(ctx)
    entries(ctx)
    for t in sorted(ctx.hs):
        if t in (LOOKUP,):
            continue
        h, r, ps = paths(ctx, t, Again, limits=Once)
        timers(ctx, ps, t)


def timers(ctx, ps, t):
    """results of add and remove reach the timer"""
    for k, s in ps:
        evs = s.auto
        for i, e in enumerate(evs):
            if e[0] == 'deadline' and e[1] in ('add', 'remove'):
                res = e[2][-1]
                f = [x for x in evs[i:] if x[0] == 'fact' and x[1][0] == 't' and any(y == res for y in subterms(x[1][1]))]
                set_ = [x for x in evs[i:] if x[0] == 'timer' and x[1] == 'set' and any(y == res for y in subterms(x[2][0]))]
                if not ctx.expect(f or set_, f'{t}: {e[1]}: timer', f'{t}: a deadline is {"added" if e[1] == "add" else "removed"}, and the timer is not set for what is next', at(e)):
                    continue
                if f and f[0][2]:
                    ctx.expect(len(set_) >= 1, f'{t}: {e[1]}: timer', f'{t}: the next deadline changes and the timer is not set', at(e))
                elif f:
                    ctx.expect(not set_, f'{t}: {e[1]}: timer', f'{t}: the timer is set to nothing', at(e))


def deadline_of(r, v):
    d = member(r, v, 'deadline')
    return member(r, d, 'remaining') if d is not None else None


def known(evs):
    """the deadline of the call, as the path has decided: 'service' | 'caller' | 'none' | ('call', term) | None"""
    dur = pos = call = earlier = None
    for e in evs:
        if e[0] != 'fact':
            continue
        k, v = e[1], e[2]
        if k[0] == 't':
            p = path(k[1])
            x = strip(k[1])
            if x[0] == 'call' and x[2] and 'Deadline::' not in x[1] and any('request.deadline' == path(y) for y in x[2]) and any('services' in path(y) for y in x[2]):
                return ('call', x, v)
            if p.endswith('timeout.duration'):
                dur = v
            elif p == 'request.deadline':
                call = v
        elif k[0] == 'bin':
            a, b = path(k[2]), path(k[3])
            if 'timeout.duration' in a and 'request.deadline' not in a + b:
                pos = v if k[1] == '>' else not v
            elif a.startswith('*request.deadline') and 'duration' in b and k[1] == '>':
                earlier = v
            elif 'duration' in a and b.startswith('*request.deadline') and k[1] == '>':
                earlier = not v
    has = False if dur is False or pos is False else True if dur and pos else None
    if has is False:
        return {True: 'caller', False: 'none'}.get(call, 'caller?')
    if has:
        if call is False or earlier is True:
            return 'service'
        if earlier is False:
            return 'caller'
    return None


def kind(v):
    p = path(v)
    return 'service' if 'duration' in p and 'now()' in p else 'caller' if 'request.deadline' in p else p


def lookup(ctx):
    h, r, ps = paths(ctx, LOOKUP, D)
    w = h.F.where()
    timers(ctx, ps, LOOKUP)
    ctx.fns = set()
    n = {'reserved': 0, 'pending': 0, 'reused': 0}
    for k, s in ps:
        evs = s.auto
        added = [e for e in evs if e[0] == 'deadline' and e[1] == 'add']
        res = [e for e in evs if e[0] == 'reserve']
        stored = [e for e in evs if e[0] == 'grow' and e[1].endswith('lookups')]
        found = [e for e in evs if e[0] == 'fact' and e[1][0] == 't' and 'Deadline::find_entry' in repr(e[1])]
        sent = [e for e in evs if e[0] == 'send' and e[1] == REPLY]
        ctx.expect(len(added) <= 1, 'lookup: deadline', 'more than one deadline is added for a call', at(added[-1]) if added else w)
        for e in added:
            c = member(r, e[2][0], 'correlation')
            ctx.expect(c is not None and path(c) == 'request.correlation', 'lookup: correlation', f'the deadline is added with the correlation {path(c) if c else "?"}', at(e))
        kn = known(evs)
        if isinstance(kn, tuple):
            ctx.fns.add(kn[1][1])
        if res:
            n['reserved'] += 1
            i, svc = path(strip_hv(res[0][2][-1])), path(res[0][2][0])
            look = [e for e in evs if e[0] == 'deadline' and e[1] == 'find_entry']
            ctx.expect(look and path(look[0][2][0]) == 'request.correlation' and found, 'reserved: entry', 'a reserved lookup does not look for the deadline it got when it had to wait', at(res[0]))
            if found and found[0][2]:
                n['reused'] += 1
                ctx.expect(not added, 'reserved: twice', 'a lookup that has waited gets a new deadline', at(res[0]))
                for m, want in (('target', None), ('service', svc)):
                    a = [e for e in evs if e[0] == 'entry' and e[1] == m]
                    ok = a and (path(a[-1][2][0]) == want if want else path(a[-1][2][0]) in i)
                    ctx.expect(ok, f'reserved: {m}', f'the deadline of a lookup that has waited does not get its {"instance" if m == "target" else m}', at(res[0]))
                for e in sent:
                    d = deadline_of(r, e[2][1])
                    ctx.expect(d is not None and 'Deadline::find_entry' in repr(d) and 'when' in path(d) and 'now()' in path(d), 'reserved: remaining', 'the caller that has waited is not told what remains of its deadline', at(e))
                continue
            has(ctx, evs, kn, added, 'reserved', res[0], lambda e: None)
            for e in added:
                t, sv = member(r, e[2][0], 'target'), member(r, e[2][0], 'service')
                ctx.expect(t is not None and path(t) in i, 'reserved: target', 'the deadline does not have the reserved instance', at(e))
                ctx.expect(sv is not None and path(sv) == svc, 'reserved: service', 'the deadline does not have the service', at(e))
                when(ctx, r, e, kn, 'reserved')
                for m in sent:
                    d = deadline_of(r, m[2][1])
                    x = member(r, e[2][0], 'when')
                    ctx.expect(d is not None and x is not None and 'now()' in path(d) and (path(x) in path(d)), 'reserved: remaining', 'the caller is not told what remains of the deadline', at(m))
        elif stored:
            seq = [e for e in evs if e[0] == 'fact' and 'm_sequential' in repr(e[1])]
            wait = any(e[0] == 'fact' and e[1][0] == 'eq' and e[2] and 'semantic' in path(e[1][1]) and path(e[1][2]).endswith('wait') for e in evs)
            disc = any(e[0] == 'discover' for e in evs)
            if added:
                n['pending'] += 1
                ctx.expect(not wait and not disc, 'pending: wait', 'a caller that wants to wait gets a deadline', at(added[0]))
                when(ctx, r, added[0], kn, 'pending')
            elif not wait and not disc:
                has(ctx, evs, kn, added, 'pending', stored[0], None)
    for x, c in n.items():
        ctx.expect(c, f'lookup: {x}', {'reserved': 'no lookup reserves an instance', 'pending': 'a lookup that waits gets no deadline', 'reused': 'the deadline of a lookup that has waited is not found again'}[x], w)


def has(ctx, evs, kn, added, who, e, f):
    if isinstance(kn, tuple):
        ctx.expect(bool(added) == kn[2], f'{who}: deadline', 'a call that has a deadline is not watched' if kn[2] else 'a call without deadline is watched', at(e))
    elif kn in ('service', 'caller'):
        ctx.expect(added, f'{who}: deadline', 'a call that has a deadline is not watched', at(e))
    elif kn == 'none':
        ctx.expect(not added, f'{who}: deadline', 'a call without deadline is watched', at(e))
    else:
        ctx.expect(False, f'{who}: deadline', 'the deadline of a call is not decided by the timeout of the service and the deadline of the caller', at(e))


def when(ctx, r, e, kn, who):
    x = member(r, e[2][0], 'when')
    if not ctx.expect(x is not None, f'{who}: when', 'a deadline without a time is added', at(e)):
        return
    if isinstance(kn, tuple):
        ctx.expect(any(y == kn[1] for y in subterms(x)), f'{who}: when', f'the deadline is {path(x)[:80]}', at(e))
    else:
        ctx.expect(kind(x) == kn, f'{who}: when', f'the deadline of the {kind(x)} is used, and it is not the earlier one', at(e))


def computed(ctx):
    """the function that computes the deadline"""
    for name in ctx.fns:
        Fs = [F for F in ctx.P.funcs.values() if F.qn == name and F.body is not None and F.file.startswith('service/')]
        ctx.need(Fs, f'{name} has no body')
        F = Fs[0]
        args = []
        for i, p in enumerate(F.params):
            t = F.ptype(i)
            args.append(('sym', 'services') if 'Service' in t else ('mem', ('sym', 'request'), 'deadline') if 'optional' in t else ('call', 'now', (), None))
        r, out, I = run(ctx, F, D, args, rel=False)
        got = set()
        for k, v, s in out:
            v = I.rvalue(v, s)
            kn = known(s.auto)
            for b, s2 in I.truth(('bool', v) if v[0] != 'bool' else v, s):
                kk = known(s2.auto)
                if not b:
                    ctx.expect(kk == 'none', 'computed: none', 'a call that has a deadline is not watched', F.where())
                    got.add('none')
                else:
                    got.add(kind(v))
                    ctx.expect(kk in ('caller', 'service') and kind(v) == kk or kk == 'caller?', 'computed: earlier', f'the deadline is that of the {kind(v)[:40]}, and it is not the earlier one', F.where())
        for x in ('caller', 'service', 'none'):
            ctx.expect(x in got, f'computed: {x}', f'the deadline is never that of the {x}', F.where())


def ack(ctx):
    h, r, ps = paths(ctx, 'service_acknowledge', Again)
    for k, s in ps:
        evs = s.auto
        rem = [e for e in evs if e[0] == 'deadline' and e[1] == 'remove']
        ctx.expect(rem and path(rem[0][2][0]) == 'request.correlation', 'ack: deadline', 'the ack of a call leaves its deadline', h.F.where())
        f = [e for e in evs if e[0] == 'fact' and e[1][0] == 't' and 'timeout_instances' in repr(e[1])]
        if not ctx.expect(f, 'ack: timeout', 'the ack of an instance is not checked against the calls that timed out', h.F.where()):
            continue
        ctx.expect('request.metric.process.pid' in path(f[0][1][1]), 'ack: whose', 'the ack of an instance is not checked against its own timeout', h.F.where())
        rb = [e for e in evs if e[0] == 'send' and e[1] == 'transaction_rollback_request']
        gone = [e for e in evs if e[0] == 'shrink' and e[1].endswith('timeout_instances')]
        if f[0][2]:
            ctx.expect(len(gone) >= 1, 'ack: rollback', 'the timeout of an instance is kept after its ack, and the transaction of its next call is rolled back', h.F.where())
            for e in gone:
                ctx.expect(e[2] and 'request.metric.process.pid' in ' '.join(path(x) for x in e[2]), 'ack: which', 'the timeouts of other instances are forgotten', at(e))
            t = [e for e in evs if e[0] == 'fact' and e[1][0] in ('t', 'eq') and 'request.metric.trid' in path(e[1][1])]
            if not t:
                ctx.expect(rb, 'ack: transaction', 'the transaction of a call that timed out is not rolled back', h.F.where())
            else:
                ctx.expect(len(rb) == (1 if t[0][2] == (t[0][1][0] == 't') else 0), 'ack: transaction', 'the transaction of a call that timed out is not rolled back' if t[0][2] else 'no transaction is rolled back', h.F.where())
        else:
            ctx.expect(not rb, 'ack: rollback', 'the transaction of a call that has not timed out is rolled back', at(rb[0]) if rb else h.F.where())
        for e in rb:
            x = member(r, e[2][1], 'trid')
            ctx.expect(x is not None and path(x) == 'request.metric.trid', 'ack: which transaction', 'another transaction is rolled back', at(e))
            ctx.expect('transaction' in e[1] and 'transaction' in repr(e[2][0]), 'ack: manager', 'the rollback is not sent to the transaction manager', at(e))


def expired(ctx):
    Fs = [F for F in ctx.P.find(file=r'^service/') if F.qn.endswith('service::manager::handle::timeout') and F.body is not None]
    ctx.need(Fs, 'handle::timeout not found')
    F = Fs[0]
    r, out, I = run(ctx, F, D, [('sym', 'State:state')], limits=Once)
    n = {'lookup': 0, 'call': 0, 'fatal': 0, 'timer': 0}
    for k, v, s in out:
        evs = s.auto
        x = [e for e in evs if e[0] == 'deadline' and e[1] == 'expired']
        if not ctx.expect(len(x) == 1 and 'now()' in path(x[0][2][0]), 'timeout: expired', 'the deadlines that have passed are not taken', F.where()):
            continue
        res = x[0][2][-1]
        el = [e for e in evs if e[0] == 'each' and any(y == res for y in subterms(e[2][0]))]
        nx = [e for e in evs if e[0] == 'fact' and any(y == res for y in subterms(e[1])) and path(e[1][1]).endswith('.deadline')]
        tm = [e for e in evs if e[0] == 'timer' and e[1] == 'set']
        # the facts about the next deadline are dropped once the same term has been decided
        nxt = [val for kk, val in s.facts.items() if kk[0] == 't' and any(y == res for y in subterms(kk[1])) and path(kk[1]).endswith('.deadline')]
        ctx.expect(nxt or tm, 'timeout: timer', 'the timer is not set for the next deadline', F.where())
        if nxt and nxt[0]:
            n['timer'] += 1
            ctx.expect(len(tm) == 1 and any(y == res for y in subterms(tm[0][2][0])), 'timeout: timer', 'the timer is not set for the next deadline', F.where())
        if not el:
            continue
        e = el[0]
        p = path(strip_hv(e[2][0]))
        f = [y for y in evs if y[0] == 'fact' and y[1][0] == 't' and 'pending.lookups' in path(y[1][1]) and 'find' in path(y[1][1])]
        if not ctx.expect(f and p + '.correlation' in path(f[0][1][1]), 'timeout: waits', 'a passed deadline is not checked against the lookups that wait', at(e)):
            continue
        sent = [y for y in evs if y[0] == 'send']
        if f[0][2]:
            n['lookup'] += 1
            gone = [y for y in evs if y[0] == 'shrink' and y[1].endswith('lookups')]
            ctx.expect(len(gone) == 1 and 'find' in path(gone[0][2][0]), 'timeout: lookup gone', 'a lookup that has timed out keeps waiting', at(e))
            if ctx.expect(len(sent) == 1 and sent[0][1] == REPLY, 'timeout: lookup', f'a lookup that has timed out gets {len(sent)} replies', at(e)):
                y = sent[0]
                st = member(r, y[2][1], 'state')
                ctx.expect(st is not None and path(st).endswith('timeout'), 'timeout: lookup state', 'a lookup that has timed out is told something else', at(y))
                ctx.expect('pending.lookups' in path(y[2][0]) and path(y[2][0]).endswith('request.process.ipc'), 'timeout: lookup to', 'the timeout of a lookup is not sent to its caller', at(y))
                ctx.expect(any(z and z[0] == 'call' and z[1].endswith('reverse::type') and 'pending.lookups' in path(z) for z in subterms(y[2][1])) or 'lookups' in path(member(r, y[2][1], 'correlation') or ('c', 0)), 'timeout: lookup reply', 'the timeout of a lookup does not have its correlation', at(y))
            ctx.expect(not any(y[0] in ('consume', 'announce') for y in evs), 'timeout: both', 'an instance is killed for a lookup that was waiting', at(e))
            continue
        c = [y for y in evs if y[0] == 'consume']
        if not c:
            bad = any(y[0] == 'fact' and y[2] is False and p in path(y[1][1]) and 'contains' in path(y[1][1]) for y in evs) or any(val is False and kk[0] == 't' and 'contains' in path(kk[1]) and p in path(kk[1]) for kk, val in s.facts.items())
            ctx.expect(bad, 'timeout: call', 'the deadline of a call passes and nothing happens', at(e))
            ctx.expect(not sent, 'timeout: unknown', 'a caller that is not known gets a timeout', at(e))
            continue
        c = c[0]
        ctx.expect(path(c[2][0]) == p + '.correlation', 'timeout: consume', f'the caller of {path(c[2][0])} is timed out', at(c))
        ctx.expect(p + '.target' in path(c[2][-1]), 'timeout: consume', 'the caller of another instance is timed out', at(c))
        ok = [y for y in evs if y[0] == 'fact' and y[1][0] == 't' and 'Sequential::consume' in repr(y[1])]
        if not (ok and ok[0][2]):
            ctx.expect(ok and not sent, 'timeout: none', 'a call that is not there any more is timed out', at(c))
            continue
        n['call'] += 1
        if ctx.expect(len(sent) == 1 and sent[0][1] == 'service_reply', 'timeout: caller', f'the caller of a call that has timed out gets {len(sent)} replies', at(c)):
            y = sent[0]
            co = member(r, y[2][1], 'correlation')
            cd = member(r, y[2][1], 'code')
            cd = member(r, cd, 'result') if cd is not None else None
            ctx.expect('Sequential::consume' in repr(y[2][0]) and path(y[2][0]).endswith('process.ipc'), 'timeout: to', f'the timeout is sent to {path(y[2][0])[-60:]}', at(y))
            ctx.expect(co is not None and ('Sequential::consume' in repr(co) and path(co).endswith('correlation') or path(co) == p + '.correlation'), 'timeout: correlation', 'the timeout does not have the correlation of the call', at(y))
            ctx.expect(cd is not None and path(cd).endswith('xatmi::timeout'), 'timeout: code', f'the caller gets {path(cd) if cd else "?"} for its timeout', at(y))
        kept = [y for y in evs if y[0] == 'grow' and y[1].endswith('timeout_instances')]
        ctx.expect(len(kept) == 1 and p + '.target' in path(kept[0][2][0]) and path(kept[0][2][0]).endswith('.pid'), 'timeout: remembered', 'the instance of a call that has timed out is not remembered, and its transaction is not rolled back when it is done', at(c))
        an = [y for y in evs if y[0] == 'announce' and 'assassination' in y[1]]
        if ctx.expect(len(an) == 1, 'timeout: order', 'the instance that does not answer is not reported', at(c)):
            t = member(r, an[0][2][0], 'target')
            ct = member(r, an[0][2][0], 'contract')
            ctx.expect(t is not None and p + '.target' in path(t) and path(t).endswith('.pid'), 'timeout: target', 'another process than the one that does not answer is to be killed', at(an[0]))
            ctx.expect(ct is not None and 'timeout.contract' in path(ct) and p + '.service' in path(ct), 'timeout: contract', 'the contract is not the one of the service', at(an[0]))
        fat = [y for y in evs if y[0] == 'fact' and 'contract' in path(y[1][1]) and ('fatal' in path(y[1][1]) or y[1][0] == 'eq')]
        dis = [y for y in evs if y[0] == 'grow' and y[1].endswith('disabled')]
        ctx.expect(fat, 'timeout: fatal', 'an instance that is going to be killed may be reserved', at(c))
        if fat and fat[0][1][0] == 't':
            n['fatal'] += fat[0][2]
            ctx.expect(len(dis) == (1 if fat[0][2] else 0), 'timeout: fatal', 'an instance that is going to be killed may be reserved' if fat[0][2] else 'an instance that is not going to be killed is disabled', at(c))
        for y in dis:
            n['fatal'] += fat[0][1][0] != 't' if fat else 0
            ctx.expect(path(y[2][0]) == p + '.target', 'timeout: disabled', 'another instance is disabled', at(y))
    for x, c in n.items():
        ctx.expect(c, f'timeout: {x}', {'lookup': 'lookups that wait do not time out', 'call': 'calls do not time out', 'fatal': 'an instance that is going to be killed may be reserved', 'timer': 'the timer is not set for the next deadline'}[x], F.where())


class Entries(Tracks, dbase.Uses):
    """what the deadlines do to their entries"""
    try_may_throw = False
    watch = r'm_entries$'

    def special(self, I, fr, node, name, obj, args, st):
        s2 = self.track(I, fr, node, name, obj, args, st)
        if s2 is not st:
            t = obj if obj is not None else args[0]
            v = ('call', name, tuple(I.rvalue(a, st) for a in args), I.site(fr, node))
            return [(v, I.havoc(t, I.site(fr, node), I.fresh_call(v, s2)))]
        return None

    def on_fact(self, I, key, val, st):
        return self.event(st, ('fact', key, val, None))


LAST = re.compile(r'back\(|rbegin|prev\(')


def entries(ctx):
    def one(name, args, what, vector=False):
        Fs = [F for F in ctx.P.find(file=r'^service/') if F.qn.endswith('pending::Deadline::' + name) and F.body is not None and (name != 'remove' or ('vector' in F.ptype(0)) == vector)]
        if vector and not Fs:
            return
        ctx.need(Fs, f'Deadline::{name} not found')
        r = Entries(ctx.P, {})
        I = Interp(ctx.P, r, More)
        outs = []
        for k, v, s in I.run(Fs[0], (), args=args, this=('sym', 'deadline')):
            if k != 'throw':
                outs.append((I.rvalue(v, s), s, I))
        ctx.used(I)
        what(Fs[0], outs)

    def add(F, outs):
        seen = set()
        for v, s, I in outs:
            g = [e for e in s.auto if e[0] == 'grow']
            if not ctx.expect(len(g) == 1 and any(path(strip(x)) == 'entry' for x in g[0][2]), 'add: entry', 'a deadline is not added', F.where()):
                continue
            sorted_ = any('upper_bound' in path(x) or 'lower_bound' in path(x) for x in g[0][2]) or any('sort' in repr(e) for e in s.auto)
            ctx.expect(sorted_, 'add: order', 'the deadlines are not kept in order', at(g[0]))
            f = [e for e in s.auto if e[0] == 'fact' and 'begin' in repr(e[1]) and ('insert' in repr(e[1]) or 'emplace' in repr(e[1]))]
            if not f:
                f = [e for e in s.auto if e[0] == 'fact' and e[1][0] in ('bin', 'eq', 't')]
            first = f and f[-1][1][0] == 'eq' and f[-1][2]
            some = not none(v)
            if f and f[-1][1][0] == 'eq':
                seen.add(first)
                ctx.expect(bool(some) == bool(first), 'add: next', 'the time of a deadline that is the first is not returned' if first else 'the time of a deadline that is not the first is returned', F.where())
                if first and some:
                    ctx.expect('when' in path(v), 'add: when', 'the time of the deadline is not returned', F.where())
        ctx.expect(True in seen, 'add: next', 'the time of a deadline that is the first is not returned', F.where())

    def remove(F, outs):
        n = 0
        for v, s, I in outs:
            f = [e for e in s.auto if e[0] == 'fact' and e[1][0] == 't' and 'find' in path(e[1][1]) and 'correlation' in path(e[1][1])]
            g = [e for e in s.auto if e[0] == 'shrink']
            if not ctx.expect(f, 'remove: which', 'a deadline is removed without a look at its correlation', F.where()):
                continue
            some = not none(v)
            if not f[0][2]:
                ctx.expect(not g and not some, 'remove: unknown', 'a deadline that is not there is removed', F.where())
                continue
            ctx.expect(len(g) == 1 and any('find' in path(x) for x in g[0][2]), 'remove: entry', 'the deadline of the correlation is not removed', F.where())
            # returned only if there is one left
            if some:
                n += 1
                left = any(e[0] == 'fact' and (e[1][0] == 'eq' and e[2] is False and re.search(r'\bend\b', repr(e[1])) or e[1][0] == 't' and e[2] is False and 'empty' in path(e[1][1])
                                               or e[1][0] == 't' and e[2] is True and 'm_entries' in path(e[1][1]) and 'find' not in path(e[1][1]) or e[1][0] == 'bin' and 'size' in path(e[1])) for e in s.auto)
                ctx.expect(left, 'remove: end', 'the time of the next deadline is read when there is none', F.where())
                ctx.expect('when' in path(v) and not LAST.search(path(v)), 'remove: next', 'the next time is not returned', F.where())
                first = re.search(r'front|begin\(\w*\.?m_entries\)\)?\.when', path(v)) or any(e[0] == 'fact' and e[1][0] == 'eq' and e[2] is True and 'begin' in repr(e[1]) for e in s.auto)
                ctx.expect(first, 'remove: first', 'the timer is moved past deadlines that are still there', F.where())
        ctx.expect(n, 'remove: next', 'the next time is never returned', F.where())

    def several(F, outs):
        n = 0
        for v, s, I in outs:
            g = [e for e in s.auto if e[0] == 'shrink']
            ctx.expect(g, 'remove several: entries', 'the deadlines are not removed', F.where())
            if not none(v):
                n += 1
                ctx.expect('when' in path(v) and not LAST.search(path(v)), 'remove several: next', 'the next time is not returned', F.where())
            for e in s.auto:
                if e[0] == 'fact' and e[1][0] == 'bin' and e[1][1] == '>':
                    a, b = path(e[1][2]), path(e[1][3])
                    if 'partition' in a and 'partition' in b:
                        ctx.expect(not LAST.search(a) and not LAST.search(b), 'remove several: first', 'whether the next deadline is removed is not known by the first ones', F.where())
        ctx.expect(n, 'remove several: next', 'the next time is never returned', F.where())

    def exp(F, outs):
        kept = 0
        for v, s, I in outs:
            g = [e for e in s.auto if e[0] == 'shrink']
            if not ctx.expect(g, 'expired: taken', 'deadlines that have passed stay', F.where()):
                continue
            en = member(I.rule, v, 'entries')
            ctx.expect(en is not None and ('extract' in path(en) or 'm_entries' in path(en)), 'expired: entries', 'the deadlines that have passed are not returned', F.where())
            lam = [x for e in g for y in e[2] for x in subterms(y) if x and x[0] == 'lam'] or [x for x in subterms(en or ()) if x and x[0] == 'lam']
            ok = False
            for l in lam:
                G, r2, o2 = called(ctx, l, [('sym', 'entry')], D)
                J = Interp(ctx.P, D(ctx.P), More)
                for kk, vv, ss in o2:
                    for b, s2 in J.truth(J.read(vv, ss), ss):
                        for x, val in s2.facts.items():
                            if x[0] == 'bin' and x[1] == '>' and {path(x[2]), path(x[3])} == {'entry.when', 'now'}:
                                # find_if stops at the first that has not passed
                                later = path(x[2]) == 'entry.when'
                                ok = True
                                ctx.expect(b == (val == later), 'expired: which', 'the deadlines that have not passed are taken', F.where())
            ctx.expect(ok or 'bound' in repr(en) or 'now' in repr(en), 'expired: now', 'the deadlines are not compared with the time', F.where())
            f = [e for e in s.auto if e[0] == 'fact' and e[1][0] == 't' and 'empty' in path(e[1][1]) or e[0] == 'fact' and 'm_entries' in repr(e[1])]
            d = member(I.rule, v, 'deadline')
            some = d is not None and 'when' in path(d)
            if some:
                kept += 1
                ctx.expect(f, 'expired: end', 'the next deadline is read when there is none', F.where())
                ctx.expect(not LAST.search(path(d)), 'expired: next', 'the last deadline is returned as the next', F.where())
        ctx.expect(kept, 'expired: next', 'the next deadline is not returned', F.where())

    one('add', [('sym', 'entry')], add)
    one('remove', [('sym', 'correlation')], remove)
    one('remove', [('sym', 'correlations')], several, True)
    one('expired', [('sym', 'now')], exp)
