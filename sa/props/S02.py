"""an instance works for one caller at a time, the caller is told about the instance that was reserved, and no reservation is lost"""
from .svc_common import *

REPLY = 'service_name_lookup_reply'
CALLS = re.compile(r'instance::Sequential::(reserve|unreserve|discard)$')


def check(ctx):
    P = load(ctx)
    ctx.rule('an instance is reserved only when it is idle and not about to exit, for the service, caller and correlation of the lookup, and exactly the caller is answered with the address of that instance; '
             'if the answer cannot be sent the same reservation is discarded; a reservation ends only with the ack of the instance, a discard with its correlation or such a failure, and then the instance is '
             'handed to the pending shutdown or to a pending lookup for one of its services')
    ctx.covered = set()
    methods(ctx)
    lookup(ctx)
    ack(ctx)
    discarded(ctx)
    # nothing else reserves or releases
    for F in P.funcs.values():
        if not F.file.startswith('service/') or F.body is None or 'instance::Sequential::' in F.qn:
            continue
        for n in walk(F.body):
            if n['k'] == 'call' and CALLS.search(F.name(n) or ''):
                m = CALLS.search(F.name(n)).group(1)
                ctx.expect((F.file, n.get('l')) in ctx.covered, f'{m} elsewhere', f'an instance is {m}d outside lookup, ack and discard', F.where(n))


def cover(ctx, ps):
    for x in ps:
        for e in x[-1].auto:
            if e[0] in ('reserve', 'unreserve', 'discard'):
                ctx.covered.add(e[3])


def methods(ctx):
    """what the operations do to the state of an instance"""
    def one(name, args, what):
        Fs = [F for F in ctx.P.find(file=r'^service/') if re.search(r'instance::Sequential::' + name + '$', F.qn) and F.body is not None]
        ctx.need(Fs, f'Sequential::{name} not found')
        me = ('sym', 'instance')
        r = dbase.Uses(ctx.P, {})
        I = Interp(ctx.P, r, More)
        for k, v, s in I.run(Fs[0], (), args=args, this=me):
            if k == 'throw':
                continue
            get = lambda *m: I.read(nest(me, m), s)
            what(Fs[0], I, s, get, I.rvalue(v, s) if v is not None else None)
        ctx.used(I)

    def reserved(F, I, s, get, v):
        ctx.expect(get('m_reserved_service') == ('sym', 'a0'), 'reserve: service', f'reserve: the instance is reserved for {path(get("m_reserved_service"))}', F.where())
        ctx.expect(get('m_caller', 'process') == ('sym', 'a1') and get('m_caller', 'correlation') == ('sym', 'a2'), 'reserve: caller', 'reserve: the caller and the correlation are not kept', F.where())

    def free(F, I, s, get, v):
        x = get('m_reserved_service')
        ctx.expect(empty(x), f'{F.qn}: free', f'{F.qn.rsplit("::", 1)[-1]}: the instance is still reserved ({path(x)})', F.where())
        c = get('m_caller')
        c2 = get('m_caller', 'correlation')
        ctx.expect(empty(c) or empty(c2), f'{F.qn}: caller', f'{F.qn.rsplit("::", 1)[-1]}: the instance still has a caller', F.where())

    def idle(F, I, s, get, v):
        for b, s2 in I.truth(v, s):
            f = [val for k, val in s2.facts.items() if k[0] == 't' and 'm_reserved_service' in path(k[1])]
            ctx.expect(f and f[-1] != b, 'idle', 'idle does not mean that there is no reservation', F.where())

    def consume(F, I, s, get, v):
        x = get('m_reserved_service')
        ctx.expect(path(x) == 'instance.m_reserved_service', 'consume: reservation', 'consume: the reservation is changed', F.where())
        same = [val for k, val in s.facts.items() if k[0] == 'eq' and {path(k[1]).split('.')[-1], path(k[2]).split('.')[-1]} <= {'correlation', 'a0', 'm_caller'}]
        p = get('m_caller', 'process')
        c = get('m_caller', 'correlation')
        if same and same[-1]:
            ctx.expect(empty(p) or empty(get('m_caller')), 'consume: caller', 'consume: the caller is still there', F.where())
            ctx.expect(path(c) == 'instance.m_caller.correlation', 'consume: correlation', 'consume: the correlation of the reservation is lost, what waits for the ack of the instance will never get it', F.where())
            ctx.expect(v is not None and 'm_caller' in repr(v), 'consume: result', 'consume: the caller is not returned', F.where())
        else:
            ctx.expect(same, 'consume: whose', 'consume: the caller is consumed whatever the correlation', F.where())
            ctx.expect(path(p) == 'instance.m_caller.process', 'consume: other', 'consume: the caller of another correlation is consumed', F.where())
            ctx.expect(v is not None and empty(v), 'consume: result', 'consume: the caller of another correlation is returned', F.where())

    one('reserve', [('sym', 'a0'), ('sym', 'a1'), ('sym', 'a2')], reserved)
    one('unreserve', [], free)
    one('discard', [], free)
    one('idle', [], idle)
    one('consume', [('sym', 'a0')], consume)


def nest(t, ms):
    for m in ms:
        t = ('mem', t, m)
    return t


def empty(v):
    while isinstance(v, tuple) and v and v[0] in ('hv', 'bool'):
        v = v[1]
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'c':
        return v[1] in (None, 0, False)
    if v[0] == 'new':
        return all(empty(x) for x in v[2] if isinstance(x, tuple))
    if v[0] == 'upd':
        return empty(v[1]) and all(empty(x) for _, x in v[2])
    return False


def key(t):
    return path(strip_hv(t))


def holds(evs, what, val=True):
    return any(e[0] == 'fact' and e[1][0] == 't' and e[2] is val and what(e[1][1]) for e in evs)


def lookup(ctx):
    h, r, ps = paths(ctx, LOOKUP, again=False)
    cover(ctx, ps)
    w = h.F.where()
    n = 0
    seen = set()
    for k, s in ps:
        evs = s.auto
        res = [e for e in evs if e[0] == 'reserve']
        sent = [e for e in evs if e[0] == 'send' and e[1] == REPLY]
        stored = [e for e in evs if e[0] == 'grow' and e[1].endswith('lookups')]
        if not res:
            for e in sent:
                p = member(r, e[2][1], 'process')
                ctx.expect(p is None or 'sequential' not in path(p), 'lookup: not reserved', f'the caller gets {path(p)[-60:] if p else ""}, which is not reserved for it', at(e))
            continue
        n += 1
        e = res[0]
        ctx.expect(len(res) == 1, 'lookup: one', 'more than one instance is reserved for a lookup', at(res[-1]))
        service, caller, corr, obj = e[2]
        o = key(obj)
        sk = ('reserve', e[2][:3], o)
        if sk not in seen:
            seen.add(sk)
            ctx.expect(path(service) in o and 'request.requested' in path(service), 'reserve: whose', 'the reserved instance is not one of the service that is looked up', at(e))
            ctx.expect(path(corr) == 'request.correlation', 'reserve: correlation', f'the instance is reserved under {path(corr)}', at(e))
            idle(ctx, obj, e, evs)
        q = [x[2] for x in evs if x[0] == 'fact' and (x[1][0] == 't' and 'no_reply' in path(x[1][1]) or x[1][0] == 'eq' and 'no_reply' in path(x[1][1]) + path(x[1][2]))]
        ctx.expect(q and (empty(caller) if q[0] else path(caller) == 'request.process'), 'reserve: caller', f'the instance is reserved for the caller {path(caller)}, whatever the reply it expects', at(e))
        ctx.expect(not stored, 'lookup: both', 'an instance is reserved and the lookup waits as well', at(e))
        if not ctx.expect(len(sent) == 1, 'lookup: told', 'an instance is reserved and the caller is not told', at(e)):
            continue
        m = sent[0]
        p, st = member(r, m[2][1], 'process'), member(r, m[2][1], 'state')
        ctx.expect(path(m[2][0]) == 'request.process.ipc', 'lookup: to', f'the answer goes to {path(m[2][0])}', at(m))
        ctx.expect(p is not None and key(p) == o + '.process', 'lookup: which', f'the caller gets {key(p)[-80:] if p else "nothing"}, and another instance is reserved', at(m))
        ctx.expect(st is not None and path(st).endswith('idle'), 'lookup: state', 'an instance is reserved and the caller is not told that it can call', at(m))
        lams = [x for x in m[2][2:] if x[0] == 'lam']
        if ctx.expect(lams, 'lookup: lost', 'the answer to a caller that is gone leaves the instance reserved', at(m)):
            ck = (o, lams[0][1], tuple(key(c[1]) for c in lams[0][2]))
            if ck in seen:
                continue
            seen.add(ck)
            failed(ctx, lams[0], o, m)
    ctx.expect(n, 'lookup: never', 'no instance is ever reserved', w)


def idle(ctx, obj, e, evs):
    """the predicate that selects the instance"""
    t = [x for x in subterms(obj) if isinstance(x, tuple) and x and x[0] == 'call' and x[1].endswith('find_if') and len(x[2]) > 1 and x[2][1][0] == 'lam']
    if not t:
        # selected by the conditions on the way
        ids = {path(x) for x in subterms(obj) if x and x[0] in ('elem', 'deref')}
        selected(ctx, [(path(x[1][1]), x[2]) for x in evs[:evs.index(e)] if x[0] == 'fact' and x[1][0] == 't' and any(i in path(x[1][1]) for i in ids)], e)
        return
    _, r, out = called(ctx, t[0][2][1], [('elem', t[0][2][0])])
    I = Interp(ctx.P, SM(ctx.P), More)
    for k, v, s in out:
        for b, s2 in I.truth(I.read(v, s), s):
            if b:
                selected(ctx, [(path(x[1]), val) for x, val in s2.facts.items() if x[0] == 't'], e)


def selected(ctx, f, e):
    ctx.expect(any('m_reserved_service' in a and not val or a.endswith('idle') and val for a, val in f), 'reserve: idle', 'an instance that is not idle is reserved', at(e))
    ctx.expect(any('disabled' in a and not val for a, val in f), 'reserve: disabled', 'an instance that is about to exit is reserved', at(e))


def subterms(t):
    if isinstance(t, tuple) and t:
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def failed(ctx, lam, o, m):
    """the caller is gone: the reservation that was made for it is discarded"""
    F, r, out = called(ctx, lam, [('sym', 'destination'), ('sym', 'complete')])
    hit = 0
    for k, v, s in out:
        evs = s.auto
        d = [e for e in evs if e[0] in ('discard', 'unreserve')]
        ctx.covered |= {e[3] for e in d}
        if d:
            hit += 1
            ctx.expect(len(d) == 1 and key(d[0][2][-1]) == o, 'failed: which', f'the caller is gone, and the reservation of another instance ({key(d[0][2][-1])[-60:]}) is discarded', at(d[0]))
            ctx.expect(mine(evs, 'request.correlation'), 'failed: whose', 'the caller is gone, and the reservation that is discarded may be someone else\'s', at(d[0]))
            released(ctx, r, evs, d[0], 'failed')
        else:
            gone = holds(evs, lambda t: 'contains' in path(t) or 'sequential' in path(t), False) or any(e[0] == 'fact' and e[1][0] == 'eq' and e[2] is False and 'correlation' in path(e[1][1]) + path(e[1][2]) for e in evs)
            ctx.expect(gone, 'failed: kept', 'the caller is gone and the instance stays reserved', F.where())
    ctx.expect(hit, 'failed: never', 'the caller is gone and the instance stays reserved', at(m))


def mine(evs, what):
    return any(e[0] == 'fact' and e[1][0] == 'eq' and e[2] is True and 'm_caller' in path(e[1][1]) + path(e[1][2]) and what in (path(e[1][1]), path(e[1][2])) for e in evs)


def released(ctx, r, evs, e, who, ack=None):
    """what happens to an instance that has become free"""
    i = evs.index(e)
    o = key(e[2][-1])
    dis = None
    for x in evs:
        if x[0] == 'fact' and x[1][0] == 't' and 'disabled' in path(x[1][1]):
            dis = x
    looked = [x for x in evs[i:] if x[0] == 'lookup']
    told = [x for x in evs[i:] if x[0] == 'deliver' and x[1] == 'shutdown']
    if not ctx.expect(dis is not None, f'{who}: next', 'an instance is released, and nobody who waits for it gets it', at(e)):
        return
    ctx.expect(inst_of(o) in path(dis[1][1]), f'{who}: next', 'another instance than the one that is released is checked', at(e))
    if dis[2]:
        ctx.expect(len(told) == 1 and not looked, f'{who}: shutdown', 'the instance that is about to exit is done, and the shutdown is not told' if not told else 'an instance that is about to exit gets more work', at(e))
        for x in told:
            if ack:
                ctx.expect(path(strip(x[2][0])) == ack, f'{who}: shutdown', 'the shutdown is not told with the ack of the instance', at(x))
            else:
                c = member(r, x[2][0], 'correlation')
                ctx.expect(c is not None and key(c).endswith('m_caller.correlation') and inst_of(key(c)) == inst_of(o) or c is not None and path(c) == 'request.correlation', f'{who}: shutdown', 'the shutdown is not told with the correlation of the reservation', at(x))
                mt = member(r, x[2][0], 'metric')
                p = member(r, mt, 'process') if mt is not None else None
                ctx.expect(p is not None and key(p) == o + '.process', f'{who}: shutdown', 'the shutdown is not told which instance is done', at(x))
        return
    ctx.expect(not told, f'{who}: shutdown', 'the shutdown is told about an instance that is not about to exit', at(e))
    f = [x for x in evs if x[0] == 'fact' and x[1][0] == 't' and strip(x[1][1])[0] == 'call' and re.search(r'find_if', strip(x[1][1])[1]) and 'lookups' in path(strip(x[1][1])[2][0])]
    if not ctx.expect(f, f'{who}: pending', 'an instance is released, and nobody who waits for it gets it', at(e)):
        return
    if f[-1][2]:
        out = [x for x in evs[i:] if x[0] == 'shrink' and x[1].endswith('lookups')]
        ctx.expect(len(looked) == 1, f'{who}: pending', f'a lookup that waits for the released instance is looked up {len(looked)} times', at(e))
        ctx.expect(len(out) == 1, f'{who}: pending', 'a pending lookup is looked up again and keeps waiting as well', at(e))
        for x in looked:
            ctx.expect('lookups' in path(x[2][0]) and 'find_if' in path(x[2][0]), f'{who}: pending', f'{path(x[2][0])[:80]} is looked up', at(x))
        lam = strip(f[-1][1][1])[2][1]
        k = (lam[1], o, who)
        if lam[0] == 'lam' and k not in ctx.covered:
            ctx.covered.add(k)
            _, r2, out2 = called(ctx, lam, [('sym', 'waiting')])
            I = Interp(ctx.P, SM(ctx.P), More)
            ok = 0
            for kk, v, s in out2:
                for b, s2 in I.truth(I.read(v, s), s):
                    if b:
                        fs = [path(y[1]) for y, val in s2.facts.items() if y[0] == 't' and val]
                        ok += 1
                        ctx.expect(any('m_services' in y and 'waiting.request.requested' in y and inst_of(o) in y for y in fs), f'{who}: for it', 'a pending lookup for a service that the instance does not have gets it', at(e))
            ctx.expect(ok, f'{who}: for it', 'no pending lookup gets the instance', at(e))
    else:
        ctx.expect(not looked, f'{who}: pending', 'a lookup that does not wait for the instance is looked up', at(e))


def inst_of(p):
    """the id in the path of an instance"""
    m = re.match(r'(?:operator\[\]\()?.*?(?:m_index|sequential)(?:, |\()(.*?)\)*(\.[\w.]+)?$', p)
    return m.group(1) if m else p


def ack(ctx):
    h, r, ps = paths(ctx, 'service_acknowledge')
    cover(ctx, ps)
    n = 0
    for k, s in ps:
        evs = s.auto
        d = [e for e in evs if e[0] in ('unreserve', 'discard')]
        known = holds(evs, lambda t: 'request.metric.process.ipc' in path(t) and 'lookup' in path(t) and 'contains' not in path(t) and 'find' not in path(t))
        lost = [val for kk, val in s.facts.items() if kk[0] == 't' and re.search(r'lookup\(.*sequential, request\.metric\.process\.ipc\)$', path(kk[1]))]
        if d:
            n += 1
            ctx.expect(len(d) == 1, 'ack: once', 'an instance is released more than once', at(d[-1]))
            ctx.expect('request.metric.process.ipc' in key(d[0][2][-1]), 'ack: which', f'the ack releases {key(d[0][2][-1])[-80:]}', at(d[0]))
            released(ctx, r, evs, d[0], 'ack', 'request')
        else:
            ctx.expect(lost and lost[-1] is False, 'ack: kept', 'the ack of an instance does not release it', h.F.where())
    ctx.expect(n, 'ack: never', 'an ack does not release the instance', h.F.where())


def discarded(ctx):
    h, r, ps = paths(ctx, 'service_name_lookup_discard_request', limits=Once)
    cover(ctx, ps)
    n = 0
    for k, s in ps:
        evs = s.auto
        d = [e for e in evs if e[0] in ('unreserve', 'discard')]
        # found, or (how many) erased
        found = [('fact', e[1], e[2] if e[1][0] != 'eq' else not e[2]) for e in evs if e[0] == 'fact' and re.search(r'(find|erase)(_if)?\(State:state\.pending\.lookups, (request\.correlation|λ)', repr_path(e[1]))]
        if not ctx.expect(found, 'discard: waits', 'a discard is not checked against the lookups that wait', h.F.where()):
            continue
        gone = [e for e in evs if e[0] == 'shrink' and e[1].endswith('lookups')]
        sent = [e for e in evs if e[0] == 'send' and e[1] == 'service_name_lookup_discard_reply']
        for e in sent:
            v = member(r, e[2][1], 'state')
            want = 'discarded' if found[0][2] else 'replied'
            ctx.expect(v is not None and path(v).endswith(want), 'discard: told', f'the lookup is {want} and the caller is told {path(v) if v else "nothing"}', at(e))
        if found[0][2]:
            first = gone[:1]
            ctx.expect(len(gone) >= 1 and ('find' in path(first[0][2][0]) or not first[0][2] or first[0][2][0][0] == 'lam' or path(first[0][2][0]) == 'request.correlation'), 'discard: waits', 'a discarded lookup keeps waiting', h.F.where())
            ctx.expect(not d, 'discard: both', 'an instance is released for a lookup that waits', at(d[0]) if d else h.F.where())
            continue
        for e in d:
            n += 1
            ok = mine(evs, 'request.correlation') or mine2(ctx, evs, e)
            ctx.expect(ok, 'discard: whose', 'the reservation of another caller is discarded', at(e))
            released(ctx, r, evs, e, 'discard')
    ctx.expect(n, 'discard: never', 'the reservation of a discarded lookup is kept', h.F.where())


def repr_path(key):
    return ' '.join(path(x) for x in key[1:] if isinstance(x, tuple))


def mine2(ctx, evs, e):
    """selected by a predicate on the way"""
    for x in subterms(e[2][-1]):
        if x and x[0] == 'call' and isinstance(x[2], tuple):
            for l in x[2]:
                if isinstance(l, tuple) and l and l[0] == 'lam' and len(l[1]):
                    F = next((ctx.P.funcs[f] for f in l[1] if f in ctx.P.funcs), None)
                    if F is None or len(F.params) != 1:
                        continue
                    _, r, out = called(ctx, l, [('sym', 'candidate')])
                    I = Interp(ctx.P, SM(ctx.P), More)
                    oks = []
                    for k, v, s in out:
                        for b, s2 in I.truth(I.read(v, s), s):
                            if b:
                                oks.append(any(y[0] == 'eq' and val and 'm_caller' in path(y[1]) + path(y[2]) and 'request.correlation' in (path(y[1]), path(y[2])) for y, val in s2.facts.items()))
                    if oks and all(oks):
                        return True
    return False
