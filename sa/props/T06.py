"""resource proxies: one request at a time, what waits is not forgotten, and no answer is lost"""
from .txm_common import *

REPLIES = tuple('transaction_resource_%s_reply' % x for x in ('prepare', 'commit', 'rollback'))
INSTANCE = re.compile(r'instances')


def name(v):
    v = strip(v) if v is not None else None
    return v[1].rsplit('::', 1)[-1] if isinstance(v, tuple) and v and v[0] == 'e' else None


class Proxies(TM):
    watch = r'\.instances$|requests$|\.resources$|\.externals$'

    def on_assign(self, I, fr, node, lhs, val, st):
        self.here = fr.id
        t = dbase.tail(lhs)
        if t[-1:] == ('m_state',):
            return self.event(st, ('istate', path(lhs), (val,), self.site(fr, node)))
        if t[-1:] == ('process',) and INSTANCE.search(path(lhs)):
            return self.event(st, ('connect', path(lhs), (val,), self.site(fr, node)))
        return super().on_assign(I, fr, node, lhs, val, st)

    def special(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        if re.search(r'basic_holder<.*>::next$', name):
            v = ('call', name, (obj,) + tuple(I.rvalue(a, st) for a in args), I.site(fr, node))
            st = self.event(I.fresh_call(v, st), ('next', path(strip_hv(obj)), tuple(I.rvalue(a, st) for a in args), s))
            return [(v, st)]
        if name.endswith('raise::error'):
            I.thrown.append((('throw', 'std::system_error'), self.event(st, ('raise', '', (), s))))
            return []
        for rx, di, mi in SENDS:
            if rx.search(name) and len(args) > max(di or 0, mi) and 'Coordinator' in name:
                lams = [I.read(a, st) for a in args[mi + 1:]]
                mt = model.msgtype(self.P, fr.F.t(node['a'][mi]))
                if mt is None:
                    v, d = I.rvalue(args[mi], st), I.rvalue(args[di or 0], st)
                    res = ('call', name, (), I.site(fr, node))
                    st = I.fresh_call(res, st)
                    return [(res, self.event(st, ('pass', '', (d, v) + tuple(lams), s)))]
        return super().special(I, fr, node, name, obj, args, st)

    def ask(self, I, fr, node, mt, how, dest, v, st):
        self.asks.append((mt, how, dest, v, self.site(fr, node), st, fr.F))
        return self.event(st, ('asked', mt, (dest or ('sym', ''), ('sym', how), v[0], self.result), self.site(fr, node), how))

    def on_fact(self, I, key, val, st):
        t = path(key[1]) + ' ' + (path(key[2]) if len(key) > 2 and isinstance(key[2], tuple) else '') if key[0] in ('t', 'eq') else path(key)
        if re.search(r'm_state|instances|requests|send\(|find\(|local|\bresource\b', t):
            return self.event(st, ('fact', key, val, None))
        return st


class Requests(Proxies):
    """only what concerns instances"""

    def event(self, st, e):
        if e[0] in ('istate', 'pass') or e[0] == 'asked' and e[4] == 'send' and INSTANCE.search(path(e[2][0])):
            # the last ones are enough
            return super().event(st.with_auto(st.auto[-4:]), e)
        if e[0] == 'fact' and e[1][0] == 'eq' and path(e[1][1]).endswith('.m_state'):
            return super().event(st, e)
        return st


class Exits(Direct, Proxies):
    def event(self, st, e):
        if e[0] == 'asked' and e[4] == 'emulated' or e[0] in ('failed', 'push') or e[0] == 'shrink' and INSTANCE.search(e[1]):
            return super().event(st, e)
        return st


def run(ctx, t, cls=Proxies):
    h = ctx.hs.get(t)
    ctx.need(h is not None, f'no handler of {t} found')
    r = cls(ctx.P)
    I = Interp(ctx.P, r, More, relevant=ctx.rel)
    out = I.run(h.F, (), args=[('sym', 'request')], this=h.lam[3], caps=h.lam[2])
    ctx.used(I)
    ctx.count('handlers')
    ctx.count('paths', len(out))
    return h, r, [(k, s) for k, v, s in out]


def fact_on(evs, what, val, where=''):
    """was <where>.m_state == <what> (val) tested"""
    for e in evs:
        if e[0] == 'fact' and e[1][0] == 'eq' and e[2] == val and name(e[1][2]) == what and same(path(e[1][1])) == where + '.m_state':
            return True
    return False


def same(p):
    """what a pointer to the front of a range points to is the front of the range"""
    while '*data(' in p:
        i = p.index('*data(') + 6
        d, j = 1, i
        while j < len(p) and d:
            d += {'(': 1, ')': -1}.get(p[j], 0)
            j += 1
        p = p[:i - 5] + p[i:j - 1] + p[j:]
    return p


def owner(p):
    p = same(p)
    for x in ('.m_state', '.process.ipc', '.process'):
        if p.endswith(x):
            return p[:-len(x)]
    return p


def transitions(ctx, t, evs):
    """busy only from idle, idle never from shutdown"""
    state = {}
    for i, e in enumerate(evs):
        if e[0] != 'istate':
            continue
        o, v = owner(e[1]), name(e[2][0])
        before = evs[:i]
        if v == 'busy':
            ok = state.get(o) == 'idle' or fact_on(before, 'idle', True, o)
            ctx.expect(ok, f'{t}: reserve', f'{t}: an instance that is not known to be idle is reserved', at(e))
        elif v == 'idle':
            ok = fact_on(before, 'busy', True, o) or fact_on(before, 'shutdown', False, o)
            ctx.expect(ok, f'{t}: shutdown', f'{t}: an instance that was told to shut down becomes idle', at(e))
        state[o] = v
    return state


def work(ctx, t, evs):
    """whoever gets work is reserved for it"""
    n = 0
    for i, e in enumerate(evs):
        if e[0] == 'asked' and e[4] == 'send' and INSTANCE.search(path(e[2][0])):
            d = path(strip(e[2][0]))
        elif e[0] == 'pass' and INSTANCE.search(path(e[2][0])):
            d = path(strip(e[2][0]))
        else:
            continue
        n += 1
        o = owner(d)
        mine = [(j, x) for j, x in enumerate(evs) if x[0] == 'istate' and owner(x[1]) == o]
        before = [x for j, x in mine if j < i]
        after = [x for j, x in mine if j > i]
        if e[0] == 'pass':
            idle = before and name(before[-1][2][0]) == 'idle' or fact_on(evs[:i], 'idle', True, o)
            reserved = before and name(before[-1][2][0]) == 'busy'
            ctx.expect(idle or reserved, f'{t}: idle', f'{t}: an instance that is not known to be idle gets a request', at(e))
            unsent = any(x[0] == 'fact' and x[1][0] == 't' and 'send(' in path(x[1][1]) and x[2] is False for x in evs[i:])
            ctx.expect(reserved or unsent or after and name(after[0][2][0]) == 'busy', f'{t}: reserved', f'{t}: an instance gets a request and is not reserved', at(e))
        else:
            ctx.expect(before and name(before[-1][2][0]) == 'busy', f'{t}: reserved', f'{t}: an instance gets a request and is not reserved', at(e))
    return n


def next_pending(ctx, t, evs, o, i):
    """an instance that becomes idle gets what waits for its resource"""
    nxt = [(j, x) for j, x in enumerate(evs) if x[0] == 'next' and j > i]
    w = at(evs[i])
    if not ctx.expect(len(nxt) == 1, f'{t}: next', f'{t}: an instance that is idle takes {len(nxt)} of the requests that wait', w):
        return
    j, x = nxt[0]
    ctx.expect('pending.requests' in x[1] and path(strip(x[2][0])) in (o + '.id', 'request.resource', 'request.id'), f'{t}: next', f'{t}: the next request is taken for {path(x[2][0])}', at(x))
    p = [y for y in evs[j:] if y[0] == 'pass']
    none = any(y[0] == 'fact' and y[2] is False and 'next(' in path(y[1][1]) for y in evs[j:] if y[0] == 'fact' and y[1][0] == 't')
    if none:
        ctx.expect(not p, f'{t}: next', f'{t}: nothing is sent on when nothing waits', w)
        return
    if not ctx.expect(len(p) == 1, f'{t}: next', f'{t}: the request that waited is taken and not sent ({len(p)})', at(x)):
        return
    d, v = p[0][2][:2]
    ctx.expect(path(strip(d)) in (o + '.process.ipc', 'request.process.ipc') and 'next(' in path(v), f'{t}: next', f'{t}: {path(v)} is sent to {path(d)}', at(p[0]))
    lam = [y for y in p[0][2][2:] if isinstance(y, tuple) and y and y[0] == 'lam']
    if ctx.expect(lam, f'{t}: send failure', f'{t}: a request that waited and cannot be sent is not answered', at(p[0])):
        failure(ctx, t, lam[0], at(p[0]))


def failure(ctx, t, lam, w):
    """every kind of request is answered with an error"""
    G = next((ctx.P.funcs[f] for f in lam[1] if f in ctx.P.funcs), None)
    if not ctx.expect(G is not None, f'{t}: send failure', f'{t}: the failure callback has no body', w):
        return
    r = Kinds(ctx.P)
    I = Interp(ctx.P, r, More)
    seen = set()
    for k, val, s in I.run(G, (), args=[('sym', 'destination'), ('sym', 'complete')], this=lam[3], caps=lam[2]):
        if k == 'throw':
            continue
        kinds = {name(e[1][2]) for e in s.auto if e[0] == 'fact' and e[2] is True and name(e[1][2])}
        es = [e for e in s.auto if e[0] == 'asked' and e[4] == 'emulated']
        for e in es:
            rec = e[2][2]
            ok = all(path(strip(member(r, rec, m) or ('c', None))).endswith('.' + m) and 'complete' in path(member(r, rec, m)) for m in ('trid', 'resource')) and name(member(r, rec, 'state')) == 'resource_fail'
            ctx.expect(ok, f'{t}: send failure', f'{t}: the request that cannot be sent is not answered with an error for its resource and branch', at(e))
            if not kinds or e[1] in kinds:
                seen.add(e[1])
        ctx.expect(len(es) < 2, f'{t}: send failure', f'{t}: a request that cannot be sent is answered {len(es)} times', w)
    for m in REPLIES:
        m = m.replace('_reply', '_request')
        ctx.expect(m in seen, f'{t}: send failure', f'{t}: {m} that waited and cannot be sent is not answered', w)
    ctx.used(I)


class Kinds(Proxies):
    def on_fact(self, I, key, val, st):
        if key[0] == 'eq':
            return self.event(st, ('fact', key, val, None))
        return st


def check(ctx):
    P = load(ctx)
    ctx.rel = facts.relevant(P, lambda F, n: F.file.startswith('transaction/') and (
        n['k'] == 'call' and interesting(F.name(n)) or n['k'] == 'mem' and n.get('n') in ('m_state', 'instances', 'transactions', 'externals')))
    ctx.rule('a request is only sent to an instance that was idle and is reserved for it on the same path; an answer from a resource always reaches those who wait for it, releases its instance if there (still) is one, '
             'and lets it take exactly one of the requests that wait for its resource, which is sent with a failure callback that answers it; an instance that was told to shut down is neither idle nor given work again; '
             'an instance that exits is removed, and nothing else')
    for t in REPLIES:
        h, r, ps = run(ctx, t)
        w = h.F.where()
        for k, s in ps:
            evs = list(s.auto)
            raised = next((e for e in evs if e[0] == 'raise'), None)
            if not ctx.expect(k != 'throw', f'{t}: lost', f'{t}: an answer of a resource is lost: the handler raises before those who wait for it get it', at(raised) if raised else w):
                continue
            d = [e for e in evs if e[0] == 'deliver']
            ctx.expect(len(d) == 1, f'{t}: delivered', f'{t}: the answer is handed {len(d)} times to those who wait for it', w)
            transitions(ctx, t, evs)
            work(ctx, t, evs)
            rel = [i for i, e in enumerate(evs) if e[0] == 'istate' and name(e[2][0]) == 'idle']
            if rel:
                o = owner(evs[rel[0]][1])
                ctx.expect(len(rel) == 1 and 'request.process.pid' in o and 'request.resource' in o, f'{t}: released', f'{t}: {o} is released', at(evs[rel[0]]))
                next_pending(ctx, t, evs, o, rel[0])
            else:
                no = any(e[0] == 'fact' and (e[1][0] == 't' and e[2] is False and re.search(r'find|local', path(e[1][1])) or e[1][0] == 'bin' and 'request.resource' in path(e[1]) and e[2] is (e[1][1][0] == '<') or e[1][0] == 'eq' and e[2] is False and name(e[1][2]) == 'busy') for e in evs)
                ctx.expect(no, f'{t}: released', f'{t}: the instance that has answered is not released', w)
    t = 'transaction_resource_proxy_ready'
    h, r, ps = run(ctx, t)
    hit = 0
    for k, s in ps:
        if k == 'throw':
            continue
        evs = list(s.auto)
        transitions(ctx, t, evs)
        work(ctx, t, evs)
        rel = [i for i, e in enumerate(evs) if e[0] == 'istate' and name(e[2][0]) == 'idle']
        con = [e for e in evs if e[0] == 'connect']
        if rel:
            hit += 1
            o = owner(evs[rel[0]][1])
            ctx.expect('request.process.pid' in o and 'request.id' in o, f'{t}: instance', f'{t}: {o} is ready', at(evs[rel[0]]))
            ctx.expect(con and owner(con[0][1]) == o and path(strip(con[0][2][0])) == 'request.process', f'{t}: connected', f'{t}: the instance is idle and it is not known where it is', at(evs[rel[0]]))
            next_pending(ctx, t, evs, o, rel[0])
        else:
            ctx.expect(any(e[0] == 'fact' and e[2] is True and name(e[1][2]) == 'shutdown' for e in evs if e[0] == 'fact' and e[1][0] == 'eq') or any(e[0] == 'fact' and e[2] is False and 'find' in path(e[1][1]) for e in evs if e[0] == 'fact' and e[1][0] == 't'),
                       f'{t}: idle', f'{t}: an instance that is ready does not become idle', h.F.where())
    ctx.need(hit, f'{t}: no path makes an instance idle')
    n = 0
    for t in TYPES:
        h, r, ps = run(ctx, t, Requests)
        for k, s in ps:
            if k != 'throw':
                transitions(ctx, t, list(s.auto))
                n += work(ctx, t, list(s.auto))
    ctx.need(n, 'no request to a resource proxy found')
    exits(ctx)


def exits(ctx):
    t = 'event_process_exit'
    h, r, ps = run(ctx, t, Exits)
    hit = 0
    for k, s in ps:
        evs = list(s.auto)
        gone = [e for e in evs if e[0] == 'shrink' and INSTANCE.search(e[1])]
        if not gone:
            continue
        hit += 1
        e = gone[0]
        ctx.expect(len(gone) == 1 and all(re.search(r'find\(.*pid', path(x)) for x in e[2]), f'{t}: removed', f'{t}: {path(e[2][0]) if e[2] else "everything"} is removed from {e[1]}', at(e))
        told = any(x[0] == 'failed' or x[0] == 'asked' and x[4] == 'emulated' or x[0] == 'push' for x in evs)
        ctx.expect(told, f'{t}: in flight', f'{t}: an instance is removed, and the request it worked on is never answered', at(e))
    ctx.need(hit, f'{t}: no path removes an instance')
