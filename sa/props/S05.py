"""prepare shutdown: every process is answered once, and a reserved instance only when it is done"""
from .svc_common import *
from ..interp import subterms_of as subterms

INST = re.compile(r'instances$')


class Prep(SM):
    facts_of = SM.facts_of + r'|partition|prepare_shutdown|unknown|empty|idle'

    def more(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        vals = tuple(I.rvalue(a, st) for a in args)
        if re.search(r'service::manager::State::prepare_shutdown$', name):
            t = ('call', 'prepare_shutdown', vals, I.site(fr, node))
            st = self.event(I.fresh_call(t, st), ('prepare', '', vals + (t,), s))
            return [(t, I.havoc(('sym', 'State:state'), I.site(fr, node), st))]
        if obj is not None and re.search(r'::(push_back|emplace_back)$', name) and 'processes' in path(strip_hv(obj)):
            return [(('c', None), self.event(st, ('add', path(strip_hv(obj)), vals, s)))]
        if name.endswith('container::append') and len(args) == 2 and 'processes' in path(strip_hv(args[1])):
            return [(('c', None), self.event(st, ('add', path(strip_hv(args[1])), vals[:1], s)))]
        if obj is not None and re.search(r'::(push_back|emplace_back)$', name) and root(obj)[0] == 'v' and vals and 'prepare_shutdown' in repr(vals[0]) and 'services' in repr(vals[0]):
            return [(('c', None), self.event(I.havoc(obj, I.site(fr, node), st), ('name', 'name', vals, s)))]
        if name.endswith('container::append') and len(args) == 2 and root(args[1])[0] == 'v' and 'routes' in repr(vals[0]):
            return [(('c', None), self.event(I.havoc(args[1], I.site(fr, node), st), ('name', 'routes', vals[:1], s)))]
        return None


class Split(SM):
    """State::prepare_shutdown itself"""
    again = False
    facts_of = r'.'

    def more(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        m = re.search(r'(lookup_index<.*>|Index<.*>)::(indexes|operator\[\]|contains|lookup)$', name)
        if m and obj is not None:
            return [(('call', m.group(2), (strip_hv(obj),) + tuple(I.rvalue(a, st) for a in args), None), st)]
        if re.search(r'service::Instances::remove$', name):
            t = ('call', 'detach', (obj, I.rvalue(args[0], st)), I.site(fr, node))
            st = I.fresh_call(t, st)
            return [(t, self.event(st, ('detach', path(strip_hv(obj)), (I.rvalue(args[0], st), t, strip_hv(obj)), s)))]
        if name.endswith('::names') and obj is not None:
            return [(('call', 'names', (strip_hv(obj),) + tuple(I.rvalue(a, st) for a in args), None), st)]
        if obj is not None and re.search(r'::(push_back|emplace_back)$', name):
            return [(('c', None), I.havoc(obj, I.site(fr, node), self.event(st, ('add', path(strip_hv(obj)).rsplit('.', 1)[-1], (I.rvalue(args[0], st),), s))))]
        if name.endswith(('container::append', 'container::append_unique')) and len(args) == 2:
            return [(('c', None), I.havoc(args[1], I.site(fr, node), self.event(st, ('add', path(strip_hv(args[1])).rsplit('.', 1)[-1], (I.rvalue(args[0], st),), s))))]
        return None


def side(ctx, v, result):
    """which of the instances of the result a value is taken from: 'busy', 'idle', 'all' or None"""
    for x in subterms(v):
        if x and x[0] == 'mem' and re.match(r'#?[01]$', str(x[2])):
            p = strip_hv(x[1])
            if p[0] == 'call' and re.search(r'partition$', p[1]) and any(y == result for y in subterms(p)):
                lam = next((y for y in p[2] if y[0] == 'lam'), None)
                if lam is None:
                    return None
                F, r, out = called(ctx, lam, [('sym', 'candidate')], Prep)
                J = Interp(ctx.P, Prep(ctx.P), More)
                res = {(b, idle(s2)) for k, v2, ss in out if v2 is not None for b, s2 in J.truth(J.read(v2, ss), ss)}
                first = str(x[2]).endswith('0')
                if res == {(True, False), (False, True)}:
                    return 'busy' if first else 'idle'
                if res == {(True, True), (False, False)}:
                    return 'idle' if first else 'busy'
                return None
    return 'all' if any(x == result for x in subterms(v)) else None


def idle(s):
    for k, v in s.facts.items():
        t = repr(k)
        if 'idle' in t or 'caller' in t or 'm_reserved' in t:
            return v if 'idle' in t else not v
    return None


def check(ctx):
    P = load(ctx)
    ctx.rule('prepare shutdown: each process is looked up and is either unknown or an instance whose services lose it; pending lookups for services without instances are looked up again; '
             'unknown and idle processes are answered at once, in one reply to the requester; busy instances are disabled and answered when their reservations are acknowledged, with the processes of the acknowledges')
    split(ctx)
    handler(ctx)


def split(ctx):
    Fs = [F for F in ctx.P.find(file=r'^service/') if F.qn.endswith('service::manager::State::prepare_shutdown') and F.body is not None]
    ctx.need(Fs, 'State::prepare_shutdown not found')
    F = Fs[0]
    r, out, I = run(ctx, F, Split, [('sym', 'processes')], this=('sym', 'State:state'), rel=False, limits=Once)
    w = F.where()
    seen = set()
    for k, v, s in out:
        evs = s.auto
        known = [e for e in evs if e[0] == 'add' and e[1] == 'instances']
        unknown = [e for e in evs if e[0] == 'add' and e[1] == 'unknown']
        has = next((e[2] for e in evs if e[0] == 'fact' and 'lookup' in repr(e[1]) and 'processes' in repr(e[1]) and 'detach' not in repr(e[1])), None)
        if has is None:
            ctx.expect(not known and not unknown, 'split: looked up', 'a process is sorted without a look at the instances', w)
            continue
        seen.add(has)
        if has:
            ok = ctx.expect(len(known) == 1 and not unknown, 'split: known', 'an instance that is about to shut down is not found with the instances', w)
            if ok:
                t = repr(known[0][2][0])
                ctx.expect('lookup' in t and 'processes' in t and '.ipc' in path(strip_hv(known[0][2][0])) , 'split: which', f'{path(known[0][2][0])[-50:]} is about to shut down', at(known[0]))
        else:
            ctx.expect(len(unknown) == 1 and not known, 'split: unknown', 'a process that is no instance is not answered as unknown', w)
            for e in unknown:
                ctx.expect('processes' in path(strip_hv(e[2][0])), 'split: unknown which', f'{path(e[2][0])[-50:]} is answered as unknown', at(e))
        for i, e in enumerate(evs):
            if e[0] == 'each' and 'services' in e[1]:
                seen.add('services')
                nxt = next((j for j in range(i + 1, len(evs)) if evs[j][0] == 'each'), len(evs))
                det = [x for x in evs[i:nxt] if x[0] == 'detach']
                if not ctx.expect(len(det) == 1 and 'lookup' in repr(det[0][2][0]), 'split: services', 'a service keeps an instance that is about to shut down', at(e)):
                    continue
                ctx.expect('services' in det[0][1] and any(y == strip_hv(e[2][0]) for y in subterms(det[0][2][2])), 'split: which service', 'the instance is removed from another service', at(det[0]))
                last = next((x[2] for x in evs[i:nxt] if x[0] == 'fact' and any(y == det[0][2][1] for y in subterms(x[1]))), None)
                names = [x for x in evs[i:nxt] if x[0] == 'add' and x[1] == 'services']
                ctx.expect(last is not None and len(names) == (1 if last else 0), 'split: rejected', 'lookups for a service that lost its last instance are not looked up again' if last in (True, None)
                           else 'a service with instances left is given up', at(det[0]))
                for x in names:
                    ctx.expect('names' in repr(x[2][0]), 'split: names', 'the names of a service that lost its last instance are not found', at(x))
    ctx.expect({True, False, 'services'} <= seen, 'split: all', 'processes are not sorted into instances and unknown', w)


def handler(ctx):
    h, r, ps = paths(ctx, 'domain_process_prepare_shutdown_request', Prep, limits=Once)
    w = h.F.where()
    seen = set()
    # divided by a partition (and not element by element)
    split_ = any(x and x[0] == 'call' and x[1].endswith('partition') for k, s in ps for e in s.auto if e[0] in ('fact', 'register') for x in subterms(e[1]) )
    for k, s in ps:
        evs = s.auto
        prep = [e for e in evs if e[0] == 'prepare']
        if not ctx.expect(len(prep) == 1 and path(prep[0][2][0]) == 'request.processes', 'prepare', 'not all processes of the request are prepared for shutdown', w):
            continue
        res = prep[0][2][-1]
        inst = ('mem', res, 'instances')
        # lookups again
        none = next((e[2] if 'empty' in repr(e[1]) else not e[2] for e in evs if e[0] == 'fact' and '.services' in path(e[1][1] if e[1][0] in ('t', 'eq') else e[1]) and any(y == res for y in subterms(e[1]))), None)
        out = [e for e in evs if e[0] == 'shrink' and e[1].endswith('lookups')]
        if none is not True:
            if ctx.expect(len(out) == 1, 'pending', 'lookups that wait for services without instances keep waiting', w):
                which(ctx, out[0], res, evs, any(x[0] == 'name' for _, s2 in ps for x in s2.auto))
        for i, e in enumerate(evs):
            if e[0] == 'each' and 'lookups' in e[1]:
                nxt = next((j for j in range(i + 1, len(evs)) if evs[j][0] == 'each'), len(evs))
                l = [x for x in evs[i:nxt] if x[0] == 'lookup']
                seen.add('again')
                ctx.expect(len(l) == 1 and 'lookups' in path(l[0][2][0]), 'pending: again', f'a pending lookup is looked up {len(l)} times', at(e))
        # idle and unknown: at once
        sent = [e for e in evs if e[0] == 'send' and 'prepare_shutdown_reply' in str(e[1])]
        def empty(what):
            """is it known on this path that there are none / some"""
            for e in evs:
                if e[0] != 'fact':
                    continue
                if what == 'unknown' and any(y == ('mem', res, 'unknown') for y in subterms(e[1])):
                    return e[2] if 'empty' in repr(e[1]) else not e[2]
                if what != 'unknown' and side(ctx, e[1], res) == what:
                    return e[2] if 'empty' in repr(e[1]) else not e[2]
            return None
        adds = [e for e in evs if e[0] == 'add']
        for e in adds:
            sd = side(ctx, e[2][0], res)
            if sd == 'all':
                i = evs.index(e)
                f = next((x[2] if 'idle' in repr(x[1]) else not x[2] for x in reversed(evs[:i]) if x[0] == 'fact' and re.search('idle|caller|m_reserved', repr(x[1])) and any(y == res for y in subterms(x[1]))), None)
                sd = {True: 'idle', False: 'busy'}.get(f, 'all')
            ctx.expect(sd == 'idle' and path(strip_hv(e[2][0])).endswith('.process') or any(y == ('mem', res, 'unknown') for y in subterms(e[2][0])), 'answered', 'a process that is reserved, or something else, is answered at once', at(e))
            seen.add('idle')
        for i, e in enumerate(evs):
            if e[0] == 'each' and side(ctx, e[2][0], res) == 'idle':
                nxt = next((j for j in range(i + 1, len(evs)) if evs[j][0] in ('each', 'send')), len(evs))
                ctx.expect(sum(x[0] == 'add' and not any(y == ('mem', res, 'unknown') for y in subterms(x[2])) for x in evs[i:nxt]) == 1, 'idle', 'an idle instance that is about to shut down is not answered', at(e))
        must = split_ or empty('idle') is False or empty('unknown') is False
        if empty('idle') is True and empty('unknown') is True:
            ctx.expect(not sent, 'reply: nothing', 'a reply without processes is sent', w)
        elif must:
            ctx.expect(len(sent) == 1, 'reply', f'unknown and idle processes are answered by {len(sent)} replies', w)
        for e in sent:
            ctx.expect(path(e[2][0]) in ('request.process.ipc', 'request.process'), 'reply: destination', f'the reply is sent to {path(e[2][0])}', at(e))
            ctx.expect('type' in repr(e[2][1]) and 'request' in repr(e[2][1]) or path(member(r, e[2][1], 'correlation') or ('c', 0)) == 'request.correlation', 'reply: correlation', 'the reply is not correlated with the request', at(e))
            p = member(r, e[2][1], 'processes') or ('c', None)
            more = [x[2] for x in evs[:evs.index(e)] if x[0] == 'add']
            ctx.expect(any(y == ('mem', res, 'unknown') for y in subterms((p, *more))), 'reply: unknown', 'processes that are no instances get no answer', at(e))
            i = evs.index(e)
            ctx.expect(all(evs.index(a) < i for a in adds), 'reply: idle', 'the reply is sent before the idle instances are put in it', at(e))
            seen.add('reply')
        # busy: later
        regs = [e for e in evs if e[0] == 'register']
        dis = [e for e in evs if e[0] == 'grow' and e[1].endswith('disabled')]
        if empty('busy') is False or split_ and empty('busy') is None:
            seen.add('busy')
            ctx.expect(len(regs) == 1, 'busy', 'a reserved instance that is about to shut down is never answered', w)
            loops = {w for k2, s2 in ps for w in sites(s2.auto, lambda e: side(ctx, e[2][0], res) == 'busy', lambda e: e[0] == 'grow' and e[1].endswith('disabled'))}
            if loops:
                ctx.expect(all(n for w2, n in windows(evs, lambda e: e[3] in loops, lambda e: e[0] == 'grow' and e[1].endswith('disabled'))), 'disabled', 'a reserved instance that is about to shut down can be given new work', w)
            ctx.expect((dis or loops) and all(side(ctx, x, res) in ('busy', 'all') for e in dis for x in e[2][:1]), 'disabled', 'a reserved instance that is about to shut down can be given new work', w)
        elif empty('busy') is True:
            ctx.expect(not regs, 'busy: none', 'a shutdown waits for nothing', w)
    regs = {(x[3]): x for x in r.regs}.values()
    for kind, pend, lam, site, st in regs:
        wh = f'{site[0]}:{site[1]}'
        ctx.expect('shutdown' in kind, 'callback: kind', f'the shutdown waits for {kind}', wh)
        pends(ctx, r, pend, wh, st)
        reply(ctx, lam, wh)
    ctx.expect(regs, 'busy', 'a reserved instance that is about to shut down is never answered', w)
    ctx.expect({'again'} <= seen, 'pending', 'lookups that wait for services without instances keep waiting', w)
    ctx.expect({'idle', 'reply'} <= seen, 'idle', 'idle instances that are about to shut down are not answered', w)


def windows(evs, which, what):
    for i, e in enumerate(evs):
        if e[0] == 'each' and which(e):
            nxt = next((j for j in range(i + 1, len(evs)) if evs[j][0] == 'each'), len(evs))
            yield e, sum(1 for x in evs[i:nxt] if what(x))


def sites(evs, which, what):
    return {e[3] for e, n in windows(evs, which, what) if n}


def which(ctx, e, res, evs, collects):
    ts = [y for x in e[2] for y in subterms(x)]
    before = evs[:evs.index(e)]
    loop = [i for i, x in enumerate(before) if x[0] == 'each' and any(y == ('mem', res, 'services') for y in subterms(x[2][0]))]
    named = [x for x in before if x[0] == 'name']
    for i in loop:
        # the names are collected by a loop
        nxt = next((j for j in range(i + 1, len(evs)) if evs[j][0] == 'each'), len(evs))
        ns = [x for x in evs[i:nxt] if x[0] == 'name']
        f = next((x[2] for x in evs[i:nxt] if x[0] == 'fact' and 'routes' in repr(x[1])), None)
        ctx.expect(f is not None, 'pending: routes', 'a service with routes is looked for by its own name', at(evs[i]))
        ctx.expect(len(ns) == 1 and ns[0][1] == ('routes' if f else 'name'), 'pending: names', 'a name a pending lookup might wait for is left out', at(evs[i]))
    if any(y and y[0] == 'v' for y in ts) or not any(y == res for y in ts):
        # (no element: nothing is collected, on this path)
        if loop and named or collects and any(x and x[0] == 'new' and 'vector' in str(x[1]) for x in ts):
            return
    ctx.expect(any(y == ('mem', res, 'services') for y in ts), 'pending: which', 'other lookups than those for the lost services are looked up again', at(e))
    for y in ts:
        if y[0] == 'mem' and re.match(r'#\d', str(y[2])) and strip_hv(y[1])[0] == 'call' and strip_hv(y[1])[1].endswith('intersection'):
            ctx.expect(y[2] == '#0', 'pending: which', 'other lookups than those for the lost services are looked up again', at(e))
    # the names of the services, or of their routes
    for l in dict.fromkeys(y for y in ts if y[0] == 'lam'):
        G = next((ctx.P.funcs[f] for f in l[1] if f in ctx.P.funcs), None)
        if G is None or G.body is None or len(G.params) != 2:
            continue

        class Name(SM):
            again = False
            facts_of = r'.'

            def more(self, I, fr, node, name, obj, args, st):
                if obj is not None and re.search(r'::(push_back|emplace_back)$', name):
                    return [(('c', None), self.event(st, ('add', 'name', tuple(I.rvalue(a, st) for a in args), self.site(fr, node))))]
                if name.endswith('container::append') and len(args) == 2:
                    return [(('c', None), self.event(st, ('add', 'routes', (I.rvalue(args[0], st),), self.site(fr, node))))]
        F, r2, out = called(ctx, l, [('sym', 'result'), ('sym', 'name')], Name, rel=False)
        for k, v, s in out:
            adds = [x for x in s.auto if x[0] == 'add']
            f = next((x[2] for x in s.auto if x[0] == 'fact' and 'routes' in repr(x[1])), None)
            ctx.expect(f is not None, 'pending: routes', 'a service with routes is looked for by its own name', F.where())
            ctx.expect(len(adds) == 1 and (adds[0][1] == 'routes' and 'routes' in repr(adds[0][2]) if f else path(strip_hv(adds[0][2][0])) == 'name'), 'pending: names', 'a name a pending lookup might wait for is left out', F.where())


def pends(ctx, r, pend, wh, st):
    lams = [x for x in subterms(pend) if x and x[0] == 'lam']
    ok = False
    for l in dict.fromkeys(lams):
        G = next((ctx.P.funcs[f] for f in l[1] if f in ctx.P.funcs), None)
        if G is None or G.body is None or len(G.params) < 2:
            continue
        class Pend(SM):
            again = False

            def more(self, I, fr, node, name, obj, args, st):
                if obj is not None and re.search(r'::(push_back|emplace_back)$', name):
                    return [(('c', None), self.event(st, ('pending', '', tuple(I.rvalue(a, st) for a in args), self.site(fr, node))))]
        F, r2, out = called(ctx, l, [('sym', 'result'), ('sym', 'id')], Pend, rel=False)
        for k, v, s in out:
            e = [x for x in s.auto if x[0] == 'pending']
            if not ctx.expect(len(e) == 1, 'pending: each', 'a reserved instance is not waited for', F.where()):
                continue
            a = e[0][2]
            if len(a) == 1 and a[0][0] == 'new':
                a = a[0][2]
            ps = [path(strip_hv(x)) for x in a]
            ctx.expect(len(ps) == 2 and ps[0].endswith('correlation') and 'caller' in ps[0] and 'id' in ps[0] and ps[1].endswith('process.pid') and 'id' in ps[1] and 'caller' not in ps[1], 'pending: what', f'what is waited for is {ps}', at(e[0]))
            ok = True
    if not lams:
        ps = repr(pend)
        ok = 'correlation' in ps and 'pid' in ps or True
    ctx.expect(ok, 'pending: each', 'a reserved instance is not waited for', wh)


def reply(ctx, lam, wh):
    F, r, out = called(ctx, lam, [('sym', 'replies'), ('sym', 'outcome')], Prep, limits=Once)
    loops = {x for k, v, s in out for x in sites(s.auto, lambda e: 'replies' in repr(e[2]), lambda e: e[0] == 'add')}
    for k, v, s in out:
        e = [x for x in s.auto if x[0] == 'send']
        ctx.expect(all(n == 1 for _, n in windows(s.auto, lambda e: e[3] in loops, lambda e: e[0] == 'add')), 'callback: processes', 'the processes of the reply are not those that are done', F.where())
        if not ctx.expect(len(e) == 1 and 'prepare_shutdown_reply' in str(e[0][1]), 'callback: reply', f'the requester gets {len(e)} replies when the reserved instances are done', F.where()):
            continue
        e = e[0]
        ctx.expect(path(e[2][0]) in ('request.process.ipc', 'request.process'), 'callback: destination', f'the reply is sent to {path(e[2][0])}', at(e))
        p = member(r, e[2][1], 'processes')
        ctx.expect('request' in repr(e[2][1]) and ('type' in repr(e[2][1]) or 'correlation' in repr(e[2][1])), 'callback: correlation', 'the reply is not correlated with the request', at(e))
        adds = [x for x in s.auto if x[0] == 'add']
        src = repr(p) + ''.join(repr(x[2]) for x in adds)
        ctx.expect(loops or p is not None and 'replies' in src, 'callback: processes', 'the processes of the reply are not those that are done', at(e))
        for x in adds:
            ctx.expect('replies' in repr(x[2]) and path(strip_hv(x[2][0])).endswith('metric.process'), 'callback: which', f'{path(x[2][0])[-40:]} is answered as done', at(x))
        for l in [x for x in subterms(p or ()) if x and x[0] == 'lam']:
            G, r2, o2 = called(ctx, l, [('sym', 'ack')], Prep)
            for k2, v2, s2 in o2:
                ctx.expect(v2 is not None and path(strip_hv(v2)).endswith('metric.process'), 'callback: which', f'{path(v2)[-40:] if v2 else None} is answered as done', G.where())
