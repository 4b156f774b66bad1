"""the callers of a process that dies are told, and what waits for it goes on"""
from .svc_common import *
from ..interp import subterms_of as subterms


class Exit(SM):
    facts_of = SM.facts_of + r'|m_caller|caller|process'

    def more(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        if self.opaque_remove and re.search(r'service::manager::State::remove$', name):
            t = ('call', 'State::remove', tuple(I.rvalue(a, st) for a in args), I.site(fr, node))
            st = self.event(I.fresh_call(t, st), ('remove', '', tuple(I.rvalue(a, st) for a in args) + (t,), s))
            return [(t, I.havoc(('sym', 'State:state'), I.site(fr, node), st))]
        if not self.opaque_remove:
            m = re.search(r'(lookup_index<.*>|Index<.*>)::(indexes|operator\[\]|contains|lookup)$', name)
            if m and obj is not None:
                return [(('call', m.group(2), (strip_hv(obj),) + tuple(I.rvalue(a, st) for a in args), None), st)]
            if obj is not None and re.search(r'::(push_back|emplace_back)$', name) and 'Caller' in name:
                return [(('c', None), I.havoc(obj, I.site(fr, node), self.event(st, ('caller', '', tuple(I.rvalue(a, st) for a in args), s))))]
            if re.search(r'service::Instances::remove$', name):
                return [(('call', name, (obj, I.rvalue(args[0], st)), I.site(fr, node)), self.event(st, ('detach', path(strip_hv(obj)), (I.rvalue(args[0], st),), s)))]
            if re.search(r'(lookup_index<.*>|Index<.*>)::erase$', name):
                return [(('c', None), I.havoc(obj, I.site(fr, node), self.event(st, ('gone', path(strip_hv(obj)), (I.rvalue(args[0], st),), s))))]
            if re.search(r'Collection<.*>::remove$', name) or name.endswith('Process::clear'):
                return [(('c', None), self.event(st, ('forget', path(strip_hv(obj)), tuple(I.rvalue(a, st) for a in args), s)))]
        return None

    def on_leave(self, I, fr, node, kind, st):
        return st if kind == 'throw' or self.opaque_remove else self.event(st, ('left', '', (), (fr.F.file, node.get('l'))))

    opaque_remove = True


def check(ctx):
    P = load(ctx)
    ctx.rule('when a process dies: every instance of it leaves the services, the instances and the disabled; the caller of each reserved instance gets a service error with its correlation; '
             'a shutdown that waits for it is told, its timeout is forgotten, and every pending lookup is looked up again')
    handler(ctx)
    removal(ctx)


def handler(ctx):
    h, r, ps = paths(ctx, 'event_process_exit', Exit, limits=Once)
    w = h.F.where()
    pid = 'request.state.pid'
    told = looked = 0
    for k, s in ps:
        evs = s.auto
        rem = [e for e in evs if e[0] == 'remove']
        if not ctx.expect(len(rem) == 1 and path(rem[0][2][0]) == pid, 'exit: removed', 'the dead process is not removed from the state', w):
            continue
        ctx.expect(any(e[0] == 'failed' and e[1].endswith('shutdown') and path(e[2][0]) == pid for e in evs), 'exit: shutdown', 'a prepare shutdown that waits for the dead process keeps waiting', w)
        ctx.expect(any(e[0] == 'shrink' and e[1].endswith('timeout_instances') and path(e[2][-1] if len(e[2]) else ('c', 0)) == pid or e[0] == 'shrink' and e[1].endswith('timeout_instances') and pid in ' '.join(path(x) for x in e[2]) for e in evs)
                   or any(e[0] == 'fact' and e[2] is False and 'timeout_instances' in repr(e[1]) for e in evs), 'exit: timeout', 'the timeout of the dead process is kept, and a later process with its id gets the blame', w)
        res = rem[0][2][-1]
        each = [i for i, e in enumerate(evs) if e[0] == 'each' and any(x == res for x in subterms(e[2][0]))]
        for n, i in enumerate(each):
            end = each[n + 1] if n + 1 < len(each) else len(evs)
            el = path(strip_hv(evs[i][2][0]))
            sent = [e for e in evs[i:end] if e[0] == 'send' and e[1] == 'service_reply']
            if ctx.expect(len(sent) == 1, 'exit: callers', f'the caller of an instance that died gets {len(sent)} replies', at(evs[i])):
                told += 1
                e = sent[0]
                c = member(r, e[2][1], 'correlation')
                code = member(r, member(r, e[2][1], 'code'), 'result') if member(r, e[2][1], 'code') is not None else None
                ctx.expect(path(e[2][0]) == el + '.process.ipc', 'exit: callers', f'the error for the caller is sent to {path(e[2][0])}', at(e))
                ctx.expect(c is not None and path(c) == el + '.correlation', 'exit: correlation', f'the error for the caller has the correlation {path(c) if c else "?"}', at(e))
                ctx.expect(code is not None and path(code).endswith('service_error'), 'exit: code', f'the caller of an instance that died gets {path(code) if code else "?"}', at(e))
        out = [i for i, e in enumerate(evs) if e[0] == 'shrink' and e[1].endswith('lookups')]
        ctx.expect(len(out) == 1, 'exit: pending', 'lookups that wait for a service of the dead process keep waiting', w)
        if out:
            ctx.expect(out[0] > evs.index(rem[0]), 'exit: order', 'the pending lookups are looked up before the dead process is removed', at(evs[out[0]]))
        for i, e in enumerate(evs):
            if e[0] == 'each' and 'lookups' in path(strip_hv(e[2][0])):
                nxt = next((j for j in range(i + 1, len(evs)) if evs[j][0] == 'each'), len(evs))
                l = [x for x in evs[i:nxt] if x[0] == 'lookup']
                if ctx.expect(len(l) == 1, 'exit: again', f'a pending lookup is looked up {len(l)} times', at(e)):
                    looked += 1
                    ctx.expect('lookups' in path(l[0][2][0]) and path(l[0][2][0]).endswith('.request'), 'exit: again', 'something else than the pending lookup is looked up', at(l[0]))
    ctx.expect(told, 'exit: callers', 'the callers of an instance that died get no reply', w)
    ctx.expect(looked, 'exit: pending', 'lookups that wait for a service of the dead process keep waiting', w)


def removal(ctx):
    Fs = [F for F in ctx.P.find(file=r'^service/') if F.qn.endswith('service::manager::State::remove') and F.body is not None]
    ctx.need(Fs, 'State::remove not found')
    for F in Fs:
        r, out, I = run(ctx, F, Exit, [('sym', 'who')], this=('sym', 'State:state'), opaque_remove=False, rel=False, limits=Once)
        w = F.where()
        some = 0
        for k, v, s in out:
            evs = s.auto
            for kind in ('sequential', 'concurrent'):
                gone = [e for e in evs if e[0] == 'gone' and kind in e[1]]
                for e in gone:
                    i = path(strip_hv(e[2][0]))
                    some |= 1 if kind == 'sequential' else 2
                    if kind == 'sequential':
                        j = evs.index(e)
                        prev = max([evs.index(x) for x in gone if evs.index(x) < j] or [-1])
                        dis = [x for x in evs[prev + 1:] if x[0] == 'shrink' and x[1].endswith('disabled') and i in ' '.join(path(y) for y in x[2])]
                        ctx.expect(dis, 'remove: disabled', 'a removed instance is still about to exit, and so is the next one with its id', at(e))
                        f = [x for x in evs[prev + 1:j] if x[0] == 'fact' and 'm_caller' in repr(x[1]) and i in path(x[1][1])]
                        told = [x for x in evs[prev + 1:j] if x[0] == 'caller']
                        ctx.expect(f, 'remove: caller', 'an instance is removed without a look at its caller', at(e))
                        if f:
                            ctx.expect(len(told) == (1 if f[-1][2] else 0), 'remove: caller', 'the caller of a removed instance is not returned' if f[-1][2] else 'an instance without a caller has one', at(e))
                        for x in told:
                            ctx.expect(path(strip_hv(strip(x[2][0]))).endswith('m_caller') and i in path(x[2][0]), 'remove: caller', f'{path(x[2][0])[-60:]} is returned as the caller', at(x))
                for e in gone:
                    ctx.expect(strip_hv(e[2][0])[0] == 'elem' or not re.search(r'\b(front|back|begin|find\w*)\(', path(strip_hv(e[2][0]))), 'remove: all', 'only one of the instances is removed', at(e))
        det = [(path(strip_hv(e[2][0])), e[1]) for k, v, s in out for e in s.auto if e[0] == 'detach']
        for kind in ('sequential', 'concurrent'):
            ctx.expect(any(kind in d for d, _ in det), f'remove: services {kind}', f'a removed {kind} instance stays with its services', w)
            ctx.expect(any(e[0] == 'gone' and kind in e[1] for k, v, s in out for e in s.auto), f'remove: {kind}', f'{kind} instances of a dead process are not removed', w)
        for k, v, s in out:
            for e in s.auto:
                if e[0] == 'left':
                    ctx.expect(False, 'remove: all', 'the removal stops before everything is looked at', at(e))
        # the instances of this process, and no others
        for k, v, s in out:
            for e in s.auto:
                if e[0] in ('gone', 'detach'):
                    lam = [x for x in subterms(e[2][0]) if x and x[0] == 'lam']
                    ok = False
                    for l in lam:
                        G = next((ctx.P.funcs[f] for f in l[1] if f in ctx.P.funcs), None)
                        if G is None or G.body is None:
                            continue
                        _, r2, o2 = called(ctx, l, [('sym', 'candidate')], Exit, opaque_remove=False)
                        J = Interp(ctx.P, Exit(ctx.P), More)
                        res = [(b, s2) for kk, vv, ss in o2 if vv is not None for b, s2 in J.truth(J.read(vv, ss), ss) if b]
                        if res and all(any(val and 'who' in repr(y) and 'process' in repr(y) for y, val in s2.facts.items()) for b, s2 in res):
                            ok = True
                    byfact = any(x[0] == 'fact' and x[2] and 'who' in repr(x[1]) and 'process' in repr(x[1]) for x in s.auto)
                    ctx.expect(ok or byfact, 'remove: which', 'an instance of another process is removed', at(e))
        if 'process' in F.ptype(0):
            f = [e for k, v, s in out for e in s.auto if e[0] == 'forget' and 'events' in e[1]]
            ctx.expect(f, 'remove: events', 'a dead process keeps its event subscriptions', w)
