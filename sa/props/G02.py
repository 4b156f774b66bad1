"""inbound gateway: what a remote domain requests is carried out and answered exactly once"""
from .gw_common import *
from ..interp import State


def local(P, t, file, line):
    """the type with this name that is nearest before the line"""
    rs = [r for k, r in P.records.items() if k == t or k.startswith(t + '@')]
    here = [r for r in rs if r['file'] == file and r['l'] <= line]
    return max(here, key=lambda r: r['l']) if here else rs[0] if rs else None


class Story(GW):
    """what a task does with one message after the other: it remembers things in what it shares"""

    def special(self, I, fr, node, name, obj, args, st):
        if re.search(r'std::make_shared(<.*>)?$', name) and not args:
            t = ('call', 'make_shared', (), None)
            b = I.deref(t)
            ta = [str(x) for x in (fr.F.targs(node) or [])]
            r = local(self.P, model.clean(ta[0]), fr.F.file, node.get('l') or 0) if ta else None
            for f in r['fields'] if r else ():
                ft = model.clean(f['t'] if isinstance(f['t'], str) else fr.F.S[f['t']])
                if ft.startswith('std::optional<') or ft.endswith('transaction::ID'):
                    st = I.write(('mem', b, f['n']), ('new', ft, (), ()), st)
                elif ft == 'bool':
                    st = I.write(('mem', b, f['n']), ('c', False), st)
            return [(t, st)]
        if re.search(r'std::optional<.*>::(operator=|emplace)(<.*>)?$', name) and obj is not None and len(args) == 1:
            v = I.rvalue(args[0], st)
            if not (v[0] == 'new' and v[1].startswith(('std::optional<', 'std::nullopt'))) and 'optional' not in (fr.F.t(node['a'][-1]) or ''):
                return [(obj, I.write(obj, ('addr', v), st))]
        if name == 'std::exchange' and len(args) == 2:
            old = I.rvalue(args[0], st)
            return [(old, I.write(args[0], I.rvalue(args[1], st), st))]
        if re.search(r'protocol::transform::from(<.*>)?$', name) and args and unwrap(I.read(args[0], st)) == ('sym', 'request'):
            return [(('sym', 'request'), st)]
        return super().special(I, fr, node, name, obj, args, st)

    trid = None     # is the request in a transaction?

    def assume(self, I, v, st):
        if v[0] == 'bool':
            x = unwrap(v[1])
            if x[0] == 'addr' or x == ('mem', ('sym', 'branch'), 'trid'):
                return True
            if x[0] == 'new' and not x[2] and x[1].endswith('transaction::ID'):
                return False
            if x == EXT and self.trid is not None:
                return self.trid
            if x[0] == 'deref' and x[1][0] == 'call' and x[1][1] in ('associate', 'find'):
                return True
        if v[0] == 'eq':
            # the external transaction is not the one it is branched to
            a, b = unwrap(v[1]), unwrap(v[2])
            if EXT in (a, b) and 'trid' in repr((a, b) if a != EXT else b) + repr(a):
                o = b if a == EXT else a
                if o[0] == 'new' and not o[2]:
                    return self.trid is False if self.trid is not None else None
                return o == EXT
        return super().assume(I, v, st)


EXT = ('mem', ('sym', 'request'), 'trid')
SL, QL, BR = 'service_name_lookup_reply', 'queue_manager_queue_lookup_reply', 'transaction_inbound_branch_reply'


def tell(ctx, s, lams, mt, name):
    """[(kind, dispatch, state)] of the task when it gets a message of that type, after what is in state s"""
    for l in lams:
        F = next((ctx.P.funcs[f] for f in l[1] if f in ctx.P.funcs), None)
        ctx.need(F is not None, 'a handler of the task has no body')
        if model.msgtype(ctx.P, model.clean(F.ptype(0))) == mt:
            r, out, I = run(ctx, F, Story, [('sym', name), ('sym', 'socket')][:len(F.params)], l, start=s)
            ctx.count('continuations')
            return [(v[1] if k == 'ret' and v and v[0] == 'e' else 'Dispatch::done', s2) for k, v, s2 in out], F.where(), r
    return None


REQUESTS = {'service_call': ('service_reply', SL), 'service_call_v2': ('service_reply', SL), 'conversation_connect_request': ('conversation_connect_reply', SL),
            'conversation_connect_request_v2': ('conversation_connect_reply', SL), 'queue_group_enqueue_request': ('queue_group_enqueue_reply', QL), 'queue_group_dequeue_request': ('queue_group_dequeue_reply', QL)}
LOOKUPS = {SL: 'service_name_lookup_request', QL: 'queue_manager_queue_lookup_request'}
RESOURCE = ('prepare', 'commit', 'rollback')
FORWARD = ('conversation_connect_reply', 'conversation_send', 'queue_group_dequeue_reply', 'queue_group_enqueue_reply', 'domain_discovery_reply', 'domain_discovery_topology_implicit_update')
DISPATCH = [('internal', x) for x in (SL, QL, BR, 'service_reply') + tuple(f'transaction_resource_{r}_reply' for r in RESOURCE)] + [('external', 'conversation_send'), ('external', 'conversation_disconnect')]
WHERE = 'gateway/source/group/inbound/handle.cpp'
DONE, PENDING = 'Dispatch::done', 'Dispatch::pending'


def check(ctx):
    load(ctx)
    ctx.rule('inbound: a call, a connect, an enqueue or a dequeue of a remote domain is looked up once (and, in a transaction that is not known, branched once) and gets one task; the task is followed from what it remembers at its creation '
             'through the replies in either order: the request is sent once, when the last of them is there, to what was looked up, with the internal transaction, or one error reply is given; replies go to the connection of the request')
    for t, (rt, lt) in REQUESTS.items():
        request(ctx, t, rt, lt)
    for r in RESOURCE:
        resource(ctx, f'transaction_resource_{r}_request', f'transaction_resource_{r}_reply')
    for t in FORWARD:
        forward(ctx, t)
    for via, t in DISPATCH:
        dispatch(ctx, via, t)
    discovery(ctx)


def fact(evs, *words):
    return next((e[2] for e in evs if e[0] == 'fact' and all(w in repr(e[1]) for w in words)), None)


def can(ctx, evs, t, w):
    """can the connection handle the message? None: it is not asked"""
    for e in evs:
        if e[0] == 'fact':
            for x in subterms(e[1]):
                if isinstance(x, tuple) and len(x) > 2 and x[0] == 'call' and x[1] == 'compatible' and x[2][0][0] == 'c':
                    mt = x[2][0][1]
                    if not ctx.expect(isinstance(mt, str) and mt.startswith(t), t + ': version', f'the connection is asked for {mt}', w):
                        return None
                    return e[2] if mt == t else not e[2]
    return None


def partner(v):
    """the process of the connection that the request came on"""
    v = unwrap(v)
    return isinstance(v, tuple) and v[0] == 'call' and v[1] == 'process_handle' and v[2][-1] in (('sym', 'descriptor'), ('sym', 'socket'))


def internal(v):
    """the ipc of the partner"""
    return any(x[0] == 'call' and x[1] in ('find_internal', 'process_handle') and x[2][-1] in (('sym', 'descriptor'), ('sym', 'socket')) for x in subterms(strip_hv(v)) if isinstance(x, tuple) and x)


def about(rule, v, what='request'):
    """a message with the correlation of the request"""
    c = corr(rule, v)
    return c is not None and c[0] == 'mem' and c[2] == 'correlation' and unwrap(c[1]) == ('sym', what)


def deep(rule, v, name):
    """member, through records that are made with all their values"""
    for f in name.split('.'):
        if v is None:
            return None
        x = member(rule, v, f)
        if x is None:
            b = unwrap(v)
            if b[0] in ('sym', 'mem', 'deref', 'elem', 'call'):
                x = ('mem', b, f)
        v = x
    return v


def tasks_of(ctx, evs, t, w):
    add = [e for e in evs if e[0] == 'task' and e[1] == 'add']
    if not ctx.expect(len(add) == 1, t + ': task', f'the request gets {len(add)} tasks', w):
        return None
    u = unwrap(add[0][2][0])
    if not ctx.expect(u[0] == 'call' and u[1] == 'unit', t + ': unit', 'the task is not made for this request', at(add[0])):
        return None
    ctx.expect(u[2][0] == ('sym', 'descriptor'), t + ': unit key', 'the task does not belong to the connection of the request', at(add[0]))
    ctx.expect(is_req(u[2][1], 'correlation'), t + ': unit correlation', 'the task is not for the correlation of the request', at(add[0]))
    return [x for x in u[2][2:] if x[0] == 'lam']


def request(ctx, t, rt, lt):
    r = handler(ctx, 'in', 'external', t, Story)
    if not ctx.expect(r is not None, t + ': handler', f'the inbound handles no {t}', WHERE):
        return
    h, rule, out = r
    w, call, talk, queue = h.F.where(), t.startswith('service'), t.startswith('conversation'), lt == QL
    seen = set()
    for k, s in out:
        evs = s.auto
        lams = tasks_of(ctx, evs, t, w)
        if lams is None:
            continue
        trid = fact([e for e in evs if e[0] == 'fact' and e[1] == ('t', ('bool', EXT))], 'trid')
        cached = fact(evs, "'associate'")
        if not ctx.expect(trid is not None, t + ': transaction', 'whether the request is in a transaction is not looked at', w):
            continue
        waiting = trid and not cached
        # what is asked for
        lk = [e for e in evs if e[0] == 'send' and e[1] == LOOKUPS[lt]]
        if ctx.expect(len(lk) == 1, t + ': lookup', f'it is looked up {len(lk)} times', w):
            e = lk[0]
            m = e[2][1]
            ctx.expect(('queue' if queue else 'service') in repr(e[2][0]), t + ': lookup whom', 'something else is asked', at(e))
            ctx.expect(partner(member(rule, m, 'process') or ('c', 0)) or 'process_handle' in repr(m) and member(rule, m, 'process') is None, t + ': lookup process', 'the reply of the lookup does not reach the partner of the connection', at(e))
            ctx.expect(about(rule, m), t + ': lookup correlation', 'the lookup has another correlation', at(e))
            n = deep(rule, m, 'name' if queue else 'requested')
            ctx.expect(n is not None and is_req(n, 'name' if queue else 'service.name'), t + ': lookup name', f'{path(n)[:60] if n else "nothing"} is looked up', at(e))
            g = member(rule, m, 'gtrid')
            has = g is not None and EXT in tuple(subterms(g))
            ctx.expect(has == trid, t + ': lookup gtrid', 'the lookup is not made for the transaction of the request', at(e))
            fw = fact(evs, 'discovery', 'forward')
            x = deep(rule, m, 'context.requester')
            x = x[1].rsplit('::', 1)[-1] if x and x[0] == 'e' else '?'
            ctx.expect(fw is not None and x == ('external_discovery' if fw else 'external'), t + ': lookup requester', f'the lookup is made as {x}: ' + ('what can be discovered is not found' if fw else 'the request goes to other domains'), at(e))
            x = deep(rule, m, 'context.semantic')
            x = x[1].rsplit('::', 1)[-1] if x and x[0] == 'e' else '?'
            no = fact(evs, 'no_reply') if call else False
            ctx.expect(x == ('direct' if queue else 'no_reply' if no else 'regular'), t + ': lookup semantic', f'the lookup is {x}', at(e))
        br = [e for e in evs if e[0] == 'send' and e[1] == 'transaction_inbound_branch_request']
        if ctx.expect(len(br) == (1 if waiting else 0), t + ': branch', f'the transaction is branched {len(br)} times, {"it is not known" if waiting else "it is known" if trid else "there is none"}', w):
            for e in br:
                m = e[2][1]
                ctx.expect('transaction' in repr(e[2][0]), t + ': branch whom', 'something else than the transaction manager is asked', at(e))
                ctx.expect(about(rule, m), t + ': branch correlation', 'the reply will not reach the task', at(e))
                ctx.expect('process_handle' in repr(m), t + ': branch process', 'the reply does not reach the partner of the connection', at(e))
                g = member(rule, m, 'gtrid')
                ctx.expect(g is not None and EXT in tuple(subterms(g)), t + ': branch gtrid', 'another transaction is branched', at(e))
        if trid:
            a = [e for e in evs if e[0] == 'cache' and e[1] == 'associate']
            ctx.expect(len(a) == 1 and a[0][2][0] == EXT and a[0][2][1] == ('sym', 'descriptor'), t + ': associate', 'the transaction is not associated with the connection', w)
        if queue:
            faked = [e for e in evs if e[0] == 'send' and e[1] == QL]
            for e in faked:
                ctx.expect(internal(e[2][0]), t + ': no manager', 'the reply for a queue manager that is not there does not reach the task', at(e))
        story(ctx, t, rt, lt, s, lams, trid, cached, waiting, w)
    if queue:
        ctx.expect(any(e[0] == 'send' and e[1] == QL for k, s in out for e in s.auto), t + ': no manager', 'nothing answers when there is no queue manager', w)


def kind(evs, queue):
    """what the lookup found"""
    if queue:
        b = fact([e for e in evs if e[0] == 'fact' and "'lookup'" in repr(e[1])], "'process'")
        return None if b is None else 'idle' if b else 'absent'
    f = {m.group(1): e[2] for e in evs if e[0] == 'fact' and "'lookup'" in repr(e[1]) for m in [re.search(r'reply::State::(\w+)', repr(e[1]))] if m}
    yes = [k for k, v in f.items() if v]
    return yes[0] if yes else 'other' if f else None


def story(ctx, t, rt, lt, s, lams, trid, cached, waiting, w):
    call, talk, queue = t.startswith('service'), t.startswith('conversation'), lt == QL
    kind_ = 'waits for the branch' if waiting else 'known' if trid else 'none'
    Story.trid = trid
    try:
        # the loss of the connection before anything is known
        if not queue:
            x = tell(ctx, State(s.heap, s.facts, ()), lams, 'task_failed', 'failed')
            if ctx.expect(x is not None, t + ': failed', 'nothing is done when the connection is lost', w):
                for d, s2 in x[0]:
                    ds = [e for e in s2.auto if e[0] == 'send']
                    if ctx.expect(len(ds) == 1 and ds[0][1] == 'service_name_lookup_discard_request', t + ': discard', 'the lookup is not discarded when the connection is lost: the instance stays reserved', x[1]):
                        m = ds[0][2][1]
                        ctx.expect(corr(x[2], m) == ('mem', ('sym', 'failed'), 'correlation'), t + ': discard correlation', 'another lookup is discarded', at(ds[0]))
                        ctx.expect(is_req(deep(x[2], m, 'requested'), 'service.name'), t + ': discard name', 'another service is discarded', at(ds[0]))
                        ctx.expect(deep(x[2], m, 'reply') in (('c', False), ('c', 0), ('c', 'false')), t + ': discard reply', 'a reply is asked for that nobody takes', at(ds[0]))
                    ctx.expect(d.endswith(DONE), t + ': failed done', 'the task of a lost connection lives on', x[1])
        for order in ((lt, BR), (BR, lt)) if waiting else ((lt,),):
            front = [((), PENDING, s)]
            rule = None
            for n, mt in enumerate(order):
                nxt = []
                for acc, d0, c in front:
                    x = tell(ctx, State(c.heap, c.facts, ()), lams, mt, 'branch' if mt == BR else 'lookup')
                    if not ctx.expect(x is not None, f'{t}: {mt}', 'the task has no handler for it', w):
                        return
                    ctx.expect(len(x[0]) > 0, f'{t}: {mt} ends', 'the inbound is terminated', x[1])
                    rule = x[2]
                    for d, s2 in x[0]:
                        tot = acc + s2.auto
                        if n + 1 < len(order):
                            what = kind(tot, queue) if mt == lt else None
                            ctx.expect(not any(e[0] == 'send' and e[1] == t.removesuffix('_v2') for e in s2.auto), f'{t}: too early', 'the request is sent before ' + ('the transaction is branched' if mt == lt else 'the lookup is answered'), x[1])
                            ctx.expect(not d.endswith(DONE), f'{t}: done early', 'the task ends before all it waits for has come', x[1])
                            if talk and what in ('absent', 'timeout'):
                                rejected(ctx, t, lams, s2, w)
                            if what in ('absent', 'timeout') and not queue:
                                # the error reply may overtake the branch
                                y = tell(ctx, State(s2.heap, s2.facts, ()), lams, rt, 'reply') if call else None
                                over = any(d2.endswith(DONE) for d2, s3 in y[0]) if y else talk and any(e[0] == 'task' and e[1] == 'remove' for k3, s3 in handler(ctx, 'in', 'internal', rt)[2] for e in s3.auto)
                                ctx.expect(not over or any(e[0] == 'cache' and e[1] == 'add' for k3, s3 in handler(ctx, 'in', 'internal', BR)[2] for e in s3.auto), f'{t}: branch after the end', 'the transaction is branched after the task has ended with an error reply: it is not remembered, and can never be prepared', x[1])
                        nxt.append((tot, d, s2))
                front = nxt
            for evs, d, s2 in front:
                ended(ctx, t, rt, evs, d, s2, rule, lams, waiting, trid, queue, call, talk, order, w)
    finally:
        Story.trid = None


def ended(ctx, t, rt, evs, d, s, rule, lams, waiting, trid, queue, call, talk, order, w):
    what = kind(evs, queue)
    sent = [e for e in evs if e[0] == 'send' and e[1] == t.removesuffix('_v2')]
    rep = [e for e in evs if e[0] == 'send' and e[1] == rt]
    if what == 'other':
        return
    if not ctx.expect(what is not None, t + ': found', 'whether the lookup found something is not looked at', w):
        return
    if waiting:
        cache = [e for e in evs if e[0] == 'cache' and e[1] == 'add']
        via = ctx.hs.get(('in', 'internal', BR))
        if not cache and via is not None:
            _, _, o = handler(ctx, 'in', 'internal', BR)
            cache = [e for k, s3 in o for e in s3.auto if e[0] == 'cache' and e[1] == 'add'][:1]
            ok = len(cache) == 1 and cache[0][2][0] == ('mem', ('sym', 'request'), 'trid') and is_sock(cache[0][2][1])
        else:
            ok = len(cache) == 1 and cache[0][2][0] == ('mem', ('sym', 'branch'), 'trid') and cache[0][2][1] in (('sym', 'socket'), ('sym', 'descriptor'))
        ctx.expect(ok, t + ': cache', 'the branched transaction is not remembered for the connection: it can never be prepared', w)
    if what == 'idle':
        if not ctx.expect(len(sent) == 1 and not rep, t + ': sent', f'the request is sent {len(sent)} times, with {len(rep)} error replies', w):
            return
        e = sent[0]
        ctx.expect(strip_hv(e[2][0]) == ('mem', ('mem', ('sym', 'lookup'), 'process'), 'ipc'), t + ': sent to', f'the request is sent to {path(e[2][0])[-70:]}', at(e))
        m = e[2][1]
        base = unwrap(m)
        ctx.expect(base == ('sym', 'request'), t + ': sent what', 'something else is sent', at(e))
        p = member(rule, m, 'process')
        ctx.expect(p is not None and partner(p), t + ': sent process', 'the reply does not reach the partner of the connection', at(e))
        x = member(rule, m, 'trid')
        x = x if x is not None else rule_trid(s, base)
        if waiting:
            ctx.expect(x is not None and unwrap(x) == ('mem', ('sym', 'branch'), 'trid'), t + ': sent trid', 'the request is not made in the branched transaction', at(e))
        elif trid:
            ctx.expect(x is not None and "'associate'" in repr(x), t + ': sent trid', 'the request is not made in the internal transaction', at(e))
        if not queue:
            sameName = fact([e2 for e2 in evs if e2[0] == 'fact' and e2[1][0] == 'eq'], "'lookup'", "'name'")
            n, q = deep(rule, m, 'service.name'), deep(rule, m, 'service.requested')
            if sameName is False:
                ctx.expect(n == LN and q is not None and is_req(q[1] if q[0] == 'addr' else q, 'service.name'), t + ': route', 'a route is not followed: the service is called by the name that was requested', at(e))
            else:
                ctx.expect(n is None or is_req(n, 'service.name') or n == LN, t + ': name', 'another service is called', at(e))
        for l in e[2][2:]:
            unreachable(ctx, t, rt, l, at(e))
        ctx.expect(len(e[2]) > 2, t + ': unreachable', 'nothing answers when the destination can not be reached', at(e))
    elif what in ('absent', 'timeout'):
        ctx.expect(not sent, t + ': sent anyway', 'a request is sent to nobody', w)
        there = fact(evs, 'find_internal')
        if there is not False:
            if ctx.expect(len(rep) == 1, t + ': ' + what, f'the remote domain gets {len(rep)} replies', w):
                e = rep[0]
                ctx.expect(internal(e[2][0]), t + ': reply whom', 'the reply does not reach the connection', at(e))
                ctx.expect(about(rule, e[2][1]), t + ': reply correlation', 'the reply has another correlation', at(e))
                if not queue:
                    c = code(rule, e[2][1])
                    ctx.expect(c is not None and c.endswith({'absent': 'no_entry', 'timeout': 'timeout'}[what]), t + ': reply code', f'the remote domain is told {c}', at(e))
    else:
        ctx.expect(False, t + ': state', f'unknown {what}', w)
    # does the task live as long as there is something for it to do
    if queue:
        ctx.expect(d.endswith(DONE), t + ': done', 'the task lives on', w)
    elif call:
        no = fact(evs, 'no_reply')
        if what == 'idle' and no is None:
            no = next((v for k, v in s.facts.items() if 'no_reply' in repr(k)), None)
        if what == 'idle':
            ctx.expect(d.endswith(PENDING) if not no else True, t + ': pending', 'the task ends before the reply of the call', w)
            ctx.expect(no is not None and (d.endswith(DONE) if no else True), t + ': no reply', 'the task of a call without reply lives on', w)
        else:
            ctx.expect(d.endswith(PENDING), t + ': pending', 'the task ends before the error reply', w)
    elif talk and what == 'idle':
        ctx.expect(d.endswith(PENDING), t + ': pending', 'the task of a conversation ends with the connect', w)
    # and what comes then
    if what == 'idle' and d.endswith(PENDING):
        go = lambda mt: tell(ctx, State(s.heap, s.facts, ()), lams, mt, 'reply')
        if not queue:
            x = go('task_failed')
            for d2, s2 in x[0] if x else ():
                ctx.expect(not any(e[0] == 'send' for e in s2.auto), t + ': no discard', 'a lookup is discarded that is done', x[1])
        if call:
            x = go(rt)
            if ctx.expect(x is not None, t + ': reply', 'the task has no handler for the reply', w):
                for d2, s2 in x[0]:
                    tcp = [e for e in s2.auto if e[0] == 'tcp']
                    if ctx.expect(len(tcp) == 1, t + ': reply', f'the reply is sent {len(tcp)} times', x[1]):
                        e = tcp[0]
                        comp = can(ctx, s2.auto, rt, at(e))
                        ctx.expect(sock(e[2][0]), t + ': reply to', 'the reply goes to another connection', at(e))
                        ctx.expect(is_message(e[2][1], comp is False, 'reply'), t + ': reply what', f'{path(e[2][1])[:60]} is sent on a connection that {"can not" if comp is False else "can"} handle it', at(e))
                    ctx.expect(d2.endswith(DONE), t + ': reply done', 'the task lives on after the reply', x[1])
        if talk:
            for mt, end in (('conversation_send', PENDING), ('conversation_disconnect', DONE)):
                x = go(mt)
                if ctx.expect(x is not None, f'{t}: {mt}', 'the task has no handler for it', w):
                    for d2, s2 in x[0]:
                        ds = [e for e in s2.auto if e[0] == 'send']
                        ctx.expect(len(ds) == 1 and ds[0][1] == mt and strip_hv(ds[0][2][0]) == ('mem', ('mem', ('sym', 'lookup'), 'process'), 'ipc') and unwrap(ds[0][2][1]) == ('sym', 'reply'), f'{t}: {mt}', 'what the remote domain sends does not reach the service, once', x[1])
                        ctx.expect(d2.endswith(end), f'{t}: {mt} end', f'the task is {d2.rsplit("::", 1)[-1]}', x[1])
    elif talk and what != 'idle' and d.endswith(PENDING):
        rejected(ctx, t, lams, s, w)


def rejected(ctx, t, lams, s, w):
    for mt in ('conversation_send', 'conversation_disconnect'):
        x = tell(ctx, State(s.heap, s.facts, ()), lams, mt, 'reply')
        ctx.expect(x is None or len(x[0]) > 0, f'{t}: {mt} rejected', 'the inbound is terminated by something that is sent in a conversation that has been rejected', w)
        for d, s2 in x[0] if x else ():
            ctx.expect(not any(e[0] == 'send' for e in s2.auto), f'{t}: {mt} rejected', 'something that is sent in a conversation that has been rejected goes to nobody', x[1])


LN = ('mem', ('mem', ('sym', 'lookup'), 'service'), 'name')


def rule_trid(s, base):
    v = s.heap.get(('mem', base, 'trid'))
    return v


def sock(v):
    return any(x[0] == 'call' and x[1] in ('find_external', 'partner') and x[2][-1] in (('sym', 'socket'), ('sym', 'descriptor')) for x in subterms(strip_hv(v)) if isinstance(x, tuple) and x) or strip_hv(v) in (('sym', 'socket'),)


def unreachable(ctx, t, rt, l, w):
    if l[0] != 'lam':
        return
    F, rule, out = called(ctx, l, (('sym', 'destination'), ('sym', 'complete')))
    for k, v, s in out:
        rep = [e for e in s.auto if e[0] == 'send' and e[1] == rt]
        if fact(s.auto, 'find_internal') is not False:
            if ctx.expect(len(rep) == 1, t + ': unreachable', f'{len(rep)} replies when the destination can not be reached', F.where()):
                ctx.expect(internal(rep[0][2][0]), t + ': unreachable whom', 'the reply does not reach the connection', at(rep[0]))
                if not rt.startswith('queue'):
                    c = code(rule, rep[0][2][1])
                    ctx.expect(c is not None and not re.search(r'::(ok|absent)$', c), t + ': unreachable code', f'the remote domain is told {c}', at(rep[0]))


def resource(ctx, t, rt):
    r = handler(ctx, 'in', 'external', t, Story)
    if not ctx.expect(r is not None, t + ': handler', f'the inbound handles no {t}', WHERE):
        return
    h, rule, out = r
    w = h.F.where()
    for k, s in out:
        evs = s.auto
        lams = tasks_of(ctx, evs, t, w)
        if lams is None:
            continue
        found = fact(evs, "'find'")
        if not ctx.expect(found is not None and any("'find'" in repr(e[1]) and EXT in tuple(subterms(e[1])) for e in evs if e[0] == 'fact'), t + ': cache', 'the internal transaction is not looked for', w):
            continue
        sent = [e for e in evs if e[0] == 'send' and e[1] == t]
        rep = [e for e in evs if e[0] == 'send' and e[1] == rt]
        there = fact(evs, 'find_internal')
        ctx.expect(len(sent) == (1 if found else 0) and len(rep) == (0 if found or there is False else 1), t + ': sent', f'{len(sent)} requests to the transaction manager and {len(rep)} replies, for a transaction that is {"known" if found else "not known"}', w)
        for e in sent:
            ctx.expect('transaction' in repr(e[2][0]), t + ': sent to', 'the request does not go to the transaction manager', at(e))
            m = e[2][1]
            ctx.expect(unwrap(m) == ('sym', 'request') and "'find'" in repr(member(rule, m, 'trid')), t + ': sent trid', 'the request is not made for the internal transaction', at(e))
            p = member(rule, m, 'process')
            ctx.expect(p is not None and partner(p), t + ': sent process', 'the reply does not reach the partner of the connection', at(e))
        for e in rep:
            ctx.expect(internal(e[2][0]) and about(rule, e[2][1]), t + ': reply', 'the reply does not reach the connection', at(e))
            c = member(rule, e[2][1], 'state')
            ctx.expect(c is not None and c[0] == 'e' and not re.search(r'::(ok|read_only)$', c[1]), t + ': reply state', 'a transaction that is not known is reported as done', at(e))
        x = tell(ctx, State(s.heap, s.facts, ()), lams, rt, 'reply')
        if ctx.expect(x is not None, t + ': task', 'the task has no handler for the reply', w):
            for d, s2 in x[0]:
                tcp = [e for e in s2.auto if e[0] == 'tcp']
                if ctx.expect(len(tcp) == 1, t + ': reply sent', f'the reply is sent {len(tcp)} times', x[1]):
                    e = tcp[0]
                    ctx.expect(sock(e[2][0]) and unwrap(e[2][1]) == ('sym', 'reply'), t + ': reply to', 'the reply goes to another connection', at(e))
                    y = member(x[2], e[2][1], 'trid')
                    ctx.expect(y is not None and unwrap(y) == EXT, t + ': reply trid', 'the reply is not for the transaction that the remote domain knows', at(e))
                ctx.expect(d.endswith(DONE), t + ': reply done', 'the task lives on after the reply', x[1])


def forward(ctx, t):
    r = handler(ctx, 'in', 'internal', t)
    if not ctx.expect(r is not None, t + ': forward', f'the inbound handles no {t}', WHERE):
        return
    h, rule, out = r
    w = h.F.where()
    for k, s in out:
        tcp = [e for e in s.auto if e[0] == 'tcp']
        if ctx.expect(len(tcp) == 1, t + ': forward', f'it is sent {len(tcp)} times', w):
            e = tcp[0]
            comp = can(ctx, s.auto, t, at(e))
            ctx.expect(is_sock(e[2][0]), t + ': forward to', 'it goes to another connection', at(e))
            ctx.expect(is_message(e[2][1], comp is False), t + ': forward what', f'{path(e[2][1])[:60]} is sent on a connection that {"can not" if comp is False else "can"} handle it', at(e))
        if t == 'conversation_send':
            end = fact(s.auto, 'duplex', 'terminated')
            rm = [e for e in s.auto if e[0] == 'task' and e[1] == 'remove']
            ctx.expect(end is not None and len(rm) == (1 if end else 0) and all(is_req(e[2][0], 'correlation') for e in rm), t + ': terminated', 'the task of a conversation that is over lives on' if end else 'a conversation is ended that is not over', w)
        if t == 'conversation_connect_reply':
            fs = {m.group(1): e[2] for e in s.auto if e[0] == 'fact' and "'code'" in repr(e[1]) for m in [re.search(r'xatmi::(\w+)', repr(e[1]))] if m}
            fail = any(b for n, b in fs.items() if n not in ('absent', 'ok')) or fs.get('absent') is False and fs.get('ok') is False
            rm = [e for e in s.auto if e[0] == 'task' and e[1] == 'remove']
            ctx.expect(bool(fs) and len(rm) == (1 if fail else 0) and all(is_req(e[2][0], 'correlation') for e in rm), t + ': failed', 'the task of a conversation that failed to connect lives on' if fail or not fs else 'a conversation is ended that has begun', w)


def dispatch(ctx, via, t):
    r = handler(ctx, 'in', via, t)
    if ctx.expect(r is not None, t + ': dispatch', f'the inbound handles no {t}', WHERE):
        h, rule, out = r
        for k, s in out:
            ds = [e for e in s.auto if e[0] == 'task' and e[1] == 'dispatch']
            ctx.expect(len(ds) == 1 and unwrap(ds[0][2][0]) == ('sym', 'request'), t + ': dispatch', f'the task gets it {len(ds)} times', h.F.where())
            ctx.expect(not any(e[0] in ('send', 'tcp') for e in s.auto), t + ': direct', 'it is also sent', h.F.where())


def discovery(ctx):
    t = 'domain_discovery_request'
    r = handler(ctx, 'in', 'external', t)
    if ctx.expect(r is not None, t + ': handler', f'the inbound handles no {t}', WHERE):
        h, rule, out = r
        for k, s in out:
            ds = [e for e in s.auto if e[0] == 'discover']
            if ctx.expect(len(ds) == 1, t, f'the discovery is asked {len(ds)} times', h.F.where()):
                m = ds[0][2][-1] if unwrap(ds[0][2][0]) != ('sym', 'request') else ds[0][2][0]
                p = member(rule, m, 'process')
                ctx.expect(unwrap(m) == ('sym', 'request') and p is not None and partner(p), t + ': process', 'the reply does not reach the partner of the connection', at(ds[0]))
                fw = fact(s.auto, 'discovery', 'forward')
                x = member(rule, m, 'directive')
                x = x[1].rsplit('::', 1)[-1] if x is not None and x[0] == 'e' else None
                ctx.expect(fw is not None and (x == 'forward' if fw else x is None), t + ': forward', 'the request is not forwarded to other domains although it is configured' if fw else 'the request is forwarded to other domains', at(ds[0]))
