"""outbound gateway: what is requested of a remote domain is answered exactly once"""
from .gw_common import *

TASKS = {'service_call': 'service_reply', 'conversation_connect_request': 'conversation_connect_reply',
         'queue_group_enqueue_request': 'queue_group_enqueue_reply', 'queue_group_dequeue_request': 'queue_group_dequeue_reply'}
DESTINATIONS = {'domain_discovery_request': 'domain_discovery_reply', 'transaction_resource_prepare_request': 'transaction_resource_prepare_reply',
                'transaction_resource_commit_request': 'transaction_resource_commit_reply', 'transaction_resource_rollback_request': 'transaction_resource_rollback_reply'}
EXTERNAL = ('service_reply', 'service_reply_v2', 'conversation_connect_reply', 'conversation_send', 'queue_group_enqueue_reply', 'queue_group_enqueue_reply_v1_2',
            'queue_group_dequeue_reply', 'queue_group_dequeue_reply_v1_2')
DONE, PENDING = 'Dispatch::done', 'Dispatch::pending'


def check(ctx):
    load(ctx)
    ctx.rule('outbound: a call, a connect, an enqueue or a dequeue is either answered at once or becomes one task - before it is sent, once, on the connection it came in on - with a handler for the reply and one for the loss of '
             'the connection, each of which sends the requester one reply with its correlation; prepare, commit, rollback and discovery register where the reply is to be sent; every message from the remote domain reaches '
             'its task or its destination; the coordinator invokes the task with the correlation and removes it when it is done, and fails (and removes) the tasks of a lost connection only')
    for t, rt in TASKS.items():
        request(ctx, t, rt)
    for t, rt in DESTINATIONS.items():
        destination(ctx, t, rt)
    external(ctx)
    talk(ctx)
    coordinator(ctx)
    destinations(ctx)


def request(ctx, t, rt):
    r = handler(ctx, 'out', 'internal', t)
    if not ctx.expect(r is not None, t + ': handler', f'the outbound handles no {t}', 'gateway/source/group/outbound/handle.cpp'):
        return
    h, rule, out = r
    w = h.F.where()
    if t == 'service_call':
        ctx.expect(any('no_reply' in repr(e[1]) for k, s in out for e in s.auto if e[0] == 'fact'), t + ': no_reply', 'a call without reply gets a task that nothing ends but the loss of the connection', w)
    for k, s in out:
        evs = s.auto
        add = [(i, e) for i, e in enumerate(evs) if e[0] == 'task' and e[1] == 'add']
        tcp = [(i, e) for i, e in enumerate(evs) if e[0] == 'tcp']
        rep = [e for e in evs if e[0] == 'send' and e[1] == rt]
        loop = next((e[2] for e in evs if e[0] == 'fact' and 'tasks.contains' in repr(e[1]) and 'correlation' in repr(e[1])), None)
        if t == 'service_call':
            ctx.expect(loop is not None and loop == bool(rep), t + ': loop', 'a call that is already on its way is sent again: the reply of either ends the other' if not rep else 'a call is refused that is not on its way already', w)
        if rep:
            ctx.expect(len(rep) == 1 and not add and not tcp, t + ': answered', 'a request that is answered at once is also sent to the remote domain, or answered twice', at(rep[0]))
            e = rep[0]
            ctx.expect(is_req(e[2][0], 'process.ipc'), t + ': answered whom', f'{path(e[2][0])[-60:]} gets the reply', at(e))
            ctx.expect(req_corr(e[2][1]), t + ': answered with', 'the reply does not have the correlation of the request', at(e))
            c = member(rule, e[2][1], 'code.result') or member(rule, member(rule, e[2][1], 'code') or e[2][1], 'result')
            if t in ('service_call', 'conversation_connect_request'):
                ctx.expect(c is not None and c[0] == 'e' and not re.search(r'::(ok|absent)$', c[1]), t + ': answered error', 'a request that is not carried out is answered as if it was', at(e))
            continue
        if not ctx.expect(len(add) == 1, t + ': task', 'nothing will answer the request' if not add else 'the request gets more than one task', w):
            continue
        i, a = add[0]
        u = a[2][0]
        while u[0] in ('upd', 'hv'):
            u = u[1]
        if not ctx.expect(u[0] == 'call' and u[1] == 'unit', t + ': unit', 'the task is not made for this request', at(a)):
            continue
        ctx.expect(is_sock(u[2][0]), t + ': unit key', f'the task belongs to {path(u[2][0])[:80]}, not to the connection the request is sent on', at(a))
        ctx.expect(is_req(u[2][1], 'correlation'), t + ': unit correlation', f'the task is for {path(u[2][1])[:60]}, not for the correlation of the request', at(a))
        ctx.expect(len(tcp) == 1, t + ': sent', f'the request is sent {len(tcp)} times', at(a))
        for j, e in tcp:
            ctx.expect(j > i, t + ': order', 'the request is sent before there is a task: nothing answers it when the connection is lost', at(e))
            ctx.expect(is_sock(e[2][0]), t + ': sent to', f'the request is sent on {path(e[2][0])[:80]}', at(e))
            comp = next((x[2] for x in evs if x[0] == 'fact' and 'compatible' in repr(x[1])), True)
            ctx.expect(is_message(e[2][1], not comp) and (e[1] == t) == comp, t + ': sent what', f'{path(e[2][1])[:60]} ({e[1]}) is sent on a connection that {"can" if comp else "can not"} handle {t}', at(e))
            ctx.expect('lost' in repr(e[2][2]) or e[2][2][0] in ('addr', 'fn', 'lam'), t + ': sent lost', 'a connection that is lost during the send is not taken care of', at(e))
        handlers(ctx, t, rt, [x for x in u[2][2:] if x[0] == 'lam'], at(a))


seen = set()


def handlers(ctx, t, rt, lams, w):
    by = {}
    for l in lams:
        F = next((ctx.P.funcs[f] for f in l[1] if f in ctx.P.funcs), None)
        ctx.need(F is not None, 'a handler of the task has no body')
        mt = model.msgtype(ctx.P, model.clean(F.ptype(0)))
        ctx.expect(mt not in by, t + ': handlers', f'two handlers for {mt}', w)
        by[mt] = l
    for mt, what in ((rt, 'the reply'), ('task_failed', 'a lost connection')) + ((('conversation_send', 'what is sent'), ('conversation_disconnect', 'a disconnect')) if t == 'conversation_connect_request' else ()):
        ctx.expect(mt in by, f'{t}: handles {mt}', f'the task has no handler for {what}', w)
    for mt, l in by.items():
        if (t, l) in seen:
            continue
        seen.add((t, l))
        task(ctx, t, rt, mt, l)


def task(ctx, t, rt, mt, l):
    F, rule, out = called(ctx, l, (('sym', 'reply'), ('sym', 'socket')))
    w, id = F.where(), f'{t}: {mt}'
    talk = t == 'conversation_connect_request'
    for k, v, s in out:
        evs = s.auto
        sends = [e for e in evs if e[0] == 'send' and e[1] in (rt, 'conversation_send')]
        done = DONE if v is None or k != 'ret' or v == ('c', None) else v[1] if v[0] == 'e' else '?'
        for e in sends:
            ctx.expect(is_ipc(ctx, e[2][0]), id + ' whom', f'{path(e[2][0])[-70:]} gets it, not the one that made the request', at(e))
        tcp = [e for e in evs if e[0] == 'tcp']
        if mt in (rt, 'conversation_send'):
            ctx.expect(len(sends) == 1 and sends[0][1] == mt, id, f'{mt} is forwarded {len(sends)} times', w)
            for e in sends:
                ctx.expect(e[2][1] == ('sym', 'reply'), id + ' what', f'{path(e[2][1])[:60]} is sent instead of what came', at(e))
            ctx.expect(not tcp, id + ' back', 'something is sent back to the remote domain', w)
            if not talk:
                ctx.expect(done.endswith(DONE), id + ' done', 'the task lives on after the reply', w)
            elif mt == rt:
                fs = {m.group(1): e[2] for e in evs if e[0] == 'fact' and "'code'" in repr(e[1]) for m in [re.search(r'xatmi::(\w+)', repr(e[1]))] if m}
                fail = any(b for n, b in fs.items() if n not in ('absent', 'ok')) or fs.get('absent') is False and fs.get('ok') is False
                ctx.expect(done.endswith(DONE if fail else PENDING), id + ' pending', 'the task of a conversation ends with the connect' if not fail else 'the task of a conversation that failed to connect lives on', w)
            else:
                end = next((e[2] for e in evs if e[0] == 'fact' and 'duplex' in repr(e[1]) and 'terminated' in repr(e[1])), None)
                ctx.expect(end is not None and done.endswith(DONE if end else PENDING), id + ' end', 'the task of a conversation ends although it is not terminated' if not end else 'the task of a terminated conversation lives on', w)
            if t in ('service_call', 'conversation_connect_request') and mt == rt:
                no = next((e[2] for e in evs if e[0] == 'fact' and 'no_entry' in repr(e[1])), None)
                rm = [e for e in evs if e[0] == 'send' and e[1] == 'service_advertise']
                ctx.expect(no is not None and (no or not rm), id + ' unadvertise', 'a service is unadvertised that the remote domain has', w)
                handle = next((e[2] for e in evs if e[0] == 'fact' and 'process_handle' in repr(e[1]) and not e[2]), True)
                if no and handle:
                    ctx.expect(len(rm) == 1, id + ' no entry', 'a service that the remote domain does not have is still advertised', w)
        elif mt == 'task_failed':
            ctx.expect(done.endswith(DONE), id + ' done', 'the task lives on', w)
            ctx.expect(not tcp, id + ' tcp', 'something is sent on the lost connection', w)
            rep = [e for e in sends if e[1] == rt]
            term = [e for e in sends if e[1] == 'conversation_send']
            if talk:
                con = next((e[2] for e in evs if e[0] == 'fact'), None)
                ctx.expect(len(rep) <= 1 and (len(rep) == 1 or con is not None), id + ' connect', 'the one that connects is not answered', w)
                ctx.expect(len(term) == 1, id + ' terminated', 'the one that has a conversation is not told that it is over', w)
                for e in term:
                    ctx.expect('terminated' in repr(member(rule, e[2][1], 'duplex')), id + ' duplex', 'the conversation goes on', at(e))
            else:
                ctx.expect(len(rep) == 1, id, f'the requester gets {len(rep)} replies when the connection is lost', w)
            for e in sends:
                ctx.expect(corr(rule, e[2][1]) == ('mem', ('sym', 'reply'), 'correlation'), id + ' correlation', 'the reply has another correlation', at(e))
                if e[1] in ('service_reply', 'conversation_connect_reply', 'conversation_send'):
                    c = code(rule, e[2][1])
                    ctx.expect(c is not None and not re.search(r'::(ok|absent)$', c), id + ' code', f'the requester is told {c}', at(e))
        elif mt == 'conversation_disconnect':
            ctx.expect(len(tcp) == 1 and tcp[0][2][0] == ('sym', 'socket') and tcp[0][2][1] == ('sym', 'reply'), id, 'the remote domain is not told about the disconnect', w)
            ctx.expect(done.endswith(DONE), id + ' done', 'the task lives on after the disconnect', w)
            ctx.expect(not sends, id + ' send', 'the one that disconnects gets something', w)
    if talk and mt == 'task_failed':
        ctx.expect(any(e[0] == 'send' and e[1] == rt for k, v, s in out for e in s.auto), id + ' connect', 'the one that connects is not answered', w)


def destination(ctx, t, rt):
    r = handler(ctx, 'out', 'internal', t)
    if not ctx.expect(r is not None, t + ': handler', f'the outbound handles no {t}', 'gateway/source/group/outbound/handle.cpp'):
        return
    h, rule, out = r
    w = h.F.where()
    for k, s in out:
        evs = s.auto
        add = [(i, e) for i, e in enumerate(evs) if e[0] == 'destination' and e[1] == 'add']
        tcp = [(i, e) for i, e in enumerate(evs) if e[0] == 'tcp']
        rep = [e for e in evs if e[0] == 'send' and e[1] == rt]
        if t == 'domain_discovery_request':
            off = [e for e in evs if e[0] == 'fact' and e[2] and ('runlevel' in repr(e[1]) or 'disconnecting' in repr(e[1]))]
            ctx.expect(bool(off) == bool(rep), t + ': default', 'a connection that is on its way down is asked' if off else 'a discovery is answered without a look', w)
            if rep:
                ctx.expect(len(rep) == 1 and not add and not tcp, t + ': answered', 'a request that is answered at once is also sent to the remote domain, or answered twice', at(rep[0]))
                ctx.expect(is_req(rep[0][2][0], 'process.ipc') and req_corr(rep[0][2][1]), t + ': answered whom', 'the reply does not go to the requester, with its correlation', at(rep[0]))
                continue
        if not ctx.expect(len(add) == 1 and len(tcp) == 1, t + ': sent', f'{len(tcp)} sent, {len(add)} destinations for the reply', w):
            continue
        (i, a), (j, e) = add[0], tcp[0]
        ctx.expect(i < j, t + ': order', 'the request is sent before the destination of its reply is known', at(e))
        ctx.expect(a[2][0] == ('sym', 'request') and is_sock(a[2][1]), t + ': destination', 'the destination is registered for something else', at(a))
        ctx.expect(is_sock(e[2][0]) and is_message(e[2][1], False) and e[1] == t, t + ': sent what', f'{path(e[2][1])[:60]} is sent on {path(e[2][0])[:80]}', at(e))
    # and the reply
    r = handler(ctx, 'out', 'external', rt)
    if not ctx.expect(r is not None, rt + ': handler', f'the outbound handles no {rt}', w):
        return
    h, rule, out = r
    w = h.F.where()
    for k, s in out:
        evs = s.auto
        ext = [e for e in evs if e[0] == 'destination' and e[1] == 'extract']
        rep = [e for e in evs if e[0] == 'send' and e[1] == rt]
        if not ctx.expect(len(ext) == 1 and is_req(ext[0][2][0], 'correlation'), rt + ': extract', 'the destination of the reply is not looked up with its correlation (and removed)', w):
            continue
        found = next((e[2] for e in evs if e[0] == 'fact' and any(x == ext[0][2][1] for x in subterms(e[1]))), True)
        ctx.expect(len(rep) == (1 if found else 0), rt + ': forwarded', f'the reply is forwarded {len(rep)} times', w)
        for e in rep:
            d = strip_hv(e[2][0])
            ctx.expect(d[0] == 'mem' and d[2] == 'ipc' and any(x == ext[0][2][1] for x in subterms(d)), rt + ': whom', f'{path(d)[-60:]} gets the reply', at(e))
            ctx.expect(root(e[2][1]) == ('sym', 'request') and not any(n in path(e[2][1]) for n in ('.', 'type(')), rt + ': what', 'something else than the reply is forwarded', at(e))


def external(ctx):
    for t in EXTERNAL:
        r = handler(ctx, 'out', 'external', t)
        if not ctx.expect(r is not None, t + ': external', f'the outbound handles no {t} from the remote domain', 'gateway/source/group/outbound/handle.cpp'):
            continue
        h, rule, out = r
        for k, s in out:
            ds = [e for e in s.auto if e[0] == 'task' and e[1] == 'dispatch']
            ctx.expect(len(ds) == 1, t + ': dispatch', f'{t} reaches its task {len(ds)} times', h.F.where())
            for e in ds:
                ctx.expect(is_message(e[2][0], bool(re.search(r'_v(1_)?\d$', t))), t + ': dispatch what', f'{path(e[2][0])[:60]} is given to the task', at(e))
            ctx.expect(not any(e[0] in ('send', 'tcp') for e in s.auto), t + ': direct', 'the message is also sent', h.F.where())


def talk(ctx):
    r = handler(ctx, 'out', 'internal', 'conversation_disconnect')
    if ctx.expect(r is not None, 'disconnect: handler', 'the outbound handles no conversation_disconnect', 'gateway/source/group/outbound/handle.cpp'):
        h, rule, out = r
        for k, s in out:
            ds = [e for e in s.auto if e[0] == 'task' and e[1] == 'dispatch']
            ctx.expect(len(ds) == 1 and ds[0][2][0] == ('sym', 'request'), 'disconnect: dispatch', 'the task does not get the disconnect', h.F.where())
    r = handler(ctx, 'out', 'internal', 'conversation_send')
    if ctx.expect(r is not None, 'send: handler', 'the outbound handles no conversation_send', 'gateway/source/group/outbound/handle.cpp'):
        h, rule, out = r
        for k, s in out:
            ds = [e for e in s.auto if e[0] == 'tcp']
            ctx.expect(len(ds) == 1 and is_sock(ds[0][2][0]) and is_message(ds[0][2][1], False), 'send: tcp', 'what is sent in a conversation does not reach the remote domain, once', h.F.where())


# ---------------------------------------------------------------- the coordinator of tasks
class Tasks(GW):
    facts_of = r'.'

    def special(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        m = re.search(r'concurrent::Unit<.*>::operator\(\)(<.*>)?$', name)
        if m or (name.startswith('std::invoke') and len(args) == 2):
            u, msg = (obj, args[0]) if m and obj is not None else (args[0], args[1])
            t = ('call', 'invoke', (I.rvalue(u, st), I.rvalue(msg, st)), I.site(fr, node))
            return [(t, self.event(I.fresh_call(t, st), ('invoke', '', (I.rvalue(u, st), I.rvalue(msg, st), t), s)))]
        m = re.search(r'container::(erase|erase_if)(<.*>)?$', name)
        if m and len(args) == 2:
            v = I.read(args[1], st)
            st = self.event(st, ('erase', m.group(1), (I.rvalue(args[0], st), v), s))
            if m.group(1) == 'erase_if' and v[0] == 'lam':
                out = []
                for r, s2 in I.call_lambda(v, node, [('elem', args[0], 0)], fr, self.event(st, ('each', path(args[0]), (), s))):
                    for b, s3 in I.truth(I.read(r, s2), s2):
                        out.append((('c', None), self.event(s3, ('erased', b, (), s))))
                return out + [(('c', None), st)]
            return [(('c', None), st)]
        return super().special(I, fr, node, name, obj, args, st) if 'Coordinator' not in name else None


def coordinator(ctx):
    Fs = [F for F in ctx.P.find() if re.search(r'task/concurrent\.h$', F.file) and F.body is not None]
    done = set()
    for F in Fs:
        m = re.search(r'Coordinator<.*>::(add|failed|contains|remove|operator\(\))(<.*>)?$', F.qn)
        if not m:
            continue
        n, w = m.group(1), F.where()
        r, out, I = run(ctx, F, Tasks, [('sym', 'given')], this=('sym', 'Coordinator'))
        done.add(n)
        for k, v, s in out:
            evs = s.auto
            inv = [e for e in evs if e[0] == 'invoke']
            er = [e for e in evs if e[0] == 'erase']
            facts_ = [e for e in evs if e[0] == 'fact']
            if n == 'operator()':
                found = next((e[2] for e in facts_ if 'm_units' in repr(e[1]) and 'correlation' in repr(e[1]) and 'invoke' not in repr(e[1])), None)
                if not ctx.expect(found is not None, 'coordinator: find', 'a message is given to a task without a look at its correlation', w):
                    continue
                ctx.expect(len(inv) == (1 if found else 0), 'coordinator: invoke', f'the task with the correlation is invoked {len(inv)} times', w)
                if found and inv:
                    ctx.expect(inv[0][2][1] == ('sym', 'given'), 'coordinator: message', 'the task gets another message', at(inv[0]))
                    fin = next((e[2] for e in facts_ if any(x == inv[0][2][2] for x in subterms(e[1])) and 'done' in repr(e[1])), None)
                    if fin is None:
                        p = next((e[2] for e in facts_ if any(x == inv[0][2][2] for x in subterms(e[1])) and 'pending' in repr(e[1])), None)
                        fin = None if p is None else not p
                    ctx.expect(fin is not None and len(er) == (1 if fin else 0), 'coordinator: done', 'a task that is done is not removed' if fin else 'a task that is not done is removed', w)
                    for e in er:
                        ctx.expect('m_units' in path(e[2][0]) and 'correlation' in repr(e[2][1]), 'coordinator: erase', 'another task is removed', at(e))
                else:
                    ctx.expect(not er, 'coordinator: none', 'a task is removed although no task has the correlation', w)
            elif n == 'failed':
                each = [e for e in evs if e[0] in ('each', 'erased')]
                erased = next((e[1] for e in evs if e[0] == 'erased'), None)
                if erased is None:
                    ctx.expect(not inv, 'coordinator: failed', 'a task is failed but not removed', w)
                    continue
                same = next((e[2] for e in facts_ if 'given' in repr(e[1])), None)
                ctx.expect(same is not None and erased == same and len(inv) == (1 if same else 0), 'coordinator: failed', 'a task of another connection is failed (or removed)' if not same else 'a task of a lost connection is not failed, once, and removed', w)
                for e in inv:
                    c = member(r, e[2][1], 'correlation')
                    ctx.expect(c is not None and 'm_correlation' in path(c), 'coordinator: failed correlation', 'the failed task gets another correlation', at(e))
            elif n == 'remove':
                ctx.expect(len(er) == 1 and er[0][2][1] == ('sym', 'given'), 'coordinator: remove', 'the task with the correlation is not removed', w)
            elif n == 'contains':
                ctx.expect(v is not None and 'given' in repr(v) and 'm_units' in repr(v), 'coordinator: contains', 'it is not the tasks that are looked at', w)
                ctx.expect(v is not None and v[0] != 'un', 'coordinator: contains', 'the answer is the opposite', w)
    ctx.expect({'add', 'failed', 'contains', 'operator()'} <= done, 'coordinator', f'parts of the coordinator are gone: only {sorted(done)}', 'common/include/casual/task/concurrent.h')


# ---------------------------------------------------------------- where replies are to be sent
class Dest(GW):
    facts_of = r'.'

    def inside(self, fr, what):
        return True

    def more(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        if obj is not None and re.search(r'::(push_back|emplace_back)$', name):
            return [(('c', None), self.event(st, ('push', path(strip_hv(obj)), (I.rvalue(args[0], st),), s)))]
        if re.search(r'container::extract(<.*>)?$', name):
            t = ('call', 'extracted', tuple(I.rvalue(a, st) for a in args), None)
            return [(t, self.event(st, ('extracted', path(strip_hv(args[0])), t[2], s)))]
        return None


def destinations(ctx):
    n = 0
    for F in ctx.P.find(file=r'^gateway/'):
        m = re.search(r'outbound::state::reply::Destination::(add|extract)(<.*>)?$', F.qn)
        if not m or F.body is None:
            continue
        n += 1
        w = F.where()
        add = m.group(1) == 'add'
        r, out, I = run(ctx, F, Dest, [('sym', 'given'), ('sym', 'connection')][:len(F.params)], this=('sym', 'Destination'))
        for k, v, s in out:
            evs = s.auto
            known = next((e[2] for e in evs if e[0] == 'fact' and 'm_entries' in repr(e[1])), None)
            if add:
                push = [e for e in evs if e[0] == 'push']
                ctx.expect(known is not None and len(push) == (0 if known else 1), 'destination: add', 'a destination is lost' if not known else 'the destination of a request that is already there is added again', w)
                for e in push:
                    x = e[2][0]
                    want = {'correlation': ('mem', ('sym', 'given'), 'correlation'), 'ipc': ('mem', ('mem', ('sym', 'given'), 'process'), 'ipc'), 'connection': ('sym', 'connection')}
                    got = fields(ctx, x)
                    for f, val in want.items():
                        ctx.expect(got.get(f) == val, 'destination: ' + f, f'the destination has {path(got[f])[:40] if f in got else "no"} as {f}', at(e))
            else:
                ext = [e for e in evs if e[0] == 'extracted']
                ctx.expect(known is not None and len(ext) == (1 if known else 0), 'destination: extract', 'a destination that is there is not extracted' if known else 'something is extracted that is not there', w)
                for e in ext:
                    ctx.expect('given' in repr(e[2][1]) and 'm_entries' in e[1], 'destination: extract which', 'another destination is extracted', at(e))
                if ext:
                    ctx.expect(v is not None and v[0] == 'call' and v[1] == 'extracted', 'destination: extracted', 'the destination is thrown away', w)
    ctx.expect(n >= 5, 'destination', 'the destinations are gone', 'gateway/include/gateway/group/outbound/state.h')
