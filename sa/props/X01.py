"""a server answers every call once, says what became of it, and is given back to the service manager"""
from .xatmi_common import *


def check(ctx):
    P = ctx.load('common/source/server/handle/*.cpp', 'common/source/server/start.cpp', 'common/source/server/service.cpp')
    ctx.rule('on every path through the call of a service, those that end with an exception from the service, the transaction policy or the descriptors included: '
             'exactly one reply (none when no reply is wanted, or when the call was forwarded), after the transaction is finalized, to the caller, with its correlation; '
             'success is said only when the service returned success and its transaction was finalized as ok; the transaction is committed only after the service returned success; '
             'exactly one ack, last, with the correlation of the call and the code that is replied; no exception reaches the message pump of the server')
    ctx.assume('sending (reply, ack), finalizing, forwarding, the service itself and whatever prepares it may throw; a scope guard swallows what its action throws (exception::guard)')
    fs = calls(P)
    ctx.need(len(fs) >= 2, 'the function that calls a service is not found')
    kinds = set()
    for F in fs:
        t = F.S[F.params[2]['t']]
        kind = 'conversation' if 'conversation' in t else 'call'
        pol = 'Admin' if 'Admin' in F.S[F.params[0]['t']] else 'Default'
        kinds.add((kind, pol))
        invocation(ctx, F, f'{kind} ({pol})' if pol != 'Default' else kind, kind)
    ctx.expect({('call', 'Default'), ('conversation', 'Default')} <= kinds, 'servers', 'a server does not handle calls, or conversations', (fs[0].file, fs[0].line))
    handlers(ctx)
    converted(ctx)


def invocation(ctx, F, name, kind):
    r = Srv(ctx.P)
    I = Interp(ctx.P, r, More)
    out = I.run(F, (), args=[('sym', 'policy'), ('sym', 'context'), ('sym', 'message'), ('sym', 'wanted')])
    ctx.used(I)
    ctx.count('paths', len(out))
    where = (F.file, F.line)
    ctx.expect(any(k in ('next', 'ret') for k, v, s in out), f'{name}: ends', f'{name}: no path calls the service', where)
    for k, v, st in out:
        one(ctx, r, name, kind, k, st, where)


def one(ctx, r, name, kind, k, st, where):
    evs = st.auto
    tag = lambda t: [e for e in evs if e[0] == t]
    w = lambda e: e[3] if e is not None else where
    called = bool(tag('service'))
    returned = bool(tag('returned'))
    wanted = next((b for f, b in st.facts.items() if f == ('t', ('sym', 'wanted'))), None)
    # what was tried: an action that throws in its own guard is tried once more
    fwd = tag('forward')
    forwarded = fwd and not any(e[0] == 'failed' and e[1] == 'forward' for e in evs)
    replies = once(evs, 'reply')
    acks = once(evs, 'ack')
    if forwarded:
        ctx.expect(not replies, f'{name}: forwarded', f'{name}: a call that was forwarded is answered here too', w(replies[0] if replies else None))
        ctx.expect(tag('forwards'), f'{name}: forwarded', f'{name}: a call is forwarded though the service did not ask for that', w(fwd[0]))
    elif wanted is False:
        ctx.expect(not replies, f'{name}: no reply', f'{name}: a reply is sent though none is wanted', w(replies[0] if replies else None))
    elif wanted is True:
        ctx.expect(len(replies) == 1, f'{name}: reply', f'{name}: {len(replies)} replies on a path that ' + ('returns' if k != 'throw' else 'ends with an exception'), w(replies[-1] if replies else None))
    else:
        ctx.expect(len(replies) == 1 and False, f'{name}: reply', f'{name}: it does not depend on what the caller wants whether there is a reply', w(replies[-1] if replies else None))
    fin = [e for e in evs if e[0] == 'finalize']
    ctx.expect(bool(fin), f'{name}: finalized', f'{name}: the transactions are not finalized on a path', where)
    done = [e for e in fin if not failed(evs, e)]
    first = done[0] if done else None
    for e in fin:
        c = e[2][0]
        commit = c != ('c', False)
        if not commit:
            continue
        good = forwarded or returned and certain(st, c)
        ctx.expect(good, f'{name}: commit', f'{name}: the transaction is committed though the service did not succeed', w(e))
    if returned or forwarded:
        ctx.expect(len(once(evs, 'finalize')) >= 1, f'{name}: finalized', f'{name}: the transactions are not finalized when the service returns', where)
    for e in replies:
        dest, v = e[2][0], e[2][1]
        m = lambda x: member(r, v, x)
        ctx.expect(is_(dest, 'message.process.ipc') or is_(dest, 'message.process'), f'{name}: destination', f'{name}: the reply is sent to {path(dest)}', w(e))
        ctx.expect(is_(m('correlation'), 'message.correlation'), f'{name}: correlation', f'{name}: the reply does not carry the correlation of the call', w(e))
        before = evs[:evs.index(e)]
        ctx.expect(any(x[0] == 'finalize' for x in before), f'{name}: order', f'{name}: the reply is sent before the transaction is finalized', w(e))
        c = code(r, v)
        ctx.expect(c is not None and c != 'absent', f'{name}: code', f'{name}: the reply carries no result code', w(e))
        tx = m('transaction_state')
        if c == 'ok':
            ok = returned and done and fin[-1] in done and ctx_ok(st, done[0]) and not any(x[0] == 'failed' and x[1] == 'finalize' for x in before)
            ctx.expect(ok, f'{name}: success', f'{name}: success is replied though ' + ('the service did not return' if not returned else 'the transaction was not finalized as ok'), w(e))
        if returned and done:
            f = last(('e', '')) if tx is None else unwrap(tx)
            ctx.expect(tx is not None and isinstance(f, tuple) and f[0] == 'call' and f[1] == 'policy.finalize' and f == unwrap(done[0][2][-1]), f'{name}: transaction state', f'{name}: the reply does not tell how the transaction was finalized', w(e))
    ctx.expect(len(acks) == 1, f'{name}: ack', f'{name}: {len(acks)} acks to the service manager on a path', w(acks[-1] if acks else None))
    for e in acks:
        v = e[2][0]
        m = lambda x: member(r, v, x)
        ctx.expect(is_(m('correlation'), 'message.correlation'), f'{name}: ack correlation', f'{name}: the ack does not carry the correlation of the call', w(e))
        a, b = code(r, m('metric') or v), [code(r, x[2][1]) for x in replies]
        ctx.expect(not b or a in b, f'{name}: ack code', f'{name}: the service manager is told {a}, the caller {b}', w(e))
        later = [x for x in evs[evs.index(e) + 1:] if x[0] in ('reply', 'finalize', 'service', 'forward', 'enter')]
        ctx.expect(not later, f'{name}: ack last', f'{name}: the service manager is told that the server is done before {later[0][0] if later else ""}', w(e))
        if not any(x[0] == 'failed' and x[1] == 'ack' for x in evs):
            ctx.expect(any(x[0] == 'do' and x[1] == 'finalize' for x in evs), f'{name}: cleanup', f'{name}: the context of the server is not cleaned up', w(e))
    if kind == 'conversation' and any(e[0] == 'service' for e in evs):
        u = tag('do')
        no = any(f[0] == 't' and 'descriptor' in path(f[1]) and not b for f, b in st.facts.items())
        ctx.expect(no or any(x[1] == 'unreserve' for x in u), f'{name}: descriptor', f'{name}: the descriptor of the conversation stays reserved', where)
    # the caller's transaction is taken on before the service, and once
    ent = once(evs, 'enter')
    if called:
        ctx.expect(len(ent) == 1 and evs.index(ent[0]) < evs.index(tag('service')[0]), f'{name}: enter', f'{name}: the service is called without its transaction', w(tag('service')[0]))
    for e in ent:
        ctx.expect(is_(e[2][0], 'message.trid'), f'{name}: enter', f'{name}: the transaction that is taken on is {path(e[2][0])}, not that of the call', w(e))


def once(evs, what):
    """the attempts, without the second one of a guard whose action threw"""
    out, skip = [], False
    for i, e in enumerate(evs):
        if e[0] == what:
            if not skip:
                out.append(e)
            skip = i + 1 < len(evs) and evs[i + 1][0] == 'failed' and evs[i + 1][1] == what
    return out


def failed(evs, e):
    i = evs.index(e)
    return i + 1 < len(evs) and evs[i + 1][0] == 'failed' and evs[i + 1][1] == e[0]


def certain(st, c):
    """commit holds only when the service said success"""
    if c == ('c', True):
        return any(says(f, b) for f, b in st.facts.items())
    return c[0] != 'c' and 'service' in path(c)


def says(f, b):
    """the service returned success"""
    if f[0] != 'eq':
        return False
    a, e = f[1], f[2]
    if e[0] != 'e':
        a, e = e, a
    return 'transaction' in path(a) and e[0] == 'e' and (e[1].endswith('::commit') and b or e[1].endswith('::rollback') and not b)


def ctx_ok(st, fin):
    res = unwrap(fin[2][-1])
    return any(f[0] == 'eq' and b and res in (unwrap(f[1]), unwrap(f[2])) and 'ok' in (last(f[1]), last(f[2])) for f, b in st.facts.items())


# ---------------------------------------------------------------- who calls it
def handlers(ctx):
    """the message handlers: nothing thrown escapes, and a reply is wanted unless the flag says otherwise"""
    P = ctx.P
    ids = {F.id for F in calls(P)}
    n = 0
    for F in P.funcs.values():
        if F.body is None or F.id in ids:
            continue
        for c in walk(F.body):
            if c['k'] == 'call' and c.get('f') in ids:
                n += 1
                where = (F.file, c.get('l'))
                name = F.qn.rsplit('::', 2)[-2].split('<')[0]
                inside = any(t['k'] == 'try' and any(x is c for x in walk(t['body'])) and any(not h.get('var') and 'ct' not in h for h in t['h']) for t in walk(F.body))
                ctx.expect(inside, f'{name}: contained', f'{name}: an exception of a service reaches the message pump of the server', where)
                wanted(ctx, F, c, name, where)
    ctx.need(n >= 2, 'nobody calls a service')


class Want(dbase.Uses):
    try_may_throw = False

    def __init__(self, P, ids):
        super().__init__(P, {})
        self.ids = ids

    def inline(self, F, node):
        return F.id not in self.ids

    def on_call(self, I, fr, node, name, obj, args, st):
        if name and node.get('f') in self.ids:
            return [(('c', None), self.event(st, ('call', '', tuple(I.rvalue(a, st) for a in args), (fr.F.file, node.get('l')))))]
        self.here = fr.id
        if name and dbase.QUIET.search(name):
            return [(('c', None), st)]
        if name and name.endswith('flag::contains') and len(args) == 2:
            return [(('call', 'contains', tuple(I.rvalue(a, st) for a in args), None), st)]
        return None


def wanted(ctx, F, c, name, where):
    ids = {G.id for G in calls(ctx.P)}
    r = Want(ctx.P, ids)
    I = Interp(ctx.P, r, More)
    out = I.run(F, (), args=[('sym', 'request')])
    ctx.used(I)
    conv = 'conversation' in F.S[F.params[0]['t']]
    for k, v, st in out:
        es = [e for e in st.auto if e[0] == 'call']
        ctx.expect(len(es) == 1, f'{name}: once', f'{name}: the service is called {len(es)} times for one message', where)
        for e in es:
            x = e[2][3]
            if conv:
                ctx.expect(x == ('c', True), f'{name}: wanted', f'{name}: a conversation is not always answered', e[3])
                continue
            neg = False
            f = None
            while x[0] == 'un' and x[1] == '!':
                neg, x = not neg, x[2]
            if x[0] == 'c':
                b = next((b for f, b in st.facts.items() if f[0] == 't' and 'no_reply' in repr(f)), None)
                ctx.expect(b is not None and x[1] != b, f'{name}: wanted', f'{name}: whether there is a reply does not depend on the no-reply flag', e[3])
                continue
            ok = x[0] in ('call',) and x[1] == 'contains' and 'request.flags' in path(x[2][0]) and last(x[2][1]) == 'no_reply' or x[0] != 'call' and 'no_reply' in repr(x) and 'flags' in path(x)
            ctx.expect(ok and neg or ok and x[0] == 'bin', f'{name}: wanted', f'{name}: a reply is sent exactly when it is not wanted, or always, or never', e[3])


# ---------------------------------------------------------------- what the service returned
class Plain(dbase.Uses):
    try_may_throw = False

    def __init__(self, P):
        super().__init__(P, {})

    def on_call(self, I, fr, node, name, obj, args, st):
        self.here = fr.id
        if name and dbase.QUIET.search(name):
            return [(('c', None), st)]
        return None


def converted(ctx):
    """complement::reply: failure is failure, and rolls back"""
    P = ctx.P
    fs = P.named(r'server::handle::service::complement::reply$')
    ctx.need(len(fs) >= 2, 'complement::reply is not found')
    for F in fs:
        kind = 'conversation' if 'conversation' in F.S[F.params[1]['t']] else 'call'
        r = Plain(P)
        I = Interp(P, r, More)
        out = I.run(F, (), args=[('sym', 'result'), ('sym', 'reply')])
        ctx.used(I)
        where = (F.file, F.line)
        for k, v, st in out:
            if k == 'throw':
                continue
            rep = I.rvalue(('sym', 'reply'), st)
            good = any(says(f, b) for f, b in st.facts.items())
            c, tx = code(r, rep), member(r, rep, 'transaction_state')
            t = last(tx) if tx is not None else None
            if good:
                ctx.expect(c == 'ok', f'result ({kind}): success', f'a service that returned success ({kind}) is answered with {c}', where)
                ctx.expect(t in (None, 'ok'), f'result ({kind}): commit', f'a service that returned success ({kind}) is rolled back', where)
            else:
                ctx.expect(c == 'service_fail', f'result ({kind}): failure', f'a service that returned failure ({kind}) is answered with {c}', where)
                ctx.expect(t is not None and t != 'ok', f'result ({kind}): rollback', f'a service that returned failure ({kind}) has its transaction committed', where)
            b = member(r, rep, 'buffer')
            ctx.expect(b is not None and 'result.payload' in path(b), f'result ({kind}): payload', f'the reply of a {kind} does not carry what the service returned', where)
            u = user(r, rep)
            ctx.expect(u is not None and 'result.code' in path(strip_hv(u)), f'result ({kind}): user code', f'the reply of a {kind} does not carry the user code of the service', where)


def user(r, rep):
    u = member(r, rep, 'code.user')
    if u is not None and 'result' in path(strip_hv(u)):
        return u
    c = member(r, rep, 'code')
    if c is None:
        return u
    x = unwrap(c)
    if x[0] == 'new' and len(x[2]) > 1:
        return x[2][1]
    return member(r, c, 'user')
