"""which queue a lookup is answered with"""
from .svc_common import *
from .S06 import fact, value as svalue

NAMES = r'queue::manager::State::(queue|local_queue)$'
WRONG = re.compile(r'reverse|rbegin|find_last|max_element|back\(')


class QM(SM):
    again = False
    facts_of = r'.'
    watch = r'(queues|remotes|lookups|second|queues\[.*|queues, .*)$'

    def more(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        if re.search(r'(^|::)(stable_sort|sort)$', name) and args:
            by = tuple(I.rvalue(a, st) for a in args)
            return [(('c', None), I.havoc(strip_hv(args[0]), I.site(fr, node), self.event(st, ('sort', path(strip_hv(args[0])), by, s))))]
        if name.endswith('erase_if') and obj is None and len(args) == 2 and I.read(args[1], st)[0] == 'lam':
            rng, lam = args[0], I.read(args[1], st)
            t = ('call', name, (I.rvalue(rng, st), lam), None)
            el = ('elem', I.read(rng, st))
            ev = lambda x: I.havoc(rng, I.site(fr, node), self.event(x, ('shrink', path(rng), (lam,), s)))
            return [(t, ev(st))] + [(t, ev(s2)) for v, s2 in I.invoke(lam, [el], fr, self.on_element(I, fr, node, el, st), node)]
        return None

    def on_assign(self, I, fr, node, lhs, val, st):
        return self.event(st, ('write', path(strip_hv(lhs)), (val, lhs), (fr.F.file, node.get('l'))))


class HM(QM):
    def inline(self, F, node):
        return not re.search(r'manager::State::update|task::Coordinator', F.qn or '')

    def more(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        m = re.search(r'queue::manager::State::(queue|local_queue|update)$', name)
        if m:
            vals = tuple(I.rvalue(a, st) for a in args)
            t = ('call', m.group(1), vals, None)
            return [(t, self.event(st, ('find' if m.group(1) != 'update' else 'update', m.group(1), vals + (t,), s)))]
        return QM.more(self, I, fr, node, name, obj, args, st)


def check(ctx):
    P = ctx.load('queue/source/*')
    ctx.hs = {}
    for h in model.handlers(P, r'^queue/source/manager/'):
        ctx.hs.setdefault(h.type, h)
    ctx.rule('a queue is chosen by a search, from the front, of the instances with the name for one that is enabled for what is asked for, and local if it has to be; instances are kept sorted by order; '
             'those of other domains have an order of at least one, local ones zero; what is advertised and configured is what is stored; a group or an outbound that is gone, or starts over, leaves no instance behind; '
             'lookups from other domains that are not to be forwarded get local queues only, the reply is the queue that was found; lookups that wait are looked at again after every change')
    ctx.assume('common::algorithm (sort, find, find_if, erase, erase_if) does what it is named for')
    choice(ctx, P)
    compare(ctx, P)
    advertise(ctx, P)
    configured(ctx, P)
    gone(ctx, P)
    lookup(ctx)
    again(ctx)
    discovery(ctx)


def functions(ctx, P, rx, what):
    Fs = [F for F in P.find(file=r'^queue/') if re.search(rx, F.qn) and F.body is not None]
    ctx.need(Fs, f'{what} not found')
    return Fs


# ---------------------------------------------------------------- which one
def val(t, env):
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'e':
        return int(t[2])
    if k == 'sym' and t[1] in env:
        return env[t[1]]
    if k == 'mem':
        p = path(t)
        for n in ('enable.enqueue', 'enable.dequeue', 'order'):
            if p.endswith('.' + n):
                return env[n]
    if k in ('bool', 'deref', 'val'):
        return val(t[1], env)
    if k == 'un' and t[1] == '!':
        return not val(t[2], env)
    if k == 'not':
        return not val(t[1], env)
    if k == 'eq':
        return val(t[1], env) == val(t[2], env)
    if k == 't':
        return bool(val(t[1], env))
    if k == 'bin':
        a = val(t[2], env)
        b = val(t[3], env)
        return {'+': lambda: a + b, '-': lambda: a - b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b,
                '&&': lambda: a and b, '||': lambda: a or b}[t[1]]()
    if k == 'call' and t[1].endswith('to_underlying') and t[2]:
        return val(t[2][0], env)
    raise LookupError(path(t)[:60])


SPACE = [{'action': a, 'enable.enqueue': e, 'enable.dequeue': d, 'order': o} for a in (0, 1, 2) for e in (True, False) for d in (True, False) for o in (0, 1, 2)]


def wanted(env, local):
    ok = env['enable.enqueue'] if env['action'] == 1 else env['enable.dequeue'] if env['action'] == 2 else True
    return ok and (not local or env['order'] == 0)


def words(env):
    return f'{"an enqueue" if env["action"] == 1 else "a dequeue" if env["action"] == 2 else "anything"} {{enqueue={env["enable.enqueue"]}, dequeue={env["enable.dequeue"]}, order={env["order"]}}}'


def choice(ctx, P):
    for F in functions(ctx, P, NAMES, 'State::queue'):
        local = F.qn.endswith('local_queue')
        what = 'local queue' if local else 'queue'
        r, out, I = run(ctx, F, QM, [('sym', 'name'), ('sym', 'action')], this=('sym', 'self'), rel=False, limits=Once)
        some, done = False, set()
        for k, v, s in out:
            while v[0] in ('addr', 'deref') and v[1][0] in ('deref', 'addr', 'call', 'elem', 'val', 'bool'):
                v = v[1]
            t = path(v)
            if v == ('c', None) or t in ('None', 'nullptr'):
                continue
            some = True
            ctx.expect('self.queues' in t and 'name' in t, f'{what}: name', f'{t[-80:]} is chosen, and not a queue with the name', F.where())
            ctx.expect(not WRONG.search(t), f'{what}: first', 'another queue than the most preferred one is chosen', F.where())
            lam = next((x for x in terms(v) if x[0] == 'lam'), None)
            elem = ('sym', 'candidate')
            if lam is not None:
                if lam in done:
                    continue
                done.add(lam)
                L, r2, outs = called(ctx, lam, [elem], QM, rel=False)
                rows = [(s2.facts, v2) for k2, v2, s2 in outs if k2 == 'ret']
                for env in SPACE:
                    got = decide(ctx, rows, env)
                    if got is None:
                        continue
                    ctx.expect(got == {wanted(env, local)}, f'{what}: enabled', f'for {words(env)} is {"taken for" if True in got else "not taken for"} a {what}', L.where())
            else:
                el = next((x for x in terms(v) if x[0] == 'elem'), None)
                if el is None:
                    ctx.count('choices not decided')
                    continue
                for env in SPACE:
                    if all(agrees(f, b, env) for f, b in s.facts.items()):
                        ctx.expect(wanted(env, local), f'{what}: enabled', f'for {words(env)} is taken for a {what}', F.where())
        ctx.expect(some, what, f'no {what} is ever found', F.where())


def agrees(f, b, env):
    try:
        return val(f, env) == b
    except (LookupError, TypeError, KeyError):
        return True


def terms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo += [y for y in x if isinstance(y, tuple)]


def decide(ctx, rows, env):
    got = set()
    try:
        for facts_, v in rows:
            if all(val(f, env) == b for f, b in facts_.items() if f[0] in ('t', 'eq', 'bin')):
                got.add(bool(val(v, env)))
    except (LookupError, TypeError, KeyError):
        ctx.count('choices not decided')
        return None
    return got


def compare(ctx, P):
    Fs = [F for F in P.find(file=r'^queue/') if re.search(r'manager::state::operator\s?<$', F.qn) and F.body is not None]
    for F in Fs:
        r, out, I = run(ctx, F, QM, [('sym', 'lhs'), ('sym', 'rhs')], rel=False)
        for a, b in ((0, 1), (1, 0), (1, 1)):
            try:
                got = {bool(svalue(v, {'lhs.order': a, 'rhs.order': b}, s)) if v[0] != 'bin' else bool(ordered(v, a, b)) for k, v, s in out}
            except (LookupError, TypeError, KeyError):
                ctx.count('comparisons not decided')
                continue
            ctx.expect(got == {a < b}, 'compare', f'a queue with {"lower" if a < b else "higher" if b < a else "equal"} order is {"not " if a < b else ""}preferred', F.where())


def ordered(t, a, b):
    p, q = path(t[2]), path(t[3])
    x = {'lhs.order': a, 'rhs.order': b}
    return {'<': x[p] < x[q], '>': x[p] > x[q], '<=': x[p] <= x[q], '>=': x[p] >= x[q]}[t[1]]


# ---------------------------------------------------------------- what is known
def stored(ctx, r, evs, i, field):
    """the value of a member of the instance that is added by event i"""
    e = evs[i]
    for w in evs[i + 1:]:
        if w[0] == 'grow' and 'queues' in w[1]:
            break
        if w[0] == 'write' and w[1].endswith('.' + field) and ('back(' in w[1] or 'front(' in w[1] or 'emplace' in w[1] or 'insert' in w[1]):
            return w[2][0]
    if e[2]:
        m = e[2][-1]
        for f in field.split('.'):
            m = member(r, m, f) if m is not None else None
        return m
    return None


def sorted_after(ctx, evs, i, what):
    e = evs[i]
    placed = any(re.search('upper_bound|lower_bound', path(x)) for x in e[2]) if e[0] == 'grow' else False
    ctx.expect(placed or any(x[0] == 'sort' for x in evs[i:]), f'{what}: sorted', 'the instances of a queue are not sorted after a change', at(e))


def known(p):
    return 'self.queues' in p


def none_left(evs):
    """a loop over the queues that ends right away"""
    return any(e[0] == 'fact' and re.search(r'(begin|end|size|empty)\([^()]*\.queues\b', repr_path(e[1])) for e in evs)


def directive(evs, n):
    return next((e[2] for e in evs if e[0] == 'fact' and e[1][0] == 'eq' and 'directive' in path(e[1][1]) + path(e[1][2]) and (path(e[1][2]).endswith('::' + n) or path(e[1][1]).endswith('::' + n))), None)


def updates(P, has):
    return [F for F in P.find(file=r'^queue/source/manager/') if F.qn.endswith('queue::manager::State::update') and F.body is not None and any(n['k'] == 'mem' and n.get('n') == has for n in walk(F.body))]


def advertise(ctx, P):
    Fs = updates(P, 'directive')
    ctx.need(Fs, 'State::update of an advertisement not found')
    seen = set()
    for F in Fs:
        r, out, I = run(ctx, F, QM, [('sym', 'message')], this=('sym', 'self'), rel=False, limits=Once)
        for k, v, s in out:
            evs = s.auto
            reset, inst = directive(evs, 'reset'), directive(evs, 'instance')
            if reset:
                seen.add('reset')
                ctx.expect(any(e[0] in ('shrink', 'each') and 'queues' in e[1] for e in evs) or none_left(evs), 'advertise: reset', 'a remote that starts over leaves queues behind', F.where())
                ctx.expect(not any(e[0] == 'grow' for e in evs), 'advertise: reset', 'queues are added by a reset', F.where())
            for i, e in enumerate(evs):
                if e[0] == 'grow' and known(e[1]):
                    seen.add('add')
                    ctx.expect('queues.add[]' in e[1] and '.name' in e[1] or any('queues.add[]' in path(x) for x in e[2]), 'advertise: name', f'a queue is added under {e[1][-60:]}', at(e))
                    proc, order, queue = (stored(ctx, r, evs, i, f) for f in ('process', 'order', 'queue'))
                    if proc is not None:
                        ctx.expect(path(strip(proc)) == 'message.process', 'advertise: process', f'{path(proc)[:60]} is known as the process of the queue', at(e))
                    else:
                        ctx.expect(e[2], 'advertise: process', 'no process is known of the queue', at(e))
                    if order is not None:
                        remote(ctx, order, e)
                    else:
                        ctx.expect(e[2], 'advertise: remote', 'a queue of another domain gets the order of a local one', at(e))
                    if queue is not None:
                        ctx.expect('remote' in path(queue), 'advertise: id', f'a queue of another domain gets the id {path(queue)[:60]}', at(e))
                    whole = stored(ctx, r, evs, i, 'enable')
                    for f in ('enqueue', 'dequeue'):
                        en = stored(ctx, r, evs, i, 'enable.' + f)
                        if en is not None and whole is None:
                            ctx.expect(path(strip(en)).endswith(f'queues.add[].enable.{f}'), 'advertise: enable', f'{path(en)[-60:]} decides if {f} is enabled', at(e))
                        elif whole is None:
                            ctx.expect(e[2], 'advertise: enable', f'it is not stored if {f} is enabled', at(e))
                    sorted_after(ctx, evs, i, 'advertise')
                if e[0] == 'write' and known(e[1]) and 'emplace' not in e[1] and 'back(' not in e[1] and e[1].endswith('.order'):
                    seen.add('order')
                    remote(ctx, e[2][0], e)
                    ctx.expect('message.process' in e[1] or any(x[0] == 'fact' and x[2] and 'message.process' in repr_path(x[1]) for x in evs[:i]), 'advertise: which', 'the order of the queues of another process is changed', at(e))
                    sorted_after(ctx, evs, i, 'instance')
                if e[0] == 'each' and e[1].endswith('queues.remove[]'):
                    f = fact(evs[i:], lambda p: 'find' in p and 'queues.remove[]' in p)
                    if f is not False:
                        seen.add('remove')
                        ctx.expect(any(x[0] == 'shrink' and known(x[1]) and any('message.process' in path(y) for y in x[2]) or x[0] == 'shrink' and 'message.process' in x[1] for x in evs[i:]), 'advertise: removed', 'a queue that is not advertised any more is kept', at(e))
                if e[0] == 'shrink' and re.search(r'self\.queues$', e[1]) and not reset and e[2] and 'remove' in path(e[2][0]):
                    some = fact(evs[:i], lambda p: p.startswith('empty(') and 'queues' in p)
                    some = some if some is not None else next((True for x in evs[:i] if x[0] == 'fact' and re.search(r'size\(.*queues', repr_path(x[1]))), None)
                    ctx.expect(some, 'advertise: others', 'a queue is forgotten though others have it', at(e))
    for x, what in (('reset', 'a remote never starts over'), ('add', 'queues of other domains are never added'), ('order', 'queues do not learn the new order of a remote'), ('remove', 'queues of other domains are never removed')):
        ctx.expect(x in seen, 'advertise: ' + x, what, Fs[0].where())


def repr_path(key):
    return ' '.join(path(x) for x in key[1:] if isinstance(x, tuple))


def remote(ctx, order, e):
    try:
        a, b = val(order, {'order': 0}), val(order, {'order': 5})
    except (LookupError, TypeError, KeyError):
        ctx.count('orders not decided')
        return
    ctx.expect(a >= 1, 'advertise: remote', 'a queue of another domain gets the order of a local one', at(e))
    ctx.expect(b > a, 'advertise: order', 'the order of the remote does not decide which one is preferred', at(e))


def configured(ctx, P):
    Fs = [F for F in updates(P, 'groups') if F not in updates(P, 'directive')]
    ctx.need(Fs, 'State::update of the answer of a group not found')
    seen = set()
    for F in Fs:
        r, out, I = run(ctx, F, QM, [('sym', 'message')], this=('sym', 'self'), rel=False, limits=Once)
        for k, v, s in out:
            evs = s.auto
            for i, e in enumerate(evs):
                if e[0] != 'grow' or not known(e[1]):
                    continue
                seen.add('add')
                ctx.expect(any(x[0] == 'shrink' and known(x[1]) for x in evs[:i]) or none_left(evs[:i]), 'configured: anew', 'the queues that the group had are not removed before those it has now are added', at(e))
                ctx.expect('queues[].name' in e[1] or any('queues[].name' in path(x) for x in e[2]), 'configured: name', f'a queue is added under {e[1][-60:]}', at(e))
                proc, order, queue = (stored(ctx, r, evs, i, f) for f in ('process', 'order', 'queue'))
                if proc is not None:
                    ctx.expect(re.search(r'(groups, message\.process\.pid\)+\.process|message\.process)$', path(strip(proc))), 'configured: process', f'{path(proc)[:60]} is known as the process of the queue', at(e))
                else:
                    ctx.expect(e[2], 'configured: process', 'no process is known of the queue', at(e))
                if order is not None and order[0] == 'c':
                    ctx.expect(order[1] == 0, 'configured: local', 'a local queue gets the order of one of another domain', at(e))
                if queue is not None:
                    ctx.expect(path(strip(queue)) == 'message.queues[].id', 'configured: id', f'a queue gets the id {path(queue)[:60]}', at(e))
                else:
                    ctx.expect(e[2], 'configured: id', 'a queue gets no id', at(e))
                there = fact(evs[i:], lambda p: 'find' in p and 'configuration.queues' in p)
                if there:
                    seen.add('enable')
                    en = stored(ctx, r, evs, i, 'enable')
                    if en is None:
                        parts = [stored(ctx, r, evs, i, 'enable.' + f) for f in ('enqueue', 'dequeue')]
                        ctx.expect(all(p is not None and path(p).endswith('.enable.' + f) for p, f in zip(parts, ('enqueue', 'dequeue'))), 'configured: enable', 'what is enabled for a queue is not what is configured', at(e))
                    else:
                        ctx.expect('configuration.queues' in path(en) and 'queues[].name' in path(en), 'configured: enable', 'what is enabled for a queue is not what is configured', at(e))
                sorted_after(ctx, evs, i, 'configured')
    ctx.expect('add' in seen, 'configured: add', 'the queues of groups are never added', Fs[0].where())


def gone(ctx, P):
    """a process that is gone has no queues, and waits for none"""
    for F in functions(ctx, P, r'queue::manager::State::(remove|remove_queues)$', 'State::remove'):
        r, out, I = run(ctx, F, QM, [('sym', 'id')], this=('sym', 'self'), rel=False, limits=Once)
        for k, v, s in out:
            evs = s.auto
            sh = [e for e in evs if e[0] == 'shrink' and 'self.queues' in e[1]]
            if not any(e[0] == 'each' for e in evs):
                ctx.expect(sh or none_left(evs), 'gone: queues', 'the queues of a process that is gone are kept', F.where())
            for e in sh:
                lam = next((x for y in e[2] for x in terms(y) if x[0] == 'lam'), None)
                if lam is None:
                    continue
                L, r2, outs = called(ctx, lam, [('sym', 'pair')], QM, rel=False)
                for k2, v2, s2 in outs:
                    if k2 != 'ret':
                        continue
                    ctx.expect(any(x[0] == 'shrink' and 'pair' in x[1] and any('id' in path(y) for y in x[2]) for x in s2.auto), 'gone: queues', 'the queues of a process that is gone are kept', L.where())
                    t = path(v2)
                    none = fact(s2.auto, lambda p: p.startswith('empty('))
                    ctx.expect('empty(' in t and not t.startswith('!') or v2 == ('c', False) or v2 == ('c', True) and none or 'size(' in t + repr(s2.facts), 'gone: others', 'queues that others have are removed, or those that nobody has are kept', L.where())
            if F.qn.endswith('::remove'):
                for what in ('pending.lookups', 'remotes'):
                    ctx.expect(any(e[0] == 'shrink' and e[1].endswith(what) and any('id' in path(x) for x in e[2]) for e in evs), f'gone: {what}', f'a process that is gone is kept in {what}', F.where())
    for t in ('event_process_exit', 'event_ipc_destroyed'):
        h, r, ps = paths(ctx, t, HM, rel=False, limits=Once)
        for k, s in ps:
            ctx.expect(any(e[0] in ('shrink', 'each') and 'queues' in e[1] for e in s.auto) or none_left(s.auto), f'{t}: queues', 'the queues of a process that is gone are kept', h.F.where())


# ---------------------------------------------------------------- who gets what
def reply(ctx, r, s, e, f, what, asked):
    """a reply carries the queue that was found"""
    got = next((x[2] for x in s.auto[s.auto.index(f):] if x[0] == 'fact' and x[1][0] == 't' and strip(x[1][1]) == f[2][-1]), None)
    v = e[2][1]
    for n in ('process', 'queue', 'order'):
        m = member(r, v, n)
        if got:
            ctx.expect(m is not None and contains(m, f[2][-1]) and path(strip(m)).endswith('.' + n), f'{what}: {n}', f'the reply carries {path(m)[:60] if m is not None else "no"} {n}, and not that of the queue that was found', at(e))
        elif got is False and m is not None:
            ctx.expect(not contains(m, f[2][-1]), f'{what}: absent', 'the reply carries a queue that was not found', at(e))
    return got


def lookup(ctx):
    h, r, ps = paths(ctx, 'queue_manager_queue_lookup_request', HM, rel=False, limits=Once)
    seen = set()
    for k, s in ps:
        evs = s.auto
        who = [n for n in ('internal', 'external', 'external_discovery') for e in evs if e[0] == 'fact' and e[1][0] == 'eq' and e[2] and 'requester' in path(e[1][1]) + path(e[1][2]) and (path(e[1][1]).endswith('::' + n) or path(e[1][2]).endswith('::' + n))]
        finds = [e for e in evs if e[0] == 'find']
        got = None
        for f in finds:
            ctx.expect(path(strip(f[2][0])) == 'request.name', 'lookup: name', f'{path(f[2][0])[:60]} is looked for', at(f))
            ctx.expect(path(strip(f[2][1])) == 'request.context.action', 'lookup: action', f'a queue is looked for that is enabled for {path(f[2][1])[:60]}', at(f))
            if who == ['external']:
                ctx.expect(f[1] == 'local_queue', 'lookup: external', 'a lookup from another domain that is not to be forwarded is given a queue of another domain', at(f))
            one = next((x[2] for x in evs[evs.index(f):] if x[0] == 'fact' and x[1][0] == 't' and strip(x[1][1]) == f[2][-1]), None)
            got = got or one
        sends = [e for e in evs if e[0] == 'send' and e[1] == 'queue_manager_queue_lookup_reply']
        if who and finds:
            seen.add((who[0], bool(got)))
            if not got and who[0] != 'external':
                ctx.expect(any(f[1] == 'queue' for f in finds), 'lookup: remote', 'queues of other domains are not found', h.F.where())
            if got:
                ctx.expect(len(sends) == 1, 'lookup: reply', 'a queue is found and not replied', h.F.where())
        for e in sends:
            for f in finds[-1:]:
                reply(ctx, r, s, e, f, 'lookup', 'request')
        grows = [e for e in evs if e[0] == 'grow' and e[1].endswith('pending.lookups')]
        if got:
            ctx.expect(not grows, 'lookup: done', 'a lookup waits though the queue was found', h.F.where())
    for who in ('internal', 'external', 'external_discovery'):
        ctx.expect((who, True) in seen and (who, False) in seen, f'lookup: {who}', f'the queue is not looked for when the requester is {who}', h.F.where())


def again(ctx):
    """those that wait are looked at again after a change"""
    for t in ('queue_manager_queue_advertise', 'queue_group_configuration_update_reply', 'domain_discovery_api_reply'):
        h, r, ps = paths(ctx, t, HM, rel=False, limits=Once)
        found = False
        for k, s in ps:
            evs = s.auto
            up = [i for i, e in enumerate(evs) if e[0] == 'update']
            if t != 'domain_discovery_api_reply':
                ctx.expect(up, f'{t}: update', 'what is told is not taken in', h.F.where())
            for i, e in enumerate(evs):
                if e[0] != 'find':
                    continue
                found = True
                p = path(strip(e[2][0]))
                ctx.expect(p.endswith('lookups[].name'), 'again: name', f'{p[:60]} is looked for', at(e))
                ctx.expect(path(strip(e[2][1])).endswith('lookups[].context.action'), 'again: action', f'a queue is looked for that is enabled for {path(e[2][1])[:60]}', at(e))
                ctx.expect(not up or max(up) < i, 'again: after', 'those that wait are looked at before what is told is taken in', at(e))
                ctx.expect(e[1] == 'queue', 'again: remote', 'queues of other domains are not found', at(e))
                got = next((x[2] for x in evs[i:] if x[0] == 'fact' and x[1][0] == 't' and strip(x[1][1]) == e[2][-1]), None)
                after = [x for x in evs[i:] if x[0] == 'send' and x[1] == 'queue_manager_queue_lookup_reply']
                if got:
                    ctx.expect(after and path(after[0][2][0]).endswith('lookups[].process.ipc'), 'again: reply', 'one that waits is not told about the queue', at(e))
                for x in after[:1]:
                    if got:
                        reply(ctx, r, s, x, e, 'again', 'lookups[]')
        ctx.expect(found, f'{t}: again', 'those that wait for a queue are not looked at again', h.F.where())


def discovery(ctx):
    h, r, ps = paths(ctx, 'domain_discovery_lookup_request', HM, rel=False, limits=Once)
    seen = set()
    for k, s in ps:
        evs = s.auto
        internal = next((e[2] for e in evs if e[0] == 'fact' and e[1][0] == 'eq' and 'scope' in path(e[1][1]) + path(e[1][2]) and 'internal' in path(e[1][1]) + path(e[1][2])), None)
        for i, e in enumerate(evs):
            if e[0] != 'find':
                continue
            if internal is True:
                seen.add('internal')
                ctx.expect(e[1] == 'local_queue', 'discovery: internal', 'another domain that asks for our own queues is told about those of others', at(e))
            elif internal is False:
                seen.add('extended')
                ctx.expect(e[1] == 'queue', 'discovery: extended', 'queues of other domains are not found', at(e))
            ctx.expect('content.queues[]' in path(e[2][0]), 'discovery: name', f'{path(e[2][0])[:60]} is looked for', at(e))
            got = next((x[2] for x in evs[i:] if x[0] == 'fact' and x[1][0] == 't' and strip(x[1][1]) == e[2][-1]), None)
            there = [x for x in evs[i:] if x[0] == 'grow' and x[1].endswith('content.queues')]
            absent = [x for x in evs[i:] if x[0] == 'grow' and x[1].endswith('absent.queues')]
            if got is not None:
                ctx.expect(bool(there) == got and bool(absent) != got, 'discovery: told', f'a queue that {"exists" if got else "does not exist"} is {"not " if got else ""}told to exist', at(e))
            for f in ('enqueue', 'dequeue'):
                for w in evs[i:]:
                    if got and w[0] == 'write' and w[1].endswith('.enable.' + f):
                        ctx.expect(contains(w[2][0], e[2][-1]) and path(strip(w[2][0])).endswith('.enable.' + f), f'discovery: {f}', f'{path(w[2][0])[-60:]} decides if {f} is enabled', at(w))
    for x in ('internal', 'extended'):
        ctx.expect(x in seen, f'discovery: {x}', f'no queue is looked for when the scope is {x}', h.F.where())
