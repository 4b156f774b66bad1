"""two phase commit: resources are asked to commit only after all have voted ok, and the decision is one"""
from .txm_common import *

COMMIT, ROLLBACK, PREPARE = ('transaction_resource_%s_request' % x for x in ('commit', 'rollback', 'prepare'))
STAGES = ('involved', 'prepare', 'post_prepare', 'commit', 'rollback')


def name(v):
    v = strip(v) if v is not None else None
    return v[1].rsplit('::', 1)[-1] if isinstance(v, tuple) and v and v[0] == 'e' else None


def stages(evs):
    """stages the transaction can be in, given what was tested on the path before it was changed"""
    r = set(STAGES)
    for e in evs:
        if e[0] == 'stage':
            break
        if e[0] != 'fact':
            continue
        key, val = e[1], e[2]
        if key[0] == 'eq' and path(key[1]).endswith('.stage') and name(key[2]) in STAGES:
            r &= {name(key[2])} if val else set(STAGES) - {name(key[2])}
        elif key[0] == 'bin' and key[1] == '>':
            a, b = key[2], key[3]
            if path(a).endswith('.stage') and name(b) in STAGES:
                i = STAGES.index(name(b))
                r &= set(STAGES[i + 1:] if val else STAGES[:i + 1])
            elif path(b).endswith('.stage') and name(a) in STAGES:
                i = STAGES.index(name(a))
                r &= set(STAGES[:i] if val else STAGES[i:])
        elif key[0] == 't' and key[1][0] == 'call' and re.search(r'(compare::any|::any|contains)$', key[1][1]) and any(path(x).endswith('.stage') for x in key[1][2]):
            s = {name(x) for x in flat(key[1][2])} - {None}
            r &= s if val else set(STAGES) - s
    return r


def flat(xs):
    for x in xs:
        if isinstance(x, tuple) and x and x[0] == 'e':
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def counts(evs):
    """possible numbers of involved resources (2: more than one)"""
    r = {0, 1, 2}
    for e in evs:
        if e[0] == 'stage':
            break
        if e[0] == 'fact':
            key, val = e[1], e[2]
            k = key[1:3] if key[0] == 'eq' else key[2:4] if key[0] == 'bin' else None
            if k and 'branches' in path(k[0]) + path(k[1]) and 'resources' in path(k[0]) + path(k[1]) or k and ('resource_count' in path(k[0]) + path(k[1])):
                a, b = k
                c, rev = (b, False) if b[0] == 'c' else (a, True)
                if c[0] != 'c':
                    continue
                n = int(c[1])
                if key[0] == 'eq':
                    ok = {x for x in (0, 1, 2) if x == n or x == 2 and n > 2}
                    r &= ok if val else {x for x in (0, 1, 2) if x != n or x == 2}
                elif not rev:
                    r &= {x for x in (0, 1, 2) if (x > n or x == 2 and n >= 2) == val or x == 2 and n >= 2}
                else:
                    r &= {x for x in (0, 1, 2) if (n > x) == val}
            elif key[0] == 't' and re.search(r'resource_count|branches.*resources', path(key[1])):
                r &= {1, 2} if val else {0}
    return r


CODES = ('ok', 'read_only', 'other')


def votes(evs):
    """what the accumulated votes can be"""
    r = set(CODES)
    for e in evs:
        if e[0] == 'fact' and e[1][0] == 'eq':
            a, b = e[1][1], e[1][2]
            if name(b) and ('replies:' in path(a) or 'outcome:' in path(a)) and '[]' not in path(a):
                c = name(b)
                if c in ('ok', 'read_only'):
                    r &= {c} if e[2] else set(CODES) - {c}
                elif e[2]:
                    r &= {'other'}
    return r


def asked(evs):
    return [e for e in evs if e[0] == 'ask']


def check(ctx):
    P = load(ctx)
    ctx.rule('on every path of the commit/rollback/prepare handlers and of the continuations they store: a resource is asked to commit only (a) as the only involved resource, with one-phase, '
             '(b) when the votes amount to ok and the prepared state has been logged, (c) when the upstream coordinator says so and the transaction is prepared; it is asked to prepare only before that, '
             'to roll back only when no commit is decided; the stage is set before the requests, the answers are awaited with the matching continuation')
    n = {COMMIT: 0, ROLLBACK: 0, PREPARE: 0}
    for u in units(ctx, TYPES):
        by_site = {}
        for a in u.rule.asks:
            by_site.setdefault(a[0], []).append(a)
        for k, st in u.paths:
            evs = st.auto
            asks = asked(evs)
            kinds = {e[1] for e in asks}
            where = u.F.where()
            ctx.expect(len(kinds) < 2, f'{u.name}: one request', f'{u.name}: resources are asked to {" and ".join(sorted(kinds))} on one path', where)
            regs = [e for e in evs if e[0] == 'register']
            for i, e in enumerate(evs):
                if e[0] != 'ask':
                    continue
                before = evs[:i]
                n[e[1]] += 1
                # the stage says what is going on
                s = [x for x in before if x[0] == 'stage']
                want = {COMMIT: 'commit', ROLLBACK: 'rollback', PREPARE: 'prepare'}[e[1]]
                ctx.expect(s and name(s[-1][2][0]) == want, f'{u.name}: stage', f'{u.name}: asks resources to {want} while the stage is {name(s[-1][2][0]) if s else "unchanged"}', at(s[-1]) if s else where)
                # the answers are waited for
                after = [x for x in evs[i:] if x[0] == 'register']
                ctx.expect(len(after) == 1 and after[0][1] == want, f'{u.name}: await', f'{u.name}: the answers to the {want} requests are not awaited (as {want})', at(after[0]) if after else where)
                if e[1] == COMMIT:
                    if u.kind == 'prepare':
                        ctx.expect(votes(before) == {'ok'}, f'{u.name}: votes', f'{u.name}: resources are asked to commit when the votes amount to {"/".join(sorted(votes(before)))}', where)
                        ctx.expect(any(x[0] == 'log' and x[1] == 'prepare' for x in before), f'{u.name}: logged', f'{u.name}: resources are asked to commit and the prepared transaction has not been logged', where)
                    elif u.kind is None and u.origin == 'transaction_commit_request':
                        ctx.expect(counts(before) <= {0, 1}, f'{u.name}: one phase', f'{u.name}: commits without prepare with {counts(before)} resources (2: more than one)', where)
                        ctx.expect(stages(before) <= {'involved'}, f'{u.name}: stage before', f'{u.name}: a commit starts when the transaction is {stages(before)}', where)
                    elif u.kind is None and u.origin == COMMIT:
                        ctx.expect(stages(before) == {'post_prepare'}, f'{u.name}: prepared', f'{u.name}: the order to commit is passed on when the transaction is {sorted(stages(before))}', where)
                    else:
                        ctx.bad(f'{u.name}: commit', f'{u.name}: resources are asked to commit', where)
                elif e[1] == PREPARE:
                    if ctx.expect(u.kind is None and u.origin in ('transaction_commit_request', PREPARE, COMMIT), f'{u.name}: prepare', f'{u.name}: resources are asked to prepare', where):
                        ctx.expect(stages(before) <= {'involved'}, f'{u.name}: stage before', f'{u.name}: prepare starts when the transaction is {sorted(stages(before))}', where)
                else:
                    if u.kind == 'prepare':
                        ctx.expect(votes(before) == {'other'}, f'{u.name}: votes', f'{u.name}: resources are asked to roll back when the votes amount to {"/".join(sorted(votes(before)))}', where)
                    elif u.kind is None and u.origin == ROLLBACK:
                        ctx.expect(stages(before) <= {'involved', 'post_prepare'}, f'{u.name}: stage before', f'{u.name}: a roll back starts when the transaction is {sorted(stages(before))}', where)
                    else:
                        ctx.expect(u.kind is None and u.origin == 'transaction_rollback_request', f'{u.name}: rollback', f'{u.name}: resources are asked to roll back', where)
            for e in regs:
                s = [x for x in evs[:evs.index(e)] if x[0] == 'stage']
                ctx.expect(s and name(s[-1][2][0]) == e[1], f'{u.name}: await', f'{u.name}: waits for {e[1]} answers in stage {name(s[-1][2][0]) if s else "unchanged"}', at(e))
            if u.kind == 'prepare':
                prepared(ctx, u, evs, regs)
            elif u.kind is not None:
                # a final continuation decides nothing more
                ctx.expect(not regs and not asks, f'{u.name}: final', f'{u.name}: more requests are sent', where)
            elif not regs and u.origin not in ('transaction_rollback_request',):
                direct(ctx, u, evs)
        # the flags and values of the requests
        for mt, how, dest, v, site, st, F in u.rule.asks:
            req = v[0]
            flags = member(u.rule, req, 'flags')
            if how == 'emulated':
                continue
            one = flags is not None and 'one_phase' in repr(flags)
            if u.kind is None and u.origin == 'transaction_commit_request' and mt == COMMIT:
                ctx.expect(one, f'{u.name}: one phase flag', f'{u.name}: a commit without prepare does not carry the one-phase flag', f'{site[0]}:{site[1]}')
            else:
                ctx.expect(not one, f'{u.name}: one phase flag', f'{u.name}: a request of two phase commit carries the one-phase flag', f'{site[0]}:{site[1]}')
    ctx.count('request_events', sum(n.values()))
    for k, c in n.items():
        ctx.expect(c > 0, f'{k}: sent', f'no path sends {k}', None)
    dead_owner(ctx)


def prepared(ctx, u, evs, regs):
    """the votes are in"""
    v = votes(evs)
    sends = [e for e in evs if e[0] == 'send' and e[1].endswith('_reply')]
    s = [name(e[2][0]) for e in evs if e[0] == 'stage']
    if not s and not sends and not regs:
        # the transaction is gone
        return
    ctx.expect(s[:1] == ['post_prepare'] or s[:1] == [('commit')] and v == {'ok'} or s[:1] == ['rollback'] and v == {'other'}, f'{u.name}: prepared', f'{u.name}: the stage is not advanced when all have voted', u.F.where())
    as_resource = u.origin == PREPARE
    where = at(sends[-1]) if sends else u.F.where()
    if v == {'ok'}:
        logged = [i for i, e in enumerate(evs) if e[0] == 'log' and e[1] == 'prepare']
        ctx.expect(logged, f'{u.name}: logged', f'{u.name}: all voted ok and nothing is logged', where)
        if as_resource:
            ctx.expect(len(sends) == 1 and not regs, f'{u.name}: vote', f'{u.name}: as a resource, all voted ok: the vote upstream has to be the only thing that happens', where)
            ctx.expect(s == ['post_prepare'], f'{u.name}: prepared', f'{u.name}: as a resource the transaction waits in post_prepare for the decision', u.F.where())
        else:
            ctx.expect(len(regs) == 1 and regs[0][1] == 'commit', f'{u.name}: decision', f'{u.name}: all voted ok and the commit does not start', where)
        ctx.expect(not any(e[0] == 'log' and e[1] == 'remove' for e in evs), f'{u.name}: kept', f'{u.name}: the transaction is removed before it is committed', where)
    elif v == {'read_only'}:
        ctx.expect(len(sends) == 1 and not regs, f'{u.name}: read only', f'{u.name}: nothing is left to commit, only the reply remains', where)
    elif v == {'other'}:
        if as_resource:
            ctx.expect(len(sends) == 1 and not regs, f'{u.name}: vote', f'{u.name}: as a resource, not all voted ok: the vote upstream has to be the only thing that happens', where)
        else:
            ctx.expect(len(regs) == 1 and regs[0][1] == 'rollback', f'{u.name}: decision', f'{u.name}: not all voted ok and the roll back does not start', where)
    else:
        ctx.bad(f'{u.name}: decision', f'{u.name}: the same happens whether the votes are {" or ".join(sorted(v))}', where)


def direct(ctx, u, evs):
    """answered directly: nothing is involved, or too late"""
    sends = [e for e in evs if e[0] == 'send']
    gone = any(e[0] == 'log' and e[1] == 'remove' for e in evs)
    if gone:
        ctx.expect(counts(evs) == {0}, f'{u.name}: removed', f'{u.name}: the transaction is removed when {counts(evs)} resources are involved (2: more than one)', at(sends[-1]) if sends else u.F.where())
        ctx.expect(stages(evs) <= {'involved'}, f'{u.name}: removed', f'{u.name}: the transaction is removed when it is {sorted(stages(evs))}', at(sends[-1]) if sends else u.F.where())


class Dead(Direct):
    watch = r'.'

    def on_fact(self, I, key, val, st):
        t = path(key[1]) + '|' + path(key[2]) if key[0] == 'eq' else path(key[1]) if key[0] == 't' else path(key)
        if 'transactions' in t:
            return self.event(st, ('fact', key, val, None))
        return st

    def on_element(self, I, fr, node, elem, st):
        if path(strip(elem)).endswith('transactions[]'):
            # what was found about the previous one says nothing about this one
            last = max([i for i, e in enumerate(st.auto) if e[0] == 'grow'], default=-1)
            st = st.with_auto(tuple(e for i, e in enumerate(st.auto) if e[0] != 'fact' or i < last))
        return super().on_element(I, fr, node, elem, st)


def dead_owner(ctx):
    """only undecided transactions of a process that died are rolled back"""
    t = 'event_process_exit'
    h, r, ps = paths(ctx, t, cls=Dead)
    hit = 0
    for k, st in ps:
        evs = st.auto
        for i, e in enumerate(evs):
            target = e[2] if e[0] == 'direct' or e[0] == 'grow' and any('transactions' in path(x) for x in e[2]) else None
            if target is None or not any('transactions' in path(x) for x in target):
                continue
            hit += 1
            s = set(STAGES)
            if e[0] == 'direct':
                i = next((j for j, x in enumerate(evs[:i]) if x[0] == 'grow' and any('transactions' in path(y) for y in x[2])), i)
            for x in evs[:i]:
                if x[0] == 'fact' and x[1][0] == 'eq' and path(x[1][1]).endswith('.stage') and name(x[1][2]) in STAGES:
                    s &= {name(x[1][2])} if x[2] else set(STAGES) - {name(x[1][2])}
                elif x[0] == 'fact' and x[1][0] == 'bin' and x[1][1] == '>' and path(x[1][2]).endswith('.stage') and name(x[1][3]) in STAGES:
                    j = STAGES.index(name(x[1][3]))
                    s &= set(STAGES[j + 1:] if x[2] else STAGES[:j + 1])
            ctx.expect(s == {'involved'}, f'{t}: undecided', f'the death of the owner rolls back a transaction that is {sorted(s)}', at(e))
    ctx.need(hit, f'{t}: no roll back of the transactions of a dead process found')
