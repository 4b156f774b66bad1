"""the transactions of a process end the way its services and callers decided"""
from .xatmi_common import *

C = 'common::transaction::Context::'


def check(ctx):
    P = ctx.load('common/source/transaction/*.cpp', 'common/source/server/handle/policy.cpp')
    ctx.rule('on every path: a transaction that is taken out of the context is committed or rolled back, once; commit only for a transaction of this process that is active, without awaited replies, and '
             'when commit was asked for; resources are ended before; one resource commits on its own (one phase) only when nobody else is involved, otherwise the transaction manager is asked, with the '
             'transaction and everything that is involved; success is reported only when everything that was done succeeded; a transaction gets every fixed resource started, with join exactly when the transaction manager knows them')
    ctx.assume('the transaction manager and the resources do what they answer (T01-T07); severities of service states are ordered by std::max')
    finalize(ctx)
    demarcation(ctx)
    outcome(ctx)
    continuation(ctx)
    begins(ctx)
    joins(ctx)
    switches(ctx)
    update(ctx)
    policy(ctx)


class Ctx(Tracks, dbase.Uses):
    """resources and the transaction manager are asked through events; facts are events too"""
    try_may_throw = False
    watch = r'm_transactions|involved'
    snap = re.compile(r'm_resources|formatID|tx\.pending|trid|m_transactions|m_control|rm\.start|\.stage|tx\.local|tx\.involved|commit_return')
    keep = ()

    def __init__(self, P):
        super().__init__(P, {})

    def inline(self, F, node):
        return not re.search(r'transaction::Resource::|communication::|event::|' + ('|'.join(self.keep) or '$^'), F.qn or '')

    def event(self, st, e):
        e = e + (('in', self.here),)
        return st if e in st.auto or len(st.auto) > 150 else st.with_auto(st.auto + (e,))

    def on_fact(self, I, key, val, st):
        """what was known does not go when paths meet"""
        if not self.snap.search(' '.join(path(x) for x in key[1:] if isinstance(x, tuple))):
            return st
        self.here = ()
        return self.event(st, ('is', '', (key, val), None))

    def on_assign(self, I, fr, node, lhs, val, st):
        if lhs[0] == 'mem' and lhs[2] == 'state':
            self.here = fr.id
            return self.event(st, ('state', path(lhs[1]), (lhs[1], val), (fr.F.file, node.get('l'))))
        return st

    def on_element(self, I, fr, node, elem, st):
        self.here = fr.id
        st = self.event(st, ('each', path(elem), (elem,), (fr.F.file, node.get('l'))))
        if elem[0] == 'elem':
            known = self.elements(I, fr, elem[1], elem, st)
            if len(known) == 1:
                return known[0]
        return st

    def on_call(self, I, fr, node, name, obj, args, st):
        if not name:
            return None
        self.here = fr.id
        s = (fr.F.file, node.get('l'))
        vals = lambda: tuple(I.rvalue(a, st) for a in args)
        if dbase.QUIET.search(name) or name.endswith(('local::log::event', 'local::log::event')):
            return [(('c', None), st)]
        if name.endswith('code::operator+') and len(args) == 2:
            return [(('call', 'plus', vals(), None), st)]
        if name.endswith('code::operator+=') and len(args) == 2:
            return [(args[0], I.write(args[0], ('call', 'plus', vals(), None), st))]
        if name.endswith('service::transaction::operator+=') and len(args) == 2:
            a, b = vals()
            return [(args[0], I.write(args[0], b if last(a) == 'ok' else a, st))]
        if name.endswith('service::transaction::operator+') and len(args) == 2:
            a, b = vals()
            return [(b if last(a) == 'ok' else a, st)]
        for k in self.keep:
            if re.search(k, name):
                res = ('call', name.rsplit('::', 1)[-1], vals(), I.site(fr, node))
                st = self.event(I.fresh_call(res, st), ('do', name.rsplit('::', 1)[-1], vals() + (res,), s))
                return [(res, st)]
        m = re.search(r'transaction::Resource::(start|end|commit|rollback|prepare)$', name)
        if m:
            res = ('call', 'rm.' + m.group(1), (), I.site(fr, node))
            return [(res, self.event(I.fresh_call(res, st), ('rm', m.group(1), (I.rvalue(obj, st),) + vals() + (res,), s)))]
        if name.endswith('convert::to::tx') and args:
            return [(('call', 'to.tx', vals(), None), st)]
        if name.endswith('algorithm::accumulate') and len(args) == 3 and I.read(args[2], st)[0] == 'lam':
            return self.accumulate(I, fr, node, args, st)
        if re.search(r'algorithm::(stable::)?(partition|filter)$', name) and len(args) == 2:
            lam = I.read(args[1], st)
            if lam[0] == 'lam' and 'm_resources' in path(args[0]):
                src = I.rvalue(args[0], st)
                e = ('elem', src)
                res = ('call', 'partition', (src, lam), None)
                out = [(res, st)]
                for v, s2 in I.invoke(lam, [e], fr, st, node):
                    for b, s3 in I.truth(I.read(v, s2), s2):
                        out.append((res, self.event(s3, ('tried', b, (e,), s))))
                return out
            if lam[0] == 'lam':
                return [(('call', name.rsplit('::', 1)[-1], (I.rvalue(args[0], st), lam), None), st)]
        if name.endswith('communication::ipc::call') or name.endswith('ipc::call'):
            mt = model.msgtype(self.P, fr.F.t(node['a'][1])) if len(node['a']) > 1 else ''
            res = ('call', 'tm.' + str(mt), (), I.site(fr, node))
            return [(res, self.event(I.fresh_call(res, st), ('ask', mt, vals() + (res,), s)))]
        if name.endswith('device::blocking::send') and len(args) > 1:
            mt = model.msgtype(self.P, fr.F.t(node['a'][1]))
            return [(('c', None), self.event(st, ('send', mt, vals(), s)))]
        if name.endswith('device::blocking::receive') and len(args) > 1:
            st = self.event(st, ('receive', '', vals(), s))
            return [(('c', None), I.havoc(args[1], I.site(fr, node), st))]
        if name.endswith('process::handle') and not args:
            return [(('call', 'process::handle', (), None), st)]
        if re.search(r'Transaction::(involve|external|suspend|resume|associate|replied|associate_dynamic|disassociate_dynamic)$', name) and obj is not None:
            w = name.rsplit('::', 1)[-1]
            res = ('call', w, (obj,) + vals(), I.site(fr, node))
            return [(res, self.event(st, ('tx', w, (I.rvalue(obj, st) if obj[0] == 'v' else obj,) + vals(), s)))]
        if re.search(r'Transaction::(pending|local|involved|suspended|correlations|dynamic|associated)$', name) and obj is not None:
            w = name.rsplit('::', 1)[-1]
            return [(('call', 'tx.' + w, (self.thing(obj),) + vals(), None), st)]
        if name.endswith(('Context::pending', 'Context::current')) and not args:
            return [(('call', name.rsplit('::', 1)[-1], (), None), st)]
        if re.search(r'::discard$', name):
            return [(('c', None), self.event(st, ('discard', '', vals(), s)))]
        st2 = self.track(I, fr, node, name, obj, args, st)
        if st2 is not st:
            return I.opaque(node, fr, name, obj, args, st2)
        return None

    def thing(self, v):
        return v

    def accumulate(self, I, fr, node, args, st):
        rng, init, lam = I.rvalue(args[0], st), I.rvalue(args[1], st), I.read(args[2], st)
        res = ('call', 'sum', (rng, init), I.site(fr, node))
        out = [(res, self.event(st, ('sum', 'none', (rng, init), (fr.F.file, node.get('l')))))]
        elem = ('elem', rng)
        for s in self.elements(I, fr, rng, elem, self.on_element(I, fr, node, elem, st)):
            for v, s2 in I.invoke(lam, [('sym', 'acc'), elem], fr, s, node):
                out.append((res, self.event(I.fresh_call(res, s2), ('sum', 'one', (rng, init, I.read(v, s2)), (fr.F.file, node.get('l'))))))
        return out

    def elements(self, I, fr, rng, elem, st):
        """an element of a part of a range fulfils what the range was parted by"""
        r = strip_hv(rng)
        which = None
        if r[0] == 'mem' and r[2] in ('#0', '#1'):
            which, r = r[2] == '#0', r[1]
        elif r[0] == 'call' and r[1] == 'filter':
            which = True
        if which is None or r[0] != 'call' or r[1] not in ('partition', 'filter'):
            return [st]
        src, lam = r[2]
        out = []
        for s in self.elements(I, fr, src, elem, st):
            for v, s2 in I.invoke(lam, [elem], fr, s, {'k': 'call', 'l': lam[4][1] if lam[4] else 0}):
                out += [s3 for b, s3 in I.truth(I.read(v, s2), s2) if b == which]
        return out


def run(ctx, name, n, keep=(), names=('p0', 'p1', 'p2'), snap=None):
    fs = [F for F in ctx.P.funcs.values() if F.body and (F.qn or '').endswith(C + name) and len(F.params) == n]
    ctx.need(len(fs) == 1, f'{name} of the transaction context is not found')
    F = fs[0]
    r = Ctx(ctx.P)
    r.keep = keep
    r.snap = re.compile(snap) if snap else r.snap
    I = Interp(ctx.P, r, More)
    out = I.run(F, (), this=('sym', 'self'), args=[('sym', names[i]) for i in range(n)])
    ctx.used(I)
    ctx.count('paths', len(out))
    ctx.expect(bool(out), f'{name}: paths', f'{name}: nothing is analysed', (F.file, F.line))
    return F, r, out


def truths(st):
    """what was found out on the path"""
    seen = {}
    for f, b in st.facts.items():
        seen[f] = b
    for e in st.auto:
        if e[0] == 'is':
            seen.setdefault(e[2][0], e[2][1])
    return seen.items()


def values(evs, p):
    """the answers to a question on the path; more than one in different rounds of a loop"""
    out = set()
    for e in evs:
        if e[0] == 'is':
            f, b = e[2]
            if f[0] == 't' and path(f[1]) == p:
                out.add(b)
            if f[0] == 'eq' and any(path(x) == p + '.xid.formatID' for x in f[1:3]):
                out.add(not b)
    return out


def exists(st, p):
    """the transaction at path p has an id: True, False or not known"""
    for f, b in truths(st):
        if f[0] == 't' and path(f[1]) in (p, p + '.trid'):
            return b
        if f[0] == 'eq' and any(path(x) == p + '.trid.xid.formatID' for x in f[1:3]) and any(last(x) == 'null' for x in f[1:3]):
            return not b
    return None


def fact(st, p, e=None, kind='eq'):
    for f, b in truths(st):
        if kind == 't' and f[0] == 't' and path(f[1]) == p:
            return b
        if kind == 'eq' and f[0] == 'eq' and (path(f[1]) == p and same(f[2], e) or path(f[2]) == p and same(f[1], e)):
            return b
    return None


def states(st, p):
    """the answers to whether the transactions at path p are active; more than one in different rounds of a loop"""
    asked = list(st.facts.items()) + [e[2] for e in st.auto if e[0] == 'is']
    return {b for f, b in asked if f[0] == 'eq' and (path(f[1]) == p + '.state' and same(f[2], 'active') or path(f[2]) == p + '.state' and same(f[1], 'active'))}


def same(x, e):
    return last(x) == e or path(x) == e


def owner(st, p):
    for q in (p + '.trid.m_owner', p + '.trid.owner()'):
        b = fact(st, q, 'handle()')
        if b is not None:
            return b
    return None


def base(v):
    """the range an element was taken from, parts and filters aside"""
    while True:
        v = strip_hv(v)
        if v[0] in ('elem', 'deref', 'idx', 'mem') and len(v) > 1 and isinstance(v[1], tuple):
            v = v[1]
        elif v[0] == 'call' and v[1] in ('partition', 'filter') and v[2]:
            v = v[2][0]
        else:
            return v


# ---------------------------------------------------------------- when a service returns
def finalize(ctx):
    keep = (r'Context::commit$', r'Context::rollback$', r'resources::end::invoke$')
    F, r, out = run(ctx, 'finalize', 1, keep, ('wanted',), r'^(?!.*(partition|filter)).*(tx\.pending|\.trid)|\[\]\.(state|trid)|#\d$|#\d\)$|#\d\.state|^wanted$|sum\(|plus\(')
    where = (F.file, F.line)
    seen = set()
    for k, v, st in out:
        if k == 'throw':
            continue
        evs = st.auto
        commit = fact(st, 'wanted', kind='t')
        gone = [e for e in evs if e[0] == 'shrink' and e[1].endswith('m_transactions')]
        ctx.expect(bool(gone) and not any(e[0] == 'grow' and e[1].endswith('m_transactions') for e in evs), 'finalize: consumed', 'finalize: transactions remain in the context of the server', where)
        ctx.expect(not any('m_transactions' in path(e[2][0]) and base(e[2][0])[0] == 'mem' and evs.index(e) > evs.index(gone[0]) for e in evs if gone and e[0] == 'do' and e[1] in ('commit', 'rollback')), 'finalize: consumed', 'finalize: what is decided is not what was consumed', where)
        ok = last(v) == 'ok'
        for e in evs:
            if e[0] == 'do' and e[1] in ('commit', 'rollback'):
                t = path(e[2][0])
                seen.add(e[1])
                ctx.expect(exists(st, t) is True, f'finalize: {e[1]}', f'finalize: {e[1]} of something that may not be a transaction', e[3])
                ctx.expect(owner(st, t) is True, f'finalize: {e[1]}', f'finalize: {e[1]} of a transaction that another process may own', e[3])
            if e[0] == 'do' and e[1] == 'commit':
                ctx.expect(commit is True, 'finalize: commit', 'finalize: commit though the service failed', e[3])
                active = fact(st, t + '.state', 'active')
                # a loop visits more than one transaction under one name: what is known of one may stand for another
                several = sum(1 for x in evs if x[0] == 'do' and x[1] in ('commit', 'rollback') and path(x[2][0]) == t) > 1 and not any(x[0] == 'sum' for x in evs)
                ctx.expect(active is True or several and True in states(st, t), 'finalize: commit', 'finalize: commit of a transaction that is marked for rollback', e[3])
        for i, e in enumerate(evs):
            if e[0] != 'each' or not mentions(e[2][0], 'm_transactions') and 'm_transactions' not in e[1] or 'tx.correlations' in e[1]:
                continue
            t = e[1]
            if exists(st, t) and owner(st, t):
                did = [x for x in evs if x[0] == 'do' and x[1] in ('commit', 'rollback') and path(x[2][0]) == t]
                single = any(x[0] == 'sum' for x in evs)
                ctx.expect(len(did) == 1 or did and not single, 'finalize: decided', f'finalize: a transaction of this process is decided {len(did)} times', e[3])
            # awaited replies
            if 'partition' in t or 'filter' in t:
                continue
            pend = values(evs, f'tx.pending({t})')
            ids = values(evs, t + '.trid')
            if pend == {True} and ids == {True}:
                mark = [x for x in evs[i:] if x[0] == 'state' and x[1] == t and last(x[2][1]) not in (None, 'active')]
                ctx.expect(bool(mark), 'finalize: pending', 'finalize: a transaction with awaited replies is not marked for rollback', e[3])
                ctx.expect(not ok, 'finalize: pending', 'finalize: success is reported though replies are awaited', where)
                first = next((j for j, x in enumerate(evs) if x[0] == 'do' and x[1] == 'commit'), None)
                ctx.expect(first is None or not mark or evs.index(mark[0]) < first, 'finalize: pending', 'finalize: a transaction is committed before awaited replies are looked for', e[3])
            if True in pend:
                seen.add('pending')
        # what was not decided here
        other = [re.match(r'(empty\()?(partition\(.*m_transactions.*\)\.#\d)\)?$', path(f[1])) for f, b in truths(st) if f[0] == 't' and b != path(f[1]).startswith('empty(')]
        others = [x.group(2) for x in other if x] + [e[1] for e in evs if e[0] == 'each' and owner(st, e[1]) is False]
        for t in others:
            seen.add('other')
            did = [x for x in evs if x[0] == 'do' and x[1] == 'invoke' and (t in path(x[2][1]))]
            ctx.expect(len(did) == 1, 'finalize: resources of a callers transaction', f'finalize: the resources of a transaction of the caller are ended {len(did)} times', where)
            for x in did:
                ctx.expect(path(x[2][2]).endswith('m_resources.all'), 'finalize: resources of a callers transaction', 'finalize: not every resource is ended', x[3])
            if ok:
                s = fact(st, '*' + t + '.state', 'active')
                s = fact(st, t + '.state', 'active') if s is None else s
                ctx.expect(s is True, 'finalize: callers transaction', 'finalize: success is reported for a transaction that is marked for rollback', where)
                ctx.expect(commit is True, 'finalize: callers transaction', 'finalize: success is reported to the caller, whose transaction the service wants to roll back', where)
        if ok:
            codes = [path(f[1]) + path(f[2]) for f, b in truths(st) if f[0] == 'eq' and b and 'ok' in (last(f[1]), last(f[2]))]
            did = [e for e in evs if e[0] == 'do' and e[1] in ('commit', 'rollback') or e[0] == 'sum']
            style = any(e[0] == 'sum' for e in evs)
            ctx.expect(not did or (any('code::tx::ok' in c for c in codes) if not style else False) or any('sum' in c or any(e[0] == 'do' and path(e[2][-1]) in c for e in did) for c in codes), 'finalize: result', 'finalize: success is reported whatever became of the transactions', where)
            for t in others:
                ctx.expect(any('invoke' in c for c in codes), 'finalize: result', 'finalize: success is reported whatever became of the resources of the callers transaction', where)
        sums = [e for e in evs if e[0] == 'sum' and e[1] == 'one']
        for e in sums:
            did = [x for x in evs if x[0] == 'do' and x[1] in ('commit', 'rollback')]
            ctx.expect(not did or any(contains(e[2][2], x[2][-1]) for x in did), 'finalize: result', 'finalize: the outcome of a transaction is dropped', e[3])
    for x, what in (('commit', 'commits'), ('rollback', 'rolls back'), ('pending', 'looks for awaited replies'), ('other', 'looks at the transaction of the caller')):
        ctx.expect(x in seen, 'finalize: ' + x, f'finalize: never {what}', where)


# ---------------------------------------------------------------- tx_commit, tx_rollback
def demarcation(ctx):
    for what in ('commit', 'rollback'):
        F, r, out = run(ctx, what, 0, (r'Context::commit$', r'Context::rollback$', r'Context::control_continuation$'))
        where = (F.file, F.line)
        done = 0
        for k, v, st in out:
            if k == 'throw':
                continue
            evs = st.auto
            did = [e for e in evs if e[0] == 'do' and e[1] in ('commit', 'rollback')]
            gone = [e for e in evs if e[0] == 'shrink' and e[1].endswith('m_transactions')]
            if not did:
                ctx.expect(not gone, f'tx_{what}: consumed', f'tx_{what}: a transaction is dropped', where)
                ctx.expect(last(v) not in (None, 'ok'), f'tx_{what}: refused', f'tx_{what}: {path(v)} is returned though nothing was done', where)
                continue
            done += 1
            w = did[0][3]
            ctx.expect([e[1] for e in did] == [what], f'tx_{what}: done', f'tx_{what}: {" and ".join(e[1] for e in did)}', w)
            ctx.expect(exists(st, 'current()') is True, f'tx_{what}: precondition', f'tx_{what} without a transaction', w)
            ctx.expect(owner(st, 'current()') is True, f'tx_{what}: precondition', f'tx_{what} of a transaction that another process may own', w)
            if what == 'commit':
                ctx.expect(fact(st, 'current().state', 'active') is True, 'tx_commit: precondition', 'tx_commit of a transaction that is marked for rollback', w)
                ctx.expect(fact(st, 'tx.pending(current())', kind='t') is False, 'tx_commit: precondition', 'tx_commit of a transaction with awaited replies', w)
            ctx.expect(len(gone) == 1 and evs.index(gone[0]) < evs.index(did[0]), f'tx_{what}: consumed', f'tx_{what}: the transaction stays in the context', w)
            t = path(did[0][2][0])
            ctx.expect('m_transactions' in t and re.search(r'prev\(end\(|back\(', t + ' '.join(path(x) for x in (gone[0][2] if gone else ()))) is not None or t == 'current()', f'tx_{what}: which', f'tx_{what}: another transaction than the current one is decided', w)
            go = [e for e in evs if e[0] == 'do' and e[1] == 'control_continuation']
            ctx.expect(len(go) == 1 and contains(go[0][2][0], did[0][2][-1]) and contains(v, go[0][2][-1]), f'tx_{what}: result', f'tx_{what}: the outcome is not what is returned', w)
        ctx.expect(done > 0, f'tx_{what}: done', f'tx_{what} never decides a transaction', where)
    F, r, out = run(ctx, 'current', 0)
    for k, v, st in out:
        p = path(v)
        ctx.expect(p in ('self.m_empty', 'back(self.m_transactions)'), 'current', f'the current transaction is {p}', (F.file, F.line))
        if p.startswith('back'):
            ctx.expect(fact(st, 'tx.suspended(back(self.m_transactions))', kind='t') is False, 'current', 'a suspended transaction is current', (F.file, F.line))


# ---------------------------------------------------------------- commit and rollback of one transaction
def by_sum(out, t):
    """the resources are ended with an accumulation, not a loop: it is seen even when there are none"""
    return any(e[0] == 'sum' and path(e[2][0]) == f'tx.involved({t})' for k, v, st in out for e in st.auto)


def ended(ctx, name, evs, st, t, flag, before, where, strict):
    """every involved resource that is known is ended, with the flag"""
    ends = [e for e in evs if e[0] == 'rm' and e[1] == 'end']
    sums = [e for e in evs if e[0] == 'sum' and f'tx.involved({t})' in path(e[2][0])]
    none = any(f[0] == 't' and b and path(f[1]).startswith('empty(') and 'm_resources.all' in path(f[1]) for f, b in truths(st))
    ctx.expect(not ends or not before or evs.index(ends[0]) < min(evs.index(x) for x in before), f'{name}: ended', f'{name}: the resources are not ended first', where)
    ctx.expect(none or not strict or bool(sums) and (not before or evs.index(sums[0]) < min(evs.index(x) for x in before)), f'{name}: ended', f'{name}: the resources are not ended first', where)
    for e in ends:
        ctx.expect(last(e[2][2]) == flag, f'{name}: ended', f'{name}: the resources are ended with {path(e[2][2])}', e[3])
        ctx.expect(path(e[2][1]) == t + '.trid', f'{name}: ended', f'{name}: the resources are ended for another transaction', e[3])
    for e in evs:
        if e[0] == 'each' and e[1] == f'tx.involved({t})[]' and not none:
            found = [b for f, b in truths(st) if f[0] == 't' and path(f[1]) == f'find(self.m_resources.all, {e[1]})']
            ctx.expect(bool(found) and (bool(ends) or not found[0]), f'{name}: ended', f'{name}: an involved resource is not ended', e[3])


def outcome(ctx):
    for what in ('commit', 'rollback'):
        F, r, out = run(ctx, what, 1, (r'Context::rollback$',) if what == 'commit' else (), ('tx',))
        where = (F.file, F.line)
        seen = set()
        counted = any(e[0] == 'sum' and not path(e[2][0]).startswith('tx.involved(tx)') for k, v, st in out for e in st.auto)
        strict = by_sum(out, 'tx')
        for k, v, st in out:
            if k == 'throw':
                continue
            evs = st.auto
            rm = [e for e in evs if e[0] == 'rm' and e[1] in ('commit', 'rollback')]
            ask = [e for e in evs if e[0] == 'ask']
            back = [e for e in evs if e[0] == 'do' and e[1] == 'rollback']
            ended(ctx, what, evs, st, 'tx', 'success', rm + ask + back, where, strict)
            local = fact(st, 'tx.local(tx)', kind='t')
            value = path(v)
            ctx.expect(not (rm and ask) and len(ask) <= 1, f'{what}: decided', f'{what}: decided more than once', where)
            for e in rm:
                ctx.expect(e[1] == what, f'{what}: resource', f'{what}: the resource is asked for {e[1]}', e[3])
                ctx.expect(path(e[2][1]) == 'tx.trid', f'{what}: resource', f'{what}: of another transaction', e[3])
                ctx.expect(local is True, f'{what}: resource', f'{what}: a transaction that others work in is decided without the transaction manager', e[3])
                ctx.expect(last(v) is None and v != ('c', None), f'{what}: result', f'{what}: what the resource answered is not returned', e[3])
            for e in ask:
                ctx.expect(e[1] == f'transaction_{what}_request', f'{what}: request', f'{what}: {e[1]} is sent', e[3])
                m = lambda x: member(r, e[2][1], x)
                ctx.expect(is_(m('trid'), 'tx.trid'), f'{what}: request', f'{what}: the request does not carry the transaction', e[3])
                ctx.expect(m('involved') is not None and 'tx.involved(tx)' in path(m('involved')) or any(x[0] == 'grow' and 'tx.involved(tx)' in repr([path(y) for y in x[2]]) for x in evs) or 'tx.involved(tx)' in path(e[2][1]), f'{what}: request', f'{what}: the request does not carry the resources that are involved', e[3])
                ctx.expect('process' not in repr(m('process')) or 'handle' in path(m('process')), f'{what}: request', f'{what}: the reply is sent elsewhere', e[3])
            if what == 'commit':
                failed = any(f[0] == 'eq' and not b and 'ok' in (last(f[1]), last(f[2])) for f, b in truths(st))
                if failed:
                    seen.add('failed')
                    ctx.expect(not rm and not ask, 'commit: ended', 'commit: committed though the resources failed to end', where)
                    ctx.expect(len(back) == 1 and is_(back[0][2][0], 'tx'), 'commit: ended', 'commit: a transaction whose resources fail to end is abandoned', where)
                    ctx.expect(last(v) != 'ok', 'commit: result', 'commit: success is reported for a transaction that was rolled back', where)
                    continue
                ctx.expect(not back, 'commit: done', 'commit: rolled back though nothing failed', where)
                if not ask:
                    one = one_at_most(st)
                    ctx.expect(local is True and one, 'commit: one phase', 'commit: without the transaction manager, though more than one resource, or others, may be involved', where)
                    if rm:
                        seen.add('one')
                        for e in rm:
                            ctx.expect(last(e[2][2]) == 'one_phase', 'commit: one phase', f'commit: the only resource is asked with {path(e[2][2])}', e[3])
                    elif last(v) == 'ok':
                        seen.add('none')
                        ctx.expect(nobody(st), 'commit: result', 'commit: success is reported though the resource was not asked', where)
                else:
                    seen.add('tm')
                    stage = next((last(x) for f, b in truths(st) if f[0] == 'eq' and b for x in f[1:3] if '.stage' in path(f[1]) + path(f[2]) and last(x)), None)
                    if stage in ('prepare', None):
                        got = [e for e in evs if e[0] == 'receive']
                        skip = [e for e in evs if e[0] == 'discard']
                        if stage == 'prepare':
                            ctx.expect(len(got) + len(skip) == 1, 'commit: decision', 'commit: the answer of the commit is neither received nor discarded', where)
                        for e in got:
                            seen.add('wait')
                            ctx.expect('correlation' in ' '.join(path(x) for x in e[2][2:]), 'commit: decision', 'commit: any message is taken for the answer of the commit', e[3])
                    if stage == 'rollback':
                        ctx.expect(last(v) not in (None, 'ok'), 'commit: result', f'commit: {value} is returned for a transaction that was rolled back', where)
                    else:
                        ctx.expect('.state' in value or 'havoc' in value or value.endswith('state'), 'commit: result', f'commit: {value} is returned, not what the transaction manager answered', where)
            else:
                if ask:
                    seen.add('tm')
                    ctx.expect(local is False, 'rollback: request', 'rollback: the transaction manager is asked about a local transaction', where)
                    ctx.expect('.state' in value, 'rollback: result', f'rollback: {value} is returned, not what the transaction manager answered', where)
                else:
                    ctx.expect(local is True, 'rollback: decided', 'rollback: a transaction that others work in is not rolled back', where)
                    if rm:
                        seen.add('rm')
                        ctx.expect(last(v) is None, 'rollback: result', f'rollback: {value} is returned whatever the resources answer', where)
                    for e in evs:
                        if e[0] == 'each' and 'tx.involved(tx)' in e[1] and not e[1].startswith('tx.involved(tx)'):
                            ctx.expect(bool(rm) or fact(st, f'find(self.m_resources.all, {e[1]})', kind='t') is False, 'rollback: resources', 'rollback: a resource that is involved is not rolled back', e[3])
                    if counted:
                        loops = [e for e in evs if e[0] == 'sum' and 'tx.involved(tx)' in path(e[2][0]) and not path(e[2][0]).startswith('tx.involved(tx)')]
                        ctx.expect(len(loops) == 1, 'rollback: resources', 'rollback: the resources that are involved are not rolled back', where)
        ctx.expect(any(e[0] == 'rm' and e[1] == 'end' for k, v, st in out for e in st.auto), f'{what}: ended', f'{what}: no resource is ended', where)
        want = ('tm', 'one', 'none', 'failed', 'wait') if what == 'commit' else ('tm', 'rm')
        for x in want:
            ctx.expect(x in seen, f'{what}: {x}', f'{what}: no path does this: {x}', where)


def size(st):
    """what is known of the number of involved resources"""
    for f, b in truths(st):
        s = ' '.join(path(x) for x in f[1:] if isinstance(x, tuple))
        if f[0] == 'bin' and 'tx.involved(tx)' in s and ('size' in s or 'max_size' in s or '#' in s):
            yield f, b


def one_at_most(st):
    if nobody(st):
        return True
    for f, b in size(st):
        op = f[1]
        left = 'tx.involved' in path(f[2])
        n = f[3] if left else f[2]
        if n[0] != 'c' or not isinstance(n[1], int):
            continue
        op = op if left else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        hi = {('<=', True): n[1], ('<', True): n[1] - 1, ('>', False): n[1], ('>=', False): n[1] - 1}.get((op, b))
        if hi is not None and hi <= 1:
            return True
    for f, b in truths(st):
        if f[0] == 'eq' and b and any('tx.involved(tx)' in path(x) and 'size' in path(x) for x in f[1:3]) and any(x in (('c', 0), ('c', 1)) for x in f[1:3]):
            return True
    return False


def nobody(st):
    return any(f[0] == 't' and b and path(f[1]) == 'empty(tx.involved(tx))' for f, b in truths(st)) or any(f[0] == 'eq' and b and ('c', 0) in f[1:3] and 'tx.involved(tx)' in path(f[1]) + path(f[2]) for f, b in truths(st))


# ---------------------------------------------------------------- what follows tx_commit and tx_rollback
def continuation(ctx):
    F, r, out = run(ctx, 'control_continuation', 1, (r'Context::begin$',), ('code',))
    where = (F.file, F.line)
    for k, v, st in out:
        if k not in ('ret', 'next'):
            continue
        p = path(v)
        chained = fact(st, 'self.m_control', 'chained')
        other = fact(st, 'self.m_control', 'unchained') or fact(st, 'self.m_control', 'stacked')
        b = [e for e in st.auto if e[0] == 'do' and e[1] == 'begin']
        ctx.expect(re.search(r'\bcode\b', p.replace('common::code', '')) is not None, 'continuation: result', f'the outcome is lost: {p} is returned', where)
        if chained:
            ctx.expect(len(b) == 1, 'continuation: chained', 'a chained transaction is not started', where)
            if b and fact(st, 'begin()', 'ok') is not True:
                ctx.expect('no_begin' in p or 'begin()' in p, 'continuation: chained', 'it is not told that the chained transaction did not start', where)
        elif other:
            ctx.expect(not b, 'continuation: chained', 'a transaction is started though it is not chained', where)
        starts(ctx, 'continuation', st, 'current()', ('resume',), where)


def starts(ctx, name, st, t, flags, where):
    for e in st.auto:
        if e[0] == 'rm' and e[1] == 'start':
            ctx.expect(last(e[2][2]) in flags, f'{name}: start', f'{name}: a resource is started with {path(e[2][2])}', e[3])
            if t is not None:
                ctx.expect(path(e[2][1]) == t + '.trid', f'{name}: start', f'{name}: a resource is started for another transaction', e[3])


# ---------------------------------------------------------------- tx_begin
def begins(ctx):
    F, r, out = run(ctx, 'begin', 0)
    where = (F.file, F.line)
    done = 0
    for k, v, st in out:
        if k == 'throw':
            continue
        evs = st.auto
        grow = [e for e in evs if e[0] == 'grow' and e[1].endswith('m_transactions')]
        now = exists(st, 'current()')
        if not grow:
            ctx.expect(last(v) != 'ok', 'tx_begin: result', 'tx_begin: success without a transaction', where)
            continue
        done += 1
        ctx.expect(last(v) == 'ok', 'tx_begin: result', 'tx_begin: failure is reported though there is a transaction', where)
        ctx.expect(now is False or now is True and fact(st, 'self.m_control', 'stacked') is True, 'tx_begin: precondition', 'tx_begin: within a transaction', where)
        if now is False:
            ctx.expect(fact(st, 'empty(tx.dynamic(current()))', kind='t') is True, 'tx_begin: precondition', 'tx_begin: with work outside a transaction going on', where)
        else:
            ended(ctx, 'tx_begin', evs, st, 'current()', 'suspend', [e for e in evs if e[0] == 'rm' and e[1] == 'start'], where, by_sum(out, 'current()'))
        tried = [e for e in evs if e[0] == 'tried']
        for e in tried:
            started = [x for x in evs if x[0] == 'rm' and x[1] == 'start' and x[2][0] == e[2][0]]
            inv = [x for x in evs if x[0] == 'tx' and x[1] == 'involve']
            ctx.expect(len(started) == 1, 'tx_begin: start', 'tx_begin: a fixed resource is not started', e[3])
            ctx.expect(bool(inv) and any(path(e[2][0]) in path(x[2][1]) for x in inv), 'tx_begin: start', 'tx_begin: a resource that works in the transaction is not involved in it', e[3])
            if started and e[1]:
                ctx.expect(any(f[0] == 'eq' and b and 'rm.start' in path(f[1]) + path(f[2]) and {'ok', 'read_only'} & {last(f[1]), last(f[2])} for f, b in truths(st)) or any(f[0] == 't' and b and f[1][0] == 'call' and f[1][1].endswith('any') and all(last(a) in ('ok', 'read_only') for a in f[1][2][1:]) for f, b in truths(st)), 'tx_begin: start', 'tx_begin: a resource that failed to start is taken for started', e[3])
            ctx.expect('fixed' in path(e[2][0]), 'tx_begin: start', f'tx_begin: {path(e[2][0])} are started', e[3])
        starts(ctx, 'tx_begin', st, None, ('no_flags',), where)
        bad = [b for f, b in truths(st) if f[0] == 't' and re.search(r'partition\(self\.m_resources\.\w+, .*\)\.#1$', path(f[1]))]
        ctx.expect(bad == [False] or not tried and not any('m_resources' in path(f[1]) for f, _ in truths(st) if f[0] == 't') or any(f[0] == 't' and 'empty' in path(f[1]) and b for f, b in truths(st)) or False in bad, 'tx_begin: result', 'tx_begin: a transaction is there though resources failed to start', where)
        for e in grow:
            t = member(r, e[2][0], 'state') if e[2] else None
            ctx.expect(t is None or last(t) == 'active', 'tx_begin: state', 'tx_begin: the transaction is not active', e[3])
    ctx.expect(any(e[0] == 'rm' and e[1] == 'end' and last(e[2][2]) == 'suspend' for k, v, st in out for e in st.auto), 'tx_begin: suspend', 'tx_begin: the resources of the outer transaction are not suspended', where)
    ctx.expect(done > 0, 'tx_begin: done', 'tx_begin never starts a transaction', where)
    ctx.expect(any(e[0] == 'tried' for k, v, st in out for e in st.auto) or any(e[0] == 'rm' and e[1] == 'start' for k, v, st in out for e in st.auto), 'tx_begin: start', 'tx_begin: no resource is started', where)


# ---------------------------------------------------------------- a service joins, branches or starts
def joins(ctx):
    for name, n in (('join', 1), ('branch', 1), ('start', 0)):
        F, r, out = run(ctx, name, n, (), ('trid',))
        where = (F.file, F.line)
        seen = set()
        for k, v, st in out:
            evs = st.auto
            grow = [e for e in evs if e[0] == 'grow' and e[1].endswith('m_transactions')]
            work = [e for e in evs if e[0] in ('rm', 'ask', 'send')]
            ctx.expect(len(grow) == 1, f'{name}: kept', f'{name}: the context does not have the transaction', where)
            ctx.expect(not grow or not work or evs.index(grow[0]) < evs.index(work[0]), f'{name}: kept', f'{name}: resources are started before the context has the transaction: they are not ended when it fails', where)
            none = any(f[0] == 't' and b and path(f[1]).startswith('empty(') and 'm_resources' in path(f[1]) for f, b in truths(st))
            null = name == 'join' and fact_null(st, 'trid') or name == 'branch' and any(f[0] == 't' and not b and re.search(r'm_transactions.*\.trid$', path(f[1])) for f, b in truths(st))
            if not none and not null:
                seen.add('work')
                inv = [e for e in evs if e[0] == 'tx' and e[1] == 'involve']
                ctx.expect(bool(inv), f'{name}: involved', f'{name}: the fixed resources are not involved in the transaction', where)
                sums = [e for e in evs if e[0] == 'sum']
                ctx.expect(bool(sums) and all('m_resources.fixed' in path(e[2][0]) or 'tx.involved' in path(e[2][0]) for e in sums), f'{name}: start', f'{name}: the fixed resources are not started', where)
                bad = [b for f, b in truths(st) if f[0] == 'eq' and 'sum' in path(f[1]) + path(f[2]) and 'ok' in (last(f[1]), last(f[2]))]
                if k != 'throw':
                    ctx.expect(bad and bad[0] is True, f'{name}: failure', f'{name}: a resource that fails to start is not noticed', where)
                for e in sums:
                    if e[1] != 'one':
                        continue
                    st_ = [x for x in evs if x[0] == 'rm' and x[1] == 'start']
                    found = [b for f, b in truths(st) if f[0] == 't' and path(f[1]).startswith('find(self.m_resources.fixed')]
                    ctx.expect(len(st_) == 1 and 'rm.start' in path(e[2][2]) or found == [False], f'{name}: start', f'{name}: a fixed resource is not started', e[3])
                if name == 'join':
                    asks = [e for e in evs if e[0] == 'ask']
                    ctx.expect(len(asks) == 1 and 'involved_request' in asks[0][1], 'join: transaction manager', 'join: the transaction manager is not asked which resources are involved', where)
                    for e in asks:
                        ctx.expect(is_(member(r, e[2][1], 'trid'), 'trid') or 'm_transactions' in path(member(r, e[2][1], 'trid') or ('e', '')), 'join: transaction manager', 'join: the transaction manager is asked about another transaction', e[3])
                    for e in evs:
                        if e[0] == 'rm' and e[1] == 'start':
                            known = [b for f, b in truths(st) if f[0] == 't' and '.involved, ' in path(f[1]) and 'tm.' in path(f[1])]
                            flag = last(e[2][2])
                            seen.add(flag)
                            ctx.expect(known and flag == ('join' if known[0] else 'no_flags'), 'join: flag', f'join: a resource is started with {flag} though the transaction manager says ' + ('it is involved already' if known and known[0] else 'nothing of the kind'), e[3])
                            ctx.expect(evs.index(e) > min([evs.index(x) for x in asks] or [99]), 'join: transaction manager', 'join: a resource is started before the transaction manager is asked', e[3])
                elif name == 'branch':
                    sends = [e for e in evs if e[0] in ('send', 'ask')]
                    ctx.expect(len(sends) == 1 and 'involved_request' in sends[0][1], 'branch: transaction manager', 'branch: the transaction manager is not told which resources are involved', where)
                    starts(ctx, name, st, None, ('no_flags',), where)
                    for e in sends:
                        m = member(r, e[2][1], 'trid')
                        ctx.expect(m is not None and 'm_transactions' in path(m) or m is not None and 'ID{' in path(m), 'branch: transaction manager', 'branch: the transaction manager is told about another transaction', e[3])
                else:
                    starts(ctx, name, st, None, ('no_flags',), where)
            else:
                ctx.expect(k != 'throw', f'{name}: nothing to start', f'{name}: fails without resources', where)
            if k == 'ret':
                ctx.expect('m_transactions' in path(v), f'{name}: result', f'{name}: another transaction is returned', where)
        ctx.expect('work' in seen, f'{name}: start', f'{name}: no resource is ever started', where)
        if name == 'join':
            ctx.expect({'join', 'no_flags'} <= seen, 'join: flag', 'join: the flag of xa_start does not depend on the transaction manager', where)


def fact_null(st, p):
    return any(f[0] == 't' and not b and path(f[1]) == p or f[0] == 'eq' and b and any(path(x) == p + '.xid.formatID' for x in f[1:3]) for f, b in truths(st))


# ---------------------------------------------------------------- tx_suspend, tx_resume
def switches(ctx):
    F, r, out = run(ctx, 'suspend', 1, (), ('xid',))
    where = (F.file, F.line)
    seen = set()
    for k, v, st in out:
        evs = st.auto
        sus = [e for e in evs if e[0] == 'tx' and e[1] == 'suspend']
        if last(v) == 'ok':
            seen.add('ok')
            ctx.expect(len(sus) == 1 and is_(sus[0][2][0], 'current()'), 'tx_suspend: done', 'tx_suspend: success, but the transaction is not suspended', where)
            ctx.expect(exists(st, 'current()') is True, 'tx_suspend: precondition', 'tx_suspend without a transaction', where)
            ended(ctx, 'tx_suspend', evs, st, 'current()', 'suspend', sus, where, by_sum(out, 'current()'))
        else:
            ctx.expect(not sus, 'tx_suspend: refused', 'tx_suspend: failure is reported, but the transaction is suspended', where)
    ctx.expect(any(e[0] == 'rm' and e[1] == 'end' and last(e[2][2]) == 'suspend' for k, v, st in out for e in st.auto), 'tx_suspend: ended', 'tx_suspend: the resources are not suspended', where)
    ctx.expect('ok' in seen, 'tx_suspend: done', 'tx_suspend never succeeds', where)
    F, r, out = run(ctx, 'resume', 1, (), ('xid',))
    where = (F.file, F.line)
    seen = set()
    for k, v, st in out:
        evs = st.auto
        res = [e for e in evs if e[0] == 'tx' and e[1] == 'resume']
        if last(v) == 'ok':
            seen.add('ok')
            ctx.expect(len(res) == 1, 'tx_resume: done', 'tx_resume: success, but the transaction is not resumed', where)
            for e in res:
                t = path(e[2][0])
                ctx.expect('find(self.m_transactions, *xid)' in t, 'tx_resume: which', 'tx_resume: another transaction is resumed', e[3])
                ctx.expect(fact(st, f'tx.suspended({t})', kind='t') is True, 'tx_resume: precondition', 'tx_resume of a transaction that is not suspended', e[3])
            cur = exists(st, 'current()')
            ctx.expect(cur is False or fact(st, 'tx.suspended(current())', kind='t') is True, 'tx_resume: precondition', 'tx_resume while another transaction is active', where)
            starts(ctx, 'tx_resume', st, None, ('resume',), where)
        else:
            ctx.expect(not res, 'tx_resume: refused', 'tx_resume: failure is reported, but the transaction is resumed', where)
    ctx.expect('ok' in seen, 'tx_resume: done', 'tx_resume never succeeds', where)


# ---------------------------------------------------------------- replies of calls
def update(ctx):
    F, r, out = run(ctx, 'update', 1, (), ('reply',), 'reply|\\.state')
    where = (F.file, F.line)
    table = {'ok': 'active', 'rollback': 'rollback', 'timeout': 'timeout', 'error': 'rollback'}
    seen = False
    for k, v, st in out:
        evs = st.auto
        t = '*find(self.m_transactions, reply.correlation)'
        has = fact(st, 'find(self.m_transactions, reply.correlation)', kind='t')
        rep = [e for e in evs if e[0] == 'tx' and e[1] == 'replied']
        sets = [e for e in evs if e[0] == 'state' and 'm_transactions' in e[1]]
        if has is False:
            ctx.expect(not rep and not sets, 'update: which', 'update: a transaction the reply does not belong to is changed', where)
            continue
        seen = True
        ctx.expect(len(rep) == 1 and is_(rep[0][2][1], 'reply.correlation'), 'update: replied', 'update: the reply is still awaited', where)
        says_ = {n: fact(st, 'reply.transaction_state', n) for n in table}
        left = [n for n in table if says_[n] is not False] if not any(says_.values()) else [n for n in table if says_[n]]
        for e in sets:
            to = last(e[2][1])
            ctx.expect(to is not None and all(to == table[n] or to == 'rollback' and n != 'ok' for n in left), 'update: state', f'update: a reply that says {", ".join(left)} makes the transaction {to or path(e[2][1])}', e[3])
            ctx.expect(worse(st, t) is True, 'update: severity', 'update: a transaction that is marked already can be made better', e[3])
        if not sets and 'ok' not in left:
            ctx.expect(worse(st, t) is False, 'update: marked', 'update: a failed reply does not mark the transaction', where)
    ctx.expect(seen, 'update: replied', 'update: the transaction of a reply is not found', where)


def worse(st, t):
    """the new state is worse than the one the transaction has"""
    s = t + '.state'
    for f, b in truths(st):
        if f[0] == 'bin' and f[1] in ('<', '>', '<=', '>='):
            l, r = path(f[2]) == s, path(f[3]) == s
            if l != r:
                less = f[1] in ('<', '<=') if l else f[1] in ('>', '>=')
                return b if less else not b
        if f[0] == 'eq' and any(path(x) == s for x in f[1:3]) and any(last(x) == 'active' for x in f[1:3]):
            return b
    return None


# ---------------------------------------------------------------- the type of a service decides
def policy(ctx):
    P = ctx.P
    fs = [F for F in P.funcs.values() if F.body and (F.qn or '').endswith('policy::call::Default::transaction') and len(F.params) == 2]
    ctx.need(len(fs) == 1, 'the transaction policy is not found')
    F = fs[0]
    r = Ctx(P)
    r.keep = (r'Context::(join|branch|start)$',)
    I = Interp(P, r, More)
    out = I.run(F, (), this=('sym', 'self'), args=[('sym', 'trid'), ('sym', 'service')])
    ctx.used(I)
    where = (F.file, F.line)
    table = {'automatic': ('join', 'start'), 'branch': ('branch', 'start'), 'join': ('join', 'join'), 'atomic': ('start', 'start'), 'none': ('null', 'null')}
    seen = set()
    for k, v, st in out:
        if k == 'throw':
            continue
        did = [e for e in st.auto if e[0] == 'do']
        ctx.expect(len(did) == 1, 'service type', f'a service is called with {len(did)} transactions', where)
        kind = next((n for n in table if fact(st, 'service.transaction', n)), 'none')
        null = fact_null(st, 'trid')
        given = exists_id(st)
        for e in did:
            what = e[1]
            if what == 'join' and not is_(e[2][0], 'trid'):
                what = 'null'
            seen.add(kind)
            ok = {True: (0,), False: (1,), None: (0, 1)}[given]
            ctx.expect(all(table[kind][i] == what for i in ok), f'service type: {kind}', f'a service of type {kind}, called ' + {True: 'with a transaction', False: 'without a transaction', None: 'with or without a transaction'}[given] + f', gets {what}', e[3])
            if what == 'branch':
                ctx.expect(is_(e[2][0], 'trid'), f'service type: {kind}', 'another transaction than that of the call is branched', e[3])
    ctx.expect(set(table) <= seen, 'service type', f'service types {sorted(set(table) - seen)} are not told apart', where)


def exists_id(st):
    for f, b in truths(st):
        if f[0] == 't' and path(f[1]) == 'trid':
            return b
        if f[0] == 'eq' and any(path(x) == 'trid.xid.formatID' for x in f[1:3]):
            return not b
    return None
