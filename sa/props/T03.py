"""nobody is left out: every involved resource is asked, in the branch it works in, where it can be reached, and every answer counts"""
from .txm_common import *

HANDLERS = TYPES
REPLIES = ('prepare', 'commit', 'rollback')


class Once(More):
    loop = 1


class Every(TM):
    watch = r'\.transactions$|\.externals$|transactions\b|externals\b|\.resources$|branches$'

    def __init__(self, P):
        super().__init__(P)
        self.lambdas = {}

    def ask(self, I, fr, node, mt, how, dest, v, st):
        self.asks.append((mt, how, dest, v, self.site(fr, node), st, fr.F))
        rec = v[0] if how != 'pending' else v[0]
        key = (how,) + tuple(member(self, rec, m) or ('sym', '?') for m in ('trid', 'resource', 'state', 'correlation'))
        return self.event(st, ('asked', mt, (dest or ('sym', ''), self.result) + key[1:], self.site(fr, node), how))

    def special(self, I, fr, node, name, obj, args, st):
        if re.search(r'algorithm::append_unique$', name) and len(args) > 1:
            st = self.event(st, ('grow', path(args[1]), (I.rvalue(args[0], st),), self.site(fr, node)))
            return [(args[1], I.havoc(args[1], I.site(fr, node), st))]
        if re.search(r'fan::Out<.*Pending.*(emplace_back|push_back)$', name):
            return [(('c', None), self.event(st, ('pend', '', tuple(I.rvalue(a, st) for a in args), self.site(fr, node))))]
        if name == 'std::get' and len(args) == 1:
            m = next((re.match(r'(\d+)', str(x)) for x in fr.F.targs(node) if re.match(r'\d+', str(x))), None)
            if m:
                return [(('mem', I.rvalue(args[0], st), '#' + m.group(1)), st)]
        if name.endswith('Transaction::purge') and args:
            return [(('c', None), self.event(st, ('purge', path(strip_hv(obj)), tuple(I.rvalue(a, st) for a in args), self.site(fr, node))))]
        if name.endswith('partition') and len(args) == 2 and I.read(args[1], st)[0] == 'lam':
            lam = I.read(args[1], st)
            self.lambdas[path(('call', name, (I.rvalue(args[0], st), ('lam', lam[1], (), None)), None))] = lam
            t = ('call', name, (I.rvalue(args[0], st), lam), None)
            self.lambdas[t] = lam
            return [(t, st)]
        return super().special(I, fr, node, name, obj, args, st)

    def on_leave(self, I, fr, node, kind, st):
        if kind in ('brk', 'ret') and any(e[0] == 'each' and e[3] == self.site(fr, node) for e in st.auto):
            return self.event(st, ('left', kind, (), self.site(fr, node)))
        return st

    def on_fact(self, I, key, val, st):
        if key[0] == 'eq' and key[1][0] == 'mem' and key[1][2] == 'state' and mentions(key[1], 'elem') and 'replies' in path(key[1]):
            return self.event(st, ('fact', key, val, None))
        return super().on_fact(I, key, val, st)


def check(ctx):
    P = load(ctx)
    ctx.rel = ctx.rel | facts.relevant(P, lambda F, n: F.file.startswith('transaction/') and (n['k'] == 'mem' and n.get('n') in ('resources', 'branches') or n['k'] == 'call' and (F.name(n) or '').endswith(('append_unique', 'Transaction::purge'))))
    ctx.rule('in every handler and continuation that asks resources, each element of the branches × resources of the transaction (or of the votes that were not read-only) is followed by exactly one request '
             'for that resource and branch, to a reserved instance / the queue of waiting requests / the external resource, or an emulated error answer, and is added to what is awaited under the correlation of that request; '
             'a request that cannot be sent is answered with an error; answers are handed to the fan-out of the same kind; the resources a request names are added to its branch')
    done = 0
    for u in units(ctx, HANDLERS, Every, Once):
        for k, st in u.paths:
            done += enumerate_(ctx, u, st.auto)
        asks(ctx, u)
        if u.kind is None and u.origin in ('transaction_commit_request', 'transaction_rollback_request'):
            involved(ctx, u)
    ctx.need(done, 'no request to a resource found')
    deliver(ctx)
    adds(ctx)
    branch(ctx)


def of(v):
    """the element a value belongs to, and the member"""
    v = strip(v)
    if isinstance(v, tuple) and v and v[0] == 'mem':
        return path(v[1]), v[2]
    return path(v), None


def enumerate_(ctx, u, evs):
    """each element gets its request"""
    n = 0
    regs = [i for i, e in enumerate(evs) if e[0] == 'register']
    if not regs:
        ctx.expect(not any(e[0] == 'asked' for e in evs), f'{u.name}: awaited', f'{u.name}: resources are asked and the answers are not awaited', u.F.where())
        return 0
    stages_ = [i for i, e in enumerate(evs) if e[0] == 'stage']
    r = regs[0]
    purged = [e for e in evs if e[0] == 'purge']
    seen = []
    i = 0
    while i < r:
        e = evs[i]
        if e[0] == 'each' and element(e[1]):
            j = i + 1
            part = []
            while j < r and not (evs[j][0] == 'each' and element(evs[j][1])):
                part.append(evs[j])
                j += 1
            seen.append((e, part))
            n += one(ctx, u, e, part)
            i = j
            continue
        if e[0] in ('asked', 'pend'):
            ctx.bad(f'{u.name}: each', f'{u.name}: a request that does not stem from one of the involved resources', at(e))
        i += 1
    pend = evs[r][2][0]
    for e, part in seen:
        source(ctx, u, e, purged, evs, part)
    if seen:
        left = [e for e in evs[:r] if e[0] == 'left']
        ctx.expect(not left, f'{u.name}: all', f'{u.name}: not all involved resources are visited', at(left[0]) if left else None)
    # what was awaited is what is registered
    return n


def element(p):
    return p.endswith('.resources[]') or p.endswith('[]') and 'replies:' in p


def source(ctx, u, e, purged, evs, part_of):
    """the collection covers everyone"""
    p = e[1]
    if p.endswith('.resources[]'):
        ok = re.fullmatch(r'.*\.branches\[\]\.resources\[\]', p) and 'partition' not in p and '[0' not in p and re.search(r'transactions', p)
        if u.kind == 'prepare':
            ok = ok and purged
        ctx.expect(ok, f'{u.name}: everyone', f'{u.name}: {p} is not all resources of all branches of the transaction', at(e))
        ctx.expect('request.trid' in p or u.kind or made(evs[:evs.index(e)], p), f'{u.name}: the transaction', f'{u.name}: {p} is not the transaction of the request', at(e))
    else:
        t = strip(e[2][0])
        rng = strip(t[1]) if t[0] == 'elem' else t
        if path(rng) == 'replies:' + str(u.kind):
            # all votes: those that are asked are told apart one by one
            asked = any(x[0] in ('asked', 'pend') for x in part_of)
            voted = [x[2] for x in part_of if x[0] == 'fact' and x[1][0] == 'eq' and 'read_only' in repr(x[1][2]) and path(x[1][1]).startswith(p)]
            ctx.expect(not asked or False in voted, f'{u.name}: everyone', f'{u.name}: a resource that has voted read-only, and is out of the transaction, is asked', at(e))
            return
        part = None
        which = None
        for lamterm, lam in list(u.rule.lambdas.items()):
            if isinstance(lamterm, tuple) and contains(rng, lamterm):
                part = lam
                m = re.search(r'#(\d)', path(rng))
                which = int(m.group(1)) if m else None
        if not ctx.expect(part is not None and which is not None and 'replies:' + str(u.kind) in path(rng), f'{u.name}: everyone', f'{u.name}: {path(rng)} is not all votes that need an answer', at(e)):
            return
        active = which == 0
        x = ('sym', 'reply')
        for b, s in predicate(ctx, part, [x]):
            keys = {k: v for k, v in s.facts.items() if k[0] == 'eq' and path(k[1]) == 'reply.state'}
            ro = [v for k, v in keys.items() if 'read_only' in repr(k[2])]
            good = len(keys) == 1 and len(ro) == 1 and ro[0] == (b != active)
            ctx.expect(good, f'{u.name}: everyone', f'{u.name}: a vote other than read-only is left out, or a read-only one is not', at(e))


def idle(u, d):
    """where an instance is looked for by a predicate, that is one of being idle"""
    if 'State::idle' in d:
        return True
    P = u.rule.P
    fs = [F for F in P.funcs.values() if F.qn.endswith('State::try_reserve')]
    lams = [P.funcs[f] for F in fs for n in walk(F.body) if n['k'] == 'lambda' for f in (n['f'] if isinstance(n.get('f'), list) else [n.get('f')]) if f in P.funcs]
    return bool(lams) and all(any(n['k'] == 'ref' and (n.get('n') or '').endswith('idle') for n in walk(L.body)) and any(n.get('op') == '==' for n in walk(L.body)) for L in lams)


def one(ctx, u, e, part):
    """the request of one element"""
    p = e[1]
    ask = [x for x in part if x[0] == 'asked']
    pend = [x for x in part if x[0] == 'pend']
    skip = [x for x in part if x[0] == 'fact' and x[1][0] == 'eq' and 'read_only' in repr(x[1][2]) and x[2] and path(x[1][1]).startswith(p)]
    if not ask and not pend and skip:
        return 0
    if not ctx.expect(len(ask) == 1 and len(pend) == 1, f'{u.name}: each', f'{u.name}: an involved resource is asked {len(ask)} times and awaited {len(pend)} times', at(e)):
        return 0
    a, w = ask[0], pend[0]
    dest, res, trid, rm, state, own = a[2]
    how = a[4]
    is_reply = not p.endswith('.resources[]')
    want_trid = f'{p}.trid' if is_reply else p[:-len('.resources[]')] + '.trid'
    want_rm = f'{p}.resource' if is_reply else f'{p}.id'
    ctx.expect(path(trid) == want_trid, f'{u.name}: branch', f'{u.name}: the request carries {path(trid)} as transaction branch, and not that of the resource', at(a))
    ctx.expect(path(rm) == want_rm, f'{u.name}: resource', f'{u.name}: the request carries {path(rm)} as resource', at(a))
    d = path(strip(dest))
    if how == 'send':
        ok = re.fullmatch(r'\**try_reserve\(.*, ' + re.escape(want_rm) + r'\)\.process\.ipc', d) or re.search(r'find(_if)?\(.*find\(.*resources, ' + re.escape(want_rm) + r'\)\)\.instances, ([\w:]*State::idle|λ)\)\)\.process\.ipc$', d) and idle(u, d) or re.search(r'externals, ' + re.escape(want_rm) + r'\)+\.process\.ipc$', d)
        ctx.expect(ok, f'{u.name}: destination', f'{u.name}: the request is sent to {d}', at(a))
    elif how == 'pending':
        ctx.expect(d == want_rm, f'{u.name}: destination', f'{u.name}: the request waits for {d}', at(a))
    else:
        ctx.expect(state[0] == 'e' and state[1].endswith('::resource_fail'), f'{u.name}: emulated', f'{u.name}: the answer of a resource that is not there is {path(state)}', at(a))
    c, i = (list(w[2]) + [None, None])[:2]
    if len(w[2]) == 1 and isinstance(w[2][0], tuple) and w[2][0][0] == 'new':
        c, i = (list(w[2][0][2]) + [None, None])[:2] if not w[2][0][3] else (member(u.rule, w[2][0], 'correlation'), member(u.rule, w[2][0], 'id'))
    # (the result of a failed send is no correlation; the answer that is made up for it carries that of the request)
    ok = c is not None and (strip(c) == strip(own) or how != 'send' and strip(c) == strip(res))
    ctx.expect(ok, f'{u.name}: correlation', f'{u.name}: what is awaited is not the correlation of the request', at(w))
    ctx.expect(i is not None and path(strip(i)) == want_rm, f'{u.name}: awaited', f'{u.name}: the answer of {path(i) if i else "nobody"} is awaited', at(w))
    return 1


def asks(ctx, u):
    """what cannot be sent is answered"""
    seen = set()
    for mt, how, dest, v, site, st, F in u.rule.asks:
        if how != 'send' or site in seen:
            continue
        rec, holder, lams = v
        lam = next((x for x in lams if x[0] == 'lam'), None)
        where = f'{site[0]}:{site[1]}'
        key = (site, lam and lam[1])
        if key in seen:
            continue
        seen.add(key)
        if not ctx.expect(lam is not None, f'{u.name}: send failure', f'{u.name}: {mt} that cannot be sent is not answered', where):
            continue
        G = next((ctx.P.funcs[f] for f in lam[1] if f in ctx.P.funcs), None)
        r = Every(ctx.P)
        I = Interp(ctx.P, r, More)
        n = 0
        for k, val, s in I.run(G, (), args=[('sym', 'destination'), ('sym', 'complete')], this=lam[3], caps=lam[2]):
            if k == 'throw':
                continue
            n += 1
            es = [e for e in s.auto if e[0] == 'asked']
            good = len(es) == 1 and es[0][4] == 'emulated' and es[0][1] == mt and path(es[0][2][2]).endswith('.trid') and 'complete' in path(es[0][2][2]) and path(es[0][2][3]).endswith('.resource') and 'complete' in path(es[0][2][3]) \
                and es[0][2][4][0] == 'e' and es[0][2][4][1].endswith('::resource_fail')
            ctx.expect(good, f'{u.name}: send failure', f'{u.name}: {mt} that cannot be sent: is not answered with an error for that resource and branch', G.where())
        ctx.need(n, f'{u.name}: the failure callback has no paths')
        ctx.used(I)


def involved(ctx, u):
    """what the caller involved takes part"""
    for k, st in u.paths:
        evs = st.auto
        first = next((i for i, e in enumerate(evs) if e[0] in ('register', 'send', 'asked')), None)
        if first is None:
            continue
        g = [e for e in evs[:first] if e[0] == 'grow' and e[1].endswith('.resources') and any('request.involved' in path(x) for x in e[2])]
        ctx.expect(len(g) >= 1 and ('request.trid' in g[0][1] or made(evs[:evs.index(g[0])], g[0][1])), f'{u.name}: involved', f'{u.name}: the resources the caller involved are not added to its branch', at(evs[first]))


def made(evs, p):
    """the branch was made on the spot, with the trid of the request"""
    return any(e[0] == 'grow' and e[1].endswith('.branches') and any('request.trid' in path(x) for x in e[2]) for e in evs) or any(e[0] == 'grow' and e[1].endswith('transactions') and any('request.trid' in path(x) for x in e[2]) for e in evs)


def deliver(ctx):
    for kind in REPLIES:
        t = f'transaction_resource_{kind}_reply'
        h, r, ps = paths(ctx, t, Every)
        ctx.need(ps, f'{t}: no path')
        for k, st in ps:
            d = [e for e in st.auto if e[0] == 'deliver']
            ctx.expect(len(d) == 1 and d[0][1] == kind and path(strip(d[0][2][0])) == 'request', f'{t}: delivered', f'{t}: the answer is not handed (once) to those who wait for {kind}', h.F.where())


def adds(ctx):
    """servers and other domains that take part"""
    t = 'transaction_resource_involved_request'
    h, r, ps = paths(ctx, t, Every)
    hit = 0
    for k, st in ps:
        g = [e for e in st.auto if e[0] == 'grow' and e[1].endswith('.resources')]
        ok = False
        for e in g:
            for x in e[2]:
                p = path(x)
                for term, lam in r.lambdas.items():
                    if isinstance(term, tuple) and contains(x, term) and 'request.involved' in p and '#0' in p:
                        for b, s in predicate(ctx, lam, [('sym', 'id')]):
                            known = [v for k2, v in s.facts.items() if k2[0] == 't' and re.search(r'find\(.*resources, id\)', path(k2[1]))]
                            ctx.expect(known == [b], f'{t}: known', f'{t}: resources that are not known take part, or known ones do not', at(e))
                        ok = True
                if 'request.involved' in p and 'partition' not in p:
                    ok = True
        hit += 1
        for e in g:
            for x in e[2]:
                if 'intersection(' in path(x):
                    ctx.expect(re.search(r'intersection\(request\.involved, [^#]*\)\.#1', path(x)), f'{t}: new', f'{t}: the resources that are added are not those the branch lacks', at(e))
        ctx.expect(ok, f'{t}: added', f'{t}: the resources of the request are not added to the branch', h.F.where())
        for e in g:
            ctx.expect('request.trid' in e[1] or made(st.auto, e[1]), f'{t}: branch', f'{t}: the resources are added to another branch ({e[1]})', at(e))
    ctx.need(hit, f'{t}: no path')
    t = 'transaction_external_resource_involved'
    h, r, ps = paths(ctx, t, Every)
    for k, st in ps:
        g = [e for e in st.auto if e[0] == 'grow' and (e[1].endswith('.resources'))]
        known = [x for x, v in st.facts.items() if x[0] == 't' and v and re.search(r'find\(.*\.resources, ', path(x[1]))]
        ctx.expect(len(g) == 1 and ('externals' in path(g[0][2][0]) or 'allocate_id' in path(g[0][2][0]) or '$' in path(g[0][2][0])) or known, f'{t}: added', f'{t}: the external resource does not take part in the transaction', h.F.where())
        for e in g:
            ctx.expect('request.trid' in e[1] or made(st.auto, e[1]), f'{t}: branch', f'{t}: the resource is added to another branch ({e[1]})', at(e))


def branch(ctx):
    """Branch::involve adds what is not there, Transaction::purge removes only branches without resources, purge( replies) only what the replies name"""
    P = ctx.P
    hits = 0
    for fid, F in P.funcs.items():
        if not re.search(r'state::Transaction::purge', F.qn) and not re.search(r'transaction::Branch::(involve|remove)', F.qn):
            continue
        r = Body(P)
        I = Interp(P, r, Once)
        out = [s for k, v, s in I.run(F, (), args=[('sym', 'arg')], this=('sym', 'this')) if k != 'throw']
        ctx.used(I)
        hits += 1
        name = F.qn.rsplit('::', 1)[-1]
        for s in out:
            ev = s.auto
            if 'Branch' in F.qn and name.startswith('involve'):
                g = [e for e in ev if e[0] == 'grow' and e[1].endswith('resources')]
                there = [v for k, v in s.facts.items() if k[0] == 't' and 'resources' in path(k[1]) and 'arg' in path(k[1])]
                ctx.expect(len(g) == 1 and 'arg' in path(g[0][2][0]) or not g and any(there), f'{F.qn}: adds', f'{F.qn} does not add what is not there', F.where())
                ctx.expect(not any(e[0] == 'shrink' for e in ev), f'{F.qn}: adds', f'{F.qn} removes resources', F.where())
            elif 'Branch' in F.qn and name.startswith('remove'):
                x = [e for e in ev if e[0] == 'shrink']
                ctx.expect(len(x) == 1 and x[0][1].endswith('resources') and 'arg' in path(x[0][2][0]), f'{F.qn}: removes', f'{F.qn} does not remove the resource it is told to', F.where())
            else:
                for e in ev:
                    if e[0] == 'shrink' and e[1].endswith('branches'):
                        purged(ctx, r, F, e)
                    elif e[0] == 'shrink':
                        ok = e[2] and 'arg' in path(e[2][0]) and path(strip(e[2][0])).endswith('.resource') and 'branches' in e[1] and '.trid' in e[1]
                        ctx.expect(ok, f'{F.qn}: purge', f'{F.qn} removes {path(e[2][0]) if e[2] else "everything"} from {e[1]}', F.where())
    ctx.need(hits >= 3, 'Branch::involve, Branch::remove, Transaction::purge not found')


class Body(Every):
    watch = r'.'

    def special(self, I, fr, node, name, obj, args, st):
        if name.endswith('Transaction::purge'):
            return None
        return super().special(I, fr, node, name, obj, args, st)


def purged(ctx, r, F, e):
    """what is erased is the part without resources"""
    for v in e[2]:
        part = next((lam for t, lam in r.lambdas.items() if isinstance(t, tuple) and contains(v, t)), None)
        if part is None:
            lam = v if v[0] == 'lam' else None
            if lam is not None:
                for b, s in predicate(ctx, lam, [('sym', 'branch')]):
                    empty = [x for k, x in s.facts.items() if k[0] == 't' and 'empty' in path(k[1]) and 'resources' in path(k[1])]
                    ctx.expect(empty == [b], f'{F.qn}: purge', f'{F.qn} removes branches that have resources', F.where())
                return
            continue
        which = re.search(r'#(\d)|get\b', path(v))
        n = re.search(r'#(\d)', path(v))
        if n is None:
            continue
        for b, s in predicate(ctx, part, [('sym', 'branch')]):
            empty = [x for k, x in s.facts.items() if k[0] == 't' and 'empty' in path(k[1]) and 'resources' in path(k[1])]
            ctx.expect(empty == [b == (n.group(1) == '0')], f'{F.qn}: purge', f'{F.qn} removes branches that have resources', F.where())
        return
    ctx.bad(f'{F.qn}: purge', f'{F.qn}: what is removed from the branches is not known to be without resources: {[path(v)[:80] for v in e[2]]}', F.where())
