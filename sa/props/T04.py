"""the caller is told what happened: the reply carries the severest of all the answers"""
from .txm_common import *
from ..interp import Rule

REPLY = re.compile(r'^transaction_(commit|rollback|resource_prepare|resource_commit|resource_rollback)_reply$')


def last(v):
    v = strip(v) if v is not None else None
    return v[1].rsplit('::', 1)[-1] if isinstance(v, tuple) and v and v[0] == 'e' else None


def check(ctx):
    P = load(ctx, 'common/source/code/xa.cpp', 'common/source/code/convert.cpp')
    ctx.rule('every reply of commit, rollback and the resource requests carries the code accumulated from the answers (of the votes too, when it rolls back), or one implied by what was tested on the path; '
             'accumulation takes the severest of the seed and all answers, and of an error when a resource failed; severity ranks heuristics and errors above ok and read-only; the conversion to tx codes makes nothing but ok of ok and of nothing else')
    n = 0
    for u in units(ctx, TYPES):
        for k, st in u.paths:
            for i, e in enumerate(st.auto):
                if e[0] == 'send' and e[1] and REPLY.match(e[1]):
                    n += 1
                    reply(ctx, u, st, i, e)
    ctx.need(n, 'no replies found')
    accumulation(ctx)
    tables(ctx)


def reply(ctx, u, st, i, e):
    dest, v = e[2]
    m = lambda x: member(u.rule, v, x)
    w = at(e)
    mt = e[1]
    ctx.expect(mt == u.origin.replace('_request', '_reply'), f'{u.name}: type', f'{u.name}: {u.origin} is answered with {mt}', w)
    ctx.expect(path(strip(dest)) in ('request.process.ipc', 'request.process'), f'{u.name}: destination', f'{u.name}: the reply is sent to {path(dest)}', w)
    ctx.expect(m('trid') is not None and path(strip(m('trid'))) == 'request.trid', f'{u.name}: trid', f'{u.name}: the reply does not carry the trid of the request', w)
    c = m('correlation')
    ctx.expect(path(strip(c)) == 'request.correlation' if c is not None else 'type(request)' in path(v) or reversed_(v), f'{u.name}: correlation', f'{u.name}: the reply does not carry the correlation of the request', w)
    if 'resource' in mt:
        ctx.expect(m('resource') is not None and path(strip(m('resource'))) == 'request.resource', f'{u.name}: resource', f'{u.name}: the reply does not name the resource', w)
    s = m('state')
    if not ctx.expect(s is not None, f'{u.name}: state', f'{u.name}: the reply carries no state', w):
        return
    s = strip(s)
    local = 'resource' not in mt
    x = s
    if local:
        if s[0] == 'call' and s[1].endswith('convert::to::tx'):
            x = strip(s[2][0])
        elif s[0] != 'e':
            ctx.bad(f'{u.name}: state', f'{u.name}: the state of the reply is {path(s)}', w)
            return
    evs = st.auto[:i]
    if u.kind is None:
        # answered at once
        if x[0] == 'e' and last(x) in ('ok', 'read_only'):
            stale = gone(st, evs)
            ctx.expect(stale or not local and late(evs), f'{u.name}: state', f'{u.name}: answers {last(x)}, and it is not known that there is nothing to do', w)
        else:
            ctx.expect(x[0] == 'e', f'{u.name}: state', f'{u.name}: the state of the reply is {path(x)}', w)
    else:
        code(ctx, u, st, x, w)
    if mt == 'transaction_commit_reply':
        g = last(m('stage'))
        want = {'commit': 'commit', 'rollback': 'rollback', None: 'commit', 'prepare': 'prepare' if e[4] == 'persistent' else 'commit'}[u.kind]
        ctx.expect(g == want, f'{u.name}: stage', f'{u.name}: the reply says stage {g}, it is {want}', w)


def reversed_(v):
    while isinstance(v, tuple) and v and v[0] in ('upd', 'hv', 'bool'):
        v = v[1]
    return isinstance(v, tuple) and v and v[0] == 'call' and v[1].endswith('reverse::type') and path(v[2][0]) == 'request'


def gone(st, evs):
    """the transaction is not known, or has no resources"""
    from .T02 import counts
    if counts(evs) == {0}:
        return True
    return any(k[0] == 't' and not b and re.search(r'find\(.*transactions, request\.trid\)', path(k[1])) for k, b in st.facts.items())


def late(evs):
    """the transaction is past the stage, someone else got that answer"""
    from .T02 import stages
    return 'involved' not in stages(evs)


def code(ctx, u, st, x, w):
    """the accumulated code"""
    acc = f'code(replies:{u.kind}, outcome:{u.kind}'
    if x[0] == 'e':
        # implied by what was tested
        f = [(k, b) for k, b in st.facts.items() if k[0] == 'eq' and b and path(k[1]).startswith(acc) and k[2][0] == 'e']
        ok = any(last(k[2]) == last(x) or last(k[2]) == 'invalid_xid' and last(x) == 'read_only' or last(k[2]) in ('ok', 'read_only') and last(x) == 'ok' for k, b in f)
        ctx.expect(ok, f'{u.name}: state', f'{u.name}: the reply says {last(x)} whatever the resources answered', w)
        return
    if not ctx.expect(x[0] == 'call' and path(x).startswith(acc), f'{u.name}: state', f'{u.name}: the state of the reply is {path(x)}, not what the answers amount to', w):
        return
    seed = strip(x[2][2]) if len(x[2]) > 2 else None
    if u.kind == 'rollback' and u.reg and u.reg[0].kind == 'prepare':
        ctx.expect(seed is not None and path(seed).startswith('code(replies:prepare, outcome:prepare'), f'{u.name}: votes', f'{u.name}: the reply does not tell why it was rolled back', w)
    else:
        ctx.expect(seed is None or last(seed) in ('read_only', 'ok') or path(seed).startswith('code('), f'{u.name}: seed', f'{u.name}: the accumulation starts with {path(seed) if seed else ""}', w)


class Acc(dbase.Uses):
    def __init__(self, P):
        super().__init__(P, {})
        self.lams = {}

    def on_element(self, I, fr, node, elem, st):
        if path(elem).startswith('replies'):
            return self.event(st, ('each', path(elem), (), self.here_(fr, node)))
        return st

    def here_(self, fr, node):
        self.here = fr.id
        return (fr.F.file, node.get('l'))

    def on_leave(self, I, fr, node, kind, st):
        if any(e[0] == 'each' and e[3] == self.here_(fr, node) for e in st.auto):
            return self.event(st, ('left', kind, (), self.here_(fr, node)))
        return st

    def on_call(self, I, fr, node, name, obj, args, st):
        if name.endswith('code::severest'):
            return [(('call', name, tuple(I.rvalue(a, st) for a in args), None), st)]
        if name.endswith('algorithm::accumulate') and len(args) == 3:
            lam = I.read(args[2], st)
            t = ('call', name, (I.rvalue(args[0], st), I.rvalue(args[1], st)), None)
            self.lams.setdefault('acc', []).append((lam, fr.F.where(node)))
            out = []
            for v, s in I.invoke(lam, [('sym', 'acc'), ('sym', 'reply')], fr, st, node):
                out.append(leaves(I.rvalue(v, s)))
            self.lams.setdefault('folds', []).append((out, fr.F.where(node)))
            return [(t, st)]
        if re.search(r'algorithm::(any_of|none_of|all_of|find_if|count_if)$', name) and len(args) == 2:
            lam = I.read(args[1], st)
            out = []
            for v, s in I.invoke(lam, [('sym', 'one')], fr, st, node):
                for b, s2 in I.truth(I.read(v, s), s):
                    f = {k: x for k, x in s2.facts.items() if k[0] == 'eq' and path(k[1]) == 'one.state'}
                    out.append((b, [(last(k[2]), x) for k, x in f.items()]))
            self.lams.setdefault('any', []).append((name.rsplit('::', 1)[-1], out, fr.F.where(node)))
            return [(('call', name, (I.rvalue(args[0], st), ('sym', 'failed?')), None), st)]
        if name.endswith('::size') and args:
            return None
        return None


def leaves(t):
    """what the severest is taken of"""
    t = strip(t)
    if isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('severest'):
        return leaves(t[2][0]) | leaves(t[2][1])
    if isinstance(t, tuple) and t and t[0] == 'call' and t[1].endswith('accumulate'):
        return leaves(t[2][1]) | {('all', path(t[2][0]))}
    if isinstance(t, tuple) and t and t[0] == 'e':
        return {('const', last(t))}
    return {('value', path(t))}


SEVERE = {'resource_fail', 'resource_error', 'heuristic_hazard', 'heuristic_mix', 'heuristic_commit', 'heuristic_rollback'}


def accumulation(ctx):
    P = ctx.P
    n = 0
    for F in P.named(r'detail::accumulate::code$'):
        kind = next((k for k in ('prepare', 'commit', 'rollback') if f'transaction_resource_{k}_reply' in F.id or f'resource::{k}' in F.id or any(k in F.ptype(i) for i in (0,))), None)
        r = Acc(P)
        I = Interp(P, r, More)
        out = I.run(F, (), args=[('sym', 'replies'), ('sym', 'outcome'), ('sym', 'seed')])
        ctx.used(I)
        n += 1
        visits, taken = set(), []
        for k, v, s in out:
            if k == 'throw':
                continue
            if not ctx.expect(k == 'ret' and v is not None, f'{kind}: code', f'accumulate::code ({kind}) gives no code', F.where()):
                continue
            ls = leaves(I.rvalue(v, s))
            failed = {'any_of': True, 'none_of': False, 'find_if': True, 'count_if': True}
            f = None
            for key, b in s.facts.items():
                if key[0] == 't' and 'failed?' in path(key[1]):
                    nm = key[1][1].rsplit('::', 1)[-1]
                    f = b == failed.get(nm, True)
            single = any(key[0] == 'eq' and b and 'outcome' in path(key[1]) and key[2] == ('c', 1) for key, b in s.facts.items())
            consts = {x[1] for x in ls if x[0] == 'const'}
            ctx.expect(('value', 'seed') in ls, f'{kind}: seed', f'accumulate::code ({kind}) forgets the code it starts with', F.where())
            if f is False or not (f and single):
                each = any(e[0] == 'each' for e in s.auto)
                if each:
                    visits.add((f, single))
                taken.append((('all', 'replies') in ls or ('value', 'replies[].state') in ls and not any(e[0] == 'left' for e in s.auto), each, (f, single)))
            if f is not False:
                ctx.expect(consts & SEVERE, f'{kind}: failed', f'accumulate::code ({kind}): a resource that failed to answer does not count', F.where())
            else:
                ctx.expect(not consts - {'read_only'}, f'{kind}: invented', f'accumulate::code ({kind}): {sorted(consts)} counts when all resources answered', F.where())
        for full, each, key in taken:
            # no answers at all: nothing to take into account, if others do it
            ctx.expect(full or not each and key in visits, f'{kind}: answers', f'accumulate::code ({kind}) does not take all answers into account', F.where())
        for nm, res, where in r.lams.get('any', []):
            for b, fs in res:
                want = [('failed', b)] if nm != 'all_of' else [('failed', not b)]
                ctx.expect(fs == want, f'{kind}: failed', f'accumulate::code ({kind}): who failed is decided by {fs}', where)
        for fold, where in r.lams.get('folds', []):
            for ls in fold:
                ctx.expect(ls == {('value', 'acc'), ('value', 'reply.state')}, f'{kind}: fold', f'accumulate::code ({kind}): an answer does not count ({sorted(ls)})', where)
    ctx.need(n >= 3, 'accumulate::code for prepare, commit and rollback not found')


class Tables(Rule):
    def open(self, F):
        return '/code/' in F.file

    def on_call(self, I, fr, node, name, obj, args, st):
        if name in ('std::min', 'std::max') and len(args) >= 2:
            a, b = I.rvalue(args[0], st), I.rvalue(args[1], st)
            if a[0] == b[0] == 'e':
                x = (a, b) if int(a[2]) <= int(b[2]) else (b, a)
                return [(x[0] if name == 'std::min' else x[1], st)]
        return None


def evaluate(ctx, F, *args):
    I = Interp(ctx.P, Tables(), Limits)
    vs = set()
    for k, v, s in I.run(F, (), args=list(args)):
        if k == 'ret':
            vs.add(I.rvalue(v, s))
    ctx.used(I)
    return last(next(iter(vs))) if len(vs) == 1 else None


def tables(ctx):
    P = ctx.P
    enum = next((e for n, e in P.enums.items() if n.endswith('common::code::xa')), None)
    ctx.need(enum is not None, 'enum code::xa not found')
    q = next(n for n in P.enums if n.endswith('common::code::xa'))
    cs = {c[0]: ('e', f'{q}::{c[0]}', c[1]) for c in enum['c']}
    sev = [F for F in P.named(r'common::code::severest$')]
    tx = [F for F in P.named(r'code::convert::to::tx$')]
    ctx.need(len(sev) == 1 and len(tx) == 1, 'severest or convert::to::tx not found')
    sev, tx = sev[0], tx[0]
    good = {'ok', 'read_only'}
    heur = {'heuristic_hazard', 'heuristic_mix', 'heuristic_commit', 'heuristic_rollback'}
    rank = {}
    for a, va in cs.items():
        for b, vb in cs.items():
            r = evaluate(ctx, sev, va, vb)
            ctx.count('table_entries')
            ctx.expect(r in (a, b), 'severest: one of both', f'severest( {a}, {b}) is {r}', sev.where())
            rank[a, b] = r
            if a != b:
                if a in good and b not in good:
                    ctx.expect(r == b, 'severest: ok', f'severest( {a}, {b}) is {r}', sev.where())
                if a in heur and b not in heur:
                    ctx.expect(r == a, 'severest: heuristic', f'severest( {a}, {b}) is {r}', sev.where())
                if a in ('resource_fail', 'resource_error') and b.startswith('rollback_'):
                    ctx.expect(r == a, 'severest: resource', f'severest( {a}, {b}) is {r}', sev.where())
    for a in cs:
        for b in cs:
            ctx.expect(rank[a, b] == rank[b, a], 'severest: order', f'severest( {a}, {b}) depends on the order of its arguments', sev.where())
    ctx.expect(rank['ok', 'read_only'] == 'ok', 'severest: read only', 'severest( ok, read_only) is not ok', sev.where())
    for a, va in cs.items():
        r = evaluate(ctx, tx, va)
        ctx.count('table_entries')
        ctx.expect(r is not None and (r == 'ok') == (a in good), 'tx: ok', f'the answer {a} is reported as {r}', tx.where())
        if a in heur:
            ctx.expect(r in ('hazard', 'mixed'), 'tx: heuristic', f'the answer {a} is reported as {r}', tx.where())
        if a in ('resource_fail', 'resource_error'):
            ctx.expect(r == 'fail', 'tx: fail', f'the answer {a} is reported as {r}', tx.where())
