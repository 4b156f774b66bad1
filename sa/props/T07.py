"""the end of a transaction and of those who take part"""
from .txm_common import *
from .T02 import votes, name, counts, Dead
from .T03 import made
from ..facts import walk

PREPARE = 'transaction_resource_prepare_request'
GONE = re.compile(r'disassociate', re.I)


class End(TM):
    def special(self, I, fr, node, name, obj, args, st):
        if name.endswith('common::event::send') and args:
            return [(('c', None), self.event(st, ('announce', model.msgtype(self.P, fr.F.t(node['a'][-1])) or fr.F.t(node['a'][-1]), (I.rvalue(args[-1], st),), self.site(fr, node))))]
        return super().special(I, fr, node, name, obj, args, st)

    def on_assign(self, I, fr, node, lhs, val, st):
        self.here = fr.id
        t = dbase.tail(lhs)
        if t[-1:] == ('gtrid',) and len(t) == 1:
            return self.event(st, ('named', path(lhs), (val, ('c', owns(fr, node))), self.site(fr, node)))
        return super().on_assign(I, fr, node, lhs, val, st)


def check(ctx):
    P = load(ctx)
    ctx.rule('a path that ends a transaction (the final reply of commit or roll back, nothing to commit, nothing involved) removes it exactly once from the log and from the state and announces its global id, taken before the element is gone; no other path does; '
             'a dead external process is failed where it is awaited and where it is sent to, and is forgotten; every undecided transaction of a dead owner, and no other, is rolled back')
    ends = 0
    for u in units(ctx, TYPES, End):
        for k, s in u.paths:
            ends += ended(ctx, u, s.auto)
    ctx.expect(ends, 'end: never', 'no path ends a transaction', ctx.hs[TYPES[0]].F.where())
    externals(ctx)
    owners(ctx)


def ended(ctx, u, evs):
    finals = [e for e in evs if e[0] == 'send' and (e[1] or '').endswith('_reply') and e[4] != 'persistent']
    removed = [e for e in evs if e[0] == 'log' and e[1] == 'remove']
    w = at((finals or removed or [(0, 0, 0, (u.F.file, u.F.line))])[0])
    if u.kind in ('commit', 'rollback'):
        due = bool(finals)
    elif u.kind == 'prepare':
        due = bool(finals) and votes(evs) == {'read_only'}
    else:
        due = bool(finals) and counts(evs) == {0}
    self_made = u.kind == 'rollback' and not finals
    if due:
        ctx.expect(len(removed) == 1, f'{u.name}: removed', f'{u.name}: the transaction is over and is removed {len(removed)} times', w)
    elif not self_made:
        ctx.expect(not removed or u.kind is None, f'{u.name}: kept', f'{u.name}: the transaction is not over and is removed', w)
    if self_made and not removed:
        # the manager's own roll back
        bad = [e for e in evs if e[0] == 'fact' and e[1][0] == 'eq' and name(e[1][2]) == 'ok' and e[2] is True]
        ctx.expect(not bad, f'{u.name}: removed', f'{u.name}: the transaction is rolled back and is kept', w)
    if not removed:
        ctx.expect(not any(e[0] == 'announce' and GONE.search(e[1]) for e in evs), f'{u.name}: announced', f'{u.name}: the end of a transaction is announced, and it is not removed', w)
        return 0
    what = removed[0][2][0]
    ctx.expect(its(path(what), evs), f'{u.name}: log', f'{u.name}: {path(what)} is removed from the log', at(removed[0]))
    i = evs.index(removed[0])
    gone = [(j, e) for j, e in enumerate(evs) if e[0] == 'shrink' and e[1].endswith('transactions')]
    told = [(j, e) for j, e in enumerate(evs) if e[0] == 'announce' and GONE.search(e[1])]
    if not gone:
        # it was not there
        ctx.expect(not told, f'{u.name}: announced', f'{u.name}: the end of a transaction is announced, and it is not removed', w)
        lost = [e for e in evs if e[0] == 'fact' and e[1][0] == 't' and e[2] is False and 'transactions' in path(e[1][1])]
        return 0 if lost else 1
    j, g = gone[0]
    ctx.expect(len(gone) == 1 and all(re.search(r'find\(|prev\(|transactions', path(x)) and its(path(x), evs) for x in g[2]), f'{u.name}: state', f'{u.name}: {", ".join(path(x)[:80] for x in g[2])} is removed from the transactions', at(g))
    if ctx.expect(len(told) == 1, f'{u.name}: announced', f'{u.name}: the end of the transaction is announced {len(told)} times', at(g)):
        t, a = told[0]
        named = [(n, e) for n, e in enumerate(evs) if e[0] == 'named' and n < t]
        if named:
            n, e = named[-1]
            v = path(e[2][0])
            ctx.expect(its(v, evs), f'{u.name}: announced', f'{u.name}: {v[:80]} is announced as ended', at(e))
            ctx.expect(n < j or e[2][1] == ('c', True) or 'transactions' not in v, f'{u.name}: dangling', f'{u.name}: the id is taken from a transaction that has been erased', at(e))
        else:
            v = member(u.rule, a[2][0], 'gtrid')
            v = path(v) if v is not None else path(a[2][0])
            ctx.expect(its(v, evs), f'{u.name}: announced', f'{u.name}: the announcement does not name the transaction', at(a))
            ctx.expect(t < j or "transactions" not in v, f'{u.name}: dangling', f'{u.name}: the id is taken from a transaction that has been erased', at(a))
    return 1


def its(p, evs):
    """of the transaction of the request"""
    return 'request.trid' in p or 'transactions' in p and made(evs, p)


class Externals(Direct):
    watch = r'externals$'

    def on_fact(self, I, key, val, st):
        t = path(key[1]) + '|' + path(key[2]) if key[0] == 'eq' else path(key[1]) if key[0] == 't' else path(key)
        if 'externals' in t:
            return self.event(st, ('fact', key, val, None))
        return st

    def special(self, I, fr, node, name, obj, args, st):
        if name.endswith('Coordinate::failed'):
            return [(('c', None), self.event(st, ('failed', path(strip_hv(obj)), tuple(I.rvalue(a, st) for a in args) + (('c', copied(fr, node['a'][-1])),), self.site(fr, node))))]
        if name.endswith('container::erase_if') and len(args) > 1 and re.search(self.watch, path(args[0])):
            lam = I.read(args[1], st)
            if lam[0] == 'lam':
                out = []
                elem = ('elem', args[0])
                for v, s in I.invoke(lam, [elem], fr, I.fresh_call(elem, st), node):
                    for b, s2 in I.truth(I.read(v, s), s):
                        s3 = self.event(s2, ('gone', path(args[0]), (elem, ('c', b)), self.site(fr, node))) if b else s2
                        out.append((('c', None), s3))
                out.append((('c', None), st))
                return out
        return super().special(I, fr, node, name, obj, args, st)


def externals(ctx):
    for t in ('event_process_exit', 'event_ipc_destroyed'):
        h, r, ps = paths(ctx, t, cls=Externals)
        hit = 0
        for k, s in ps:
            evs = s.auto
            gone = [e for e in evs if e[0] in ('gone', 'shrink') and e[1].endswith('externals')]
            failed = [e for e in evs if e[0] == 'failed']
            coordinate = [e for e in failed if 'coordinate' in e[1]]
            multiplex = [e for e in failed if 'multiplex' in e[1]]
            if gone:
                hit += 1
                w = at(gone[0])
                ids = [path(strip(e[2][0])) for e in coordinate]
                whole = 'coordinate' in (coordinate[0][1].rsplit('.', 1)[-1] if coordinate else '')
                kinds = {e[1].rsplit('.', 1)[-1] for e in coordinate}
                ctx.expect(whole or kinds >= {'prepare', 'commit', 'rollback'}, f'{t}: awaited', f'{t}: an external process is gone, and its answers are still awaited ({", ".join(sorted(kinds)) or "nothing"} failed)', w)
                ctx.expect(all(x.endswith('.id') and 'externals' in x for x in ids), f'{t}: awaited', f'{t}: the resource that is failed is {ids}', w)
                ctx.expect(any('process.ipc' in path(e[2][0]) for e in multiplex), f'{t}: sends', f'{t}: an external process is gone, and what waits to be sent to it is kept', w)
                if t == 'event_process_exit':
                    ok = any(e[0] == 'fact' and e[1][0] == 'eq' and {path(e[1][1]).rsplit('.', 1)[-1], path(e[1][2]).rsplit('.', 1)[-1]} == {'pid'} and 'request' in path(e[1][1]) + path(e[1][2]) and e[2] is True for e in evs)
                    ctx.expect(ok, f'{t}: which', f'{t}: an external process is forgotten, and it is not the one that died', w)
                else:
                    early = [e for e in coordinate if evs.index(e) > evs.index(gone[0]) and e[2][-1] != ('c', True)]
                    ctx.expect(not early, f'{t}: dangling', f'{t}: the external process is used after it is forgotten', at(early[0]) if early else w)
                    ctx.expect(all('find(' in path(x) and 'request.process' in path(x) for x in gone[0][2]), f'{t}: which', f'{t}: an external process is forgotten, and it is not the one that is gone', w)
            else:
                ctx.expect(not coordinate, f'{t}: kept', f'{t}: a resource is failed and not forgotten', at(coordinate[0]) if coordinate else None)
        ctx.expect(hit, f'{t}: external', f'{t}: an external process that is gone is not forgotten', h.F.where())


def owners(ctx):
    t = 'event_process_exit'
    h, r, ps = paths(ctx, t, cls=Dead)
    hit = 0
    for k, s in ps:
        evs = s.auto
        for i, e in enumerate(evs):
            if e[0] != 'direct':
                continue
            hit += 1
            ctx.expect(e[1] == 'transaction_rollback_request', f'{t}: rolled back', f'{t}: the death of the owner starts {e[1]}', at(e))
            trid, proc = member(r, e[2][0], 'trid'), member(r, e[2][0], 'process')
            ctx.expect(trid is not None and ('transactions' in path(trid) or path(trid).endswith('[]')), f'{t}: rolled back', f'{t}: what is rolled back is {path(trid) if trid else "nothing"}', at(e))
    ctx.expect(hit, f'{t}: owner', f'{t}: the transactions of a dead owner are not rolled back', h.F.where())
    mine = 0
    for k, s in ps:
        for i, e in enumerate(s.auto):
            if e[0] == 'grow' and any('transactions' in path(x) for x in e[2]):
                mine += 1
                ok = any(x[0] == 'fact' and x[1][0] == 'eq' and x[2] is True and 'owner' in path(x[1][1]) + path(x[1][2]) and 'request.state.pid' in path(x[1][1]) + path(x[1][2]) for x in s.auto[:i])
                ctx.expect(ok, f'{t}: owner', f'{t}: a transaction of another owner is rolled back', at(e))
    ctx.expect(mine, f'{t}: owner', f'{t}: no transaction is selected', h.F.where())
