"""Shared by the transaction manager properties: what happens on the paths of its handlers, stored continuations included."""
import re
from .. import model, facts
from ..interp import Interp, Limits, path, root, strip_hv, contains, dedupe
from ..rules import dbase
from ..rules.replies import SENDS, PUSH, FANOUT, strip
from ..rules.grow import Tracks
from ..facts import AnalysisError, walk
from .common_replies import fact, eq

ASK = re.compile(r'^transaction_resource_(prepare|commit|rollback)_request$')
PENDING_REQUESTS = re.compile(r'requests$')


class More(Limits):
    states = 200
    steps = 3000000


class TM(Tracks, dbase.Uses):
    try_may_throw = False
    watch = r'\.transactions$|\.externals$|transactions\b|externals\b'

    def __init__(self, P):
        super().__init__(P, {})
        self.asks, self.ends, self.regs = [], [], []
        self.maps = {}

    def site(self, fr, node):
        return (fr.F.file, node.get('l'))

    def ask(self, I, fr, node, mt, how, dest, v, st):
        self.asks.append((mt, how, dest, v, self.site(fr, node), st, fr.F))
        if how == 'failed':
            return self.event(st, ('ask', mt, ('failed',), self.site(fr, node)))
        e = ('ask', mt, (), None, ('in', fr.id))
        return st if e in st.auto else st.with_auto(st.auto + (e,))

    def special(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        m = re.search(r'transaction::manager::Log::(\w+)$', name)
        if m and m.group(1) in ('prepare', 'remove', 'persist'):
            return [(('c', None), self.event(st, ('log', m.group(1), tuple(I.rvalue(a, st) for a in args), s)))]
        if name.endswith(('signal::timer::set', 'signal::timer::unset')):
            return [(('c', None), st)]
        if name.endswith('Transaction::resource_count') and self.sums(node):
            return [(('call', name, (obj,), None), st)]
        if name.endswith('message::reverse::type') and args:
            d = model.defaults(self.P, fr.F.t(node))
            v = ('call', name, (I.rvalue(args[0], st),), None)
            return [(('upd', v, tuple(sorted(d.items()))) if d else v, st)]
        if name.endswith('algorithm::accumulate') and len(args) == 3 and I.read(args[2], st)[0] == 'lam':
            return self.accumulate(I, fr, node, name, args, st)
        if name.endswith('algorithm::container::erase_if') and args:
            t = path(args[0])
            if re.search(self.watch, t):
                st = self.event(st, ('shrink', t, tuple(I.rvalue(a, st) for a in args[1:]), s))
        for rx, di, mi in SENDS:
            if rx.search(name) and len(args) > max(di or 0, mi):
                mt = model.msgtype(self.P, fr.F.t(node['a'][mi]))
                v, d = I.rvalue(args[mi], st), I.rvalue(args[di or 0], st)
                res = ('call', name, (), I.site(fr, node))
                st = I.fresh_call(res, st)
                self.result = res
                holder = path(obj) if obj is not None else ''
                if mt and ASK.match(mt):
                    how = 'pending' if PENDING_REQUESTS.search(holder) else 'send'
                    lams = [I.read(a, st) for a in args[mi + 1:]]
                    return [(res, self.ask(I, fr, node, mt, how, d, (v, holder, lams), st))]
                kind = 'persistent' if 'pending' in name else 'send'
                return [(res, self.event(st, ('send', mt, (d, v), s, kind)))]
        if PUSH.search(name) and args:
            mt = model.msgtype(self.P, fr.F.t(node['a'][0]))
            v = I.rvalue(args[0], st)
            res = ('call', name, (), I.site(fr, node))
            self.result = res
            if mt and ASK.match(mt.replace('_reply', '_request')):
                return [(res, self.ask(I, fr, node, mt.replace('_reply', '_request'), 'emulated', None, (v, '', []), st))]
            return [(res, self.event(st, ('push', mt, (v,), s)))]
        if name.endswith('Holder::send') or re.search(r'pending::basic_holder<.*>::send$', name):
            return [(('c', None), self.event(st, ('flush', path(obj) if obj is not None else '', (), s)))]
        if FANOUT.search(name) and args and I.read(args[-1], st)[0] == 'lam':
            kind = path(strip_hv(obj)).rsplit('.', 1)[-1]
            lam = I.read(args[-1], st)
            st = self.event(st, ('register', kind, (I.rvalue(args[0], st),), s))
            self.regs.append((kind, I.rvalue(args[0], st), lam, s, st))
            return [(('c', None), I.havoc(obj, I.site(fr, node), st))]
        if FANOUT.search(name) and len(args) == 1:
            return [(('c', None), self.event(st, ('deliver', path(strip_hv(obj)).rsplit('.', 1)[-1], (I.rvalue(args[0], st),), s)))]
        if re.search(r'fan::Out<.*>::failed$', name) or name.endswith('Coordinate::failed'):
            return [(('c', None), self.event(st, ('failed', path(strip_hv(obj)), tuple(I.rvalue(a, st) for a in args), s)))]
        if re.search(r'send::Coordinator::failed$', name):
            return [(('c', None), self.event(st, ('failed', path(strip_hv(obj)), tuple(I.rvalue(a, st) for a in args), s)))]
        if name.endswith('Transaction::failed'):
            return [(('c', None), self.event(st, ('failed', path(strip_hv(obj)), tuple(I.rvalue(a, st) for a in args), s)))]
        s2 = self.track(I, fr, node, name, obj, args, st)
        if s2 is not st:
            t = obj if obj is not None else args[0]
            return [(('call', name, (t,), I.site(fr, node)), I.havoc(t, I.site(fr, node), s2))]
        return None

    def sums(self, node):
        """the number of resources is added up by a loop over the branches"""
        G = self.P.funcs.get(node.get('f'))
        ns = list(walk(G.body)) if G is not None else []
        adds = [n for n in ns if n.get('op') == '+=']
        return any(n['k'] in ('rfor', 'for', 'while') for n in ns) and len(adds) == 1 and any(n['k'] == 'mem' and n.get('n') == 'resources' for n in walk(adds[0]))

    def accumulate(self, I, fr, node, name, args, st):
        rng, init, lam = I.read(args[0], st), I.rvalue(args[1], st), I.read(args[2], st)
        elem = ('elem', rng)
        out = [(init, st)]
        s0 = self.on_element(I, fr, node, elem, I.fresh_call(elem, st))
        for v, s2 in I.invoke(lam, [init, elem], fr, s0, node):
            # what was decided for one element is not known afterwards
            keep = {k: x for k, x in s2.facts.items() if st.facts.get(k) == x}
            out.append((('call', name, (rng, I.rvalue(v, s2)), None), type(s2)(s2.heap, keep, s2.auto)))
        if init[0] == 'c':
            # a sum
            return dedupe([(v, s) for v, s in out[1:]])
        return dedupe(out)

    def on_element(self, I, fr, node, elem, st):
        self.here = fr.id
        p = path(strip(elem))
        if re.search(r'branches|resources|replies|transactions', p):
            return self.event(st, ('each', p, (elem,), self.site(fr, node)))
        return st

    def on_loop(self, I, fr, node, st):
        self.here = fr.id
        return st

    def on_assign(self, I, fr, node, lhs, val, st):
        self.here = fr.id
        t = dbase.tail(lhs)
        if t[-1:] == ('stage',) and root(lhs)[0] != 'v':
            return self.event(st, ('stage', path(lhs), (val,), self.site(fr, node)))
        return st

    def on_fact(self, I, key, val, st):
        t = path(key[1]) + ' ' + (path(key[2]) if len(key) > 2 and isinstance(key[2], tuple) else '') if key[0] in ('t', 'eq') else path(key)
        if mentions(key, 'v') or re.search(r'try_reserve|externals|\.resource\b', t):
            return st
        if re.search(r'\.stage\b|branches.*resources|resource_count|^code\(|outcome:', t) or 'replies:' in t and not mentions(key, 'elem'):
            return self.event(st, ('fact', key, val, None))
        return st


def mentions(t, kind):
    if isinstance(t, tuple) and t:
        return t[0] == kind or any(mentions(x, kind) for x in t if isinstance(x, tuple))
    return False


def load(ctx, *more):
    P = ctx.load('transaction/*', *more)
    ctx.rel = facts.relevant(P, lambda F, n: F.file.startswith('transaction/') and (
        n['k'] == 'call' and interesting(F.name(n)) or n['k'] == 'mem' and n.get('n') in ('stage', 'owner', 'transactions', 'externals', 'execution')))
    ctx.hs = {}
    for h in model.handlers(P, r'^transaction/source/manager/'):
        ctx.hs.setdefault(h.type, h)
    return P


def interesting(n):
    return bool(n and (any(rx.search(n) for rx, _, _ in SENDS) or PUSH.search(n) or FANOUT.search(n) or re.search(r'Holder::send$|basic_holder<.*>::send$|Log::|::failed$', n)))


def paths(ctx, t, cls=TM, limits=None):
    """handler, rule, paths of the handler itself"""
    h = ctx.hs.get(t)
    ctx.need(h is not None, f'no handler of {t} found')
    r = cls(ctx.P)
    I = Interp(ctx.P, r, limits or More, relevant=ctx.rel)
    out = I.run(h.F, (), args=[('sym', 'request')], this=h.lam[3], caps=h.lam[2])
    ctx.used(I)
    ctx.count('handlers')
    ctx.count('paths', len(out))
    return h, r, [(k, s) for k, v, s in out if k != 'throw']


def member(rule, v, m):
    """value of a member of a record, None when not known"""
    while isinstance(v, tuple) and v and v[0] in ('upd', 'hv', 'bool'):
        if v[0] == 'upd' and m in dict(v[2]):
            return dict(v[2])[m]
        v = v[1]
    if isinstance(v, tuple) and v and v[0] == 'new' and v[3] and m in v[3]:
        return v[2][v[3].index(m)]
    return None


def predicate(ctx, lam, args):
    """[(True|False, state)] of a predicate called with args"""
    F = next((ctx.P.funcs[f] for f in lam[1] if f in ctx.P.funcs), None)
    if F is None:
        return []
    r = TM(ctx.P)
    I = Interp(ctx.P, r, More)
    out = []
    for k, v, s in I.run(F, (), args=args, this=lam[3], caps=lam[2]):
        if k == 'ret':
            out += I.truth(I.read(v, s), s)
    ctx.used(I)
    return out


def continuation(ctx, kind, lam, cls=TM, limits=None):
    """rule, paths of a stored continuation: anything may have happened to the state since it was stored"""
    r = cls(ctx.P)
    I = Interp(ctx.P, r, limits or More, relevant=ctx.rel)
    F = next((ctx.P.funcs[f] for f in lam[1] if f in ctx.P.funcs), None)
    ctx.need(F is not None, 'the continuation has no body')
    out = I.run(F, (), args=[('sym', 'replies:' + kind), ('sym', 'outcome:' + kind)], this=lam[3], caps=lam[2])
    ctx.used(I)
    ctx.count('continuations')
    ctx.count('paths', len(out))
    return F, r, [(k, s) for k, v, s in out if k != 'throw']


def registered(r):
    """[(kind, pendings, lambda, where, state)] one per distinct registration"""
    seen, out = set(), []
    for kind, p, lam, s, st in r.regs:
        k = (kind, lam[1], s)
        if k not in seen:
            seen.add(k)
            out.append((kind, p, lam, s, st))
    return out


class Direct(TM):
    """a handler that is called with a message made on the spot is an event"""

    def on_call(self, I, fr, node, name, obj, args, st):
        if obj is not None and args and node.get('a') and I.read(obj, st)[0] == 'lam':
            mt = model.msgtype(self.P, fr.F.t(node['a'][0]))
            if mt and mt.startswith('transaction_') and mt.endswith('_request'):
                self.here = fr.id
                return [(('c', None), self.event(st, ('direct', mt, (I.rvalue(args[0], st),), self.site(fr, node))))]
        return super().on_call(I, fr, node, name, obj, args, st)


class Unit:
    """a handler or a stored continuation, with its paths"""

    def __init__(self, name, kind, F, rule, paths, origin, reg=None):
        self.name, self.kind, self.F, self.rule, self.paths, self.origin, self.reg = name, kind, F, rule, paths, origin, reg


def units(ctx, types, cls=TM, limits=None):
    """the handlers and, transitively, the continuations they register"""
    out = []
    for t in types:
        h, r, ps = paths(ctx, t, cls, limits)
        u = Unit(t, None, h.F, r, ps, t)
        out.append(u)
        todo = [(u, x) for x in registered(r)]
        seen = set()
        while todo:
            parent, (kind, p, lam, s, st) = todo.pop(0)
            if (kind, lam[1], s) in seen:
                continue
            seen.add((kind, lam[1], s))
            F, r2, ps2 = continuation(ctx, kind, lam, cls, limits)
            c = Unit(f'{t}, when {kind} is answered', kind, F, r2, ps2, t, (parent, p, lam, s))
            out.append(c)
            todo += [(c, x) for x in registered(r2)]
    return out


TYPES = ('transaction_commit_request', 'transaction_rollback_request', 'transaction_resource_prepare_request', 'transaction_resource_commit_request', 'transaction_resource_rollback_request')


def at(e):
    return f'{e[3][0]}:{e[3][1]}'


def owns(fr, node):
    """the right hand side is a local copy"""
    return copied(fr, node['a'][-1] if node.get('a') else node.get('r'))


def copied(fr, rhs):
    refs = [n for n in walk(rhs)] if rhs else []
    refs = [n for n in refs if n['k'] == 'ref' and n.get('dk') in ('var', 'parm')]
    if not refs or any(n['k'] == 'mem' for n in walk(rhs)):
        return False
    ts = [fr.F.t(n) or '' for n in refs]
    return bool(ts) and all(t and not re.search(r'&|\*|[Rr]ange|[Ss]pan|[Vv]iew', t) for t in ts)
