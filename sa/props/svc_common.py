"""Shared by the service manager properties: what happens on the paths of its handlers, stored continuations included."""
import re
from .. import model, facts
from ..interp import Interp, Limits, path, root, strip_hv, contains, dedupe
from ..rules import dbase
from ..rules.replies import SENDS, PUSH, FANOUT, strip
from ..rules.grow import Tracks
from ..facts import AnalysisError, walk
from .txm_common import member, mentions, at, copied

IDS = re.compile(r'(m_sequential|m_concurrent|sequential\(.*\)|concurrent\(.*\)|indexes\(.*\))$')
LOOKUP = 'service_name_lookup_request'


class More(Limits):
    states = 200
    steps = 3000000


class Once(More):
    loop = 1


def novars(t):
    if isinstance(t, tuple) and t:
        return ('sym', 'local') if t[0] == 'v' else tuple(novars(x) for x in t)
    return t


def none(v):
    """an optional without value"""
    return v[0] == 'new' and (not v[2] or 'nullopt' in repr(v[2][0]))


class SM(Tracks, dbase.Uses):
    try_may_throw = False
    watch = r'(lookups|timeout_instances|disabled|associations|associations.*second|m_entries|m_services|m_sequential|m_concurrent|sequential|concurrent)$'
    facts_of = r'\.idle|m_reserved_service|disabled|timeout_instances|\.lookups|m_entries|has_sequential|has_concurrent|semantic|requester|\.no_reply|no_reply|correlation|services|associations|m_caller|contract'
    again = True     # a nested lookup is an event

    def __init__(self, P):
        super().__init__(P, {})
        self.callbacks, self.regs = [], []

    def site(self, fr, node):
        return (fr.F.file, node.get('l'))

    def looks(self, fr, node, G):
        """a call that looks a service up for a request"""
        if not self.again or G is None or 'lookup' not in (G.qn or '') and False:
            return None
        for i, a in enumerate(node.get('a') or []):
            if a is not None and model.msgtype(self.P, fr.F.t(a)) == LOOKUP:
                return i
        return None

    def reserves(self):
        r = getattr(self.P, '_reserves', None)
        if r is None:
            r = self.P._reserves = facts.relevant(self.P, lambda F, n: n['k'] == 'call' and (F.name(n) or '').endswith('instance::Sequential::reserve'))
        return r

    def special(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        ev = lambda tag, what, vals=(): self.event(st, (tag, what, tuple(vals), s))
        vals = lambda xs: tuple(I.rvalue(a, st) for a in xs)
        m = re.search(r'instance::Sequential::(reserve|unreserve|discard|consume)$', name)
        if m:
            st = ev(m.group(1), path(strip_hv(obj)), vals(args) + (I.rvalue(obj, st),))
            t = ('call', name, (strip_hv(obj),) + vals(args), I.site(fr, node))
            return [(t, I.havoc(obj, I.site(fr, node), I.fresh_call(t, st)))]
        if name.endswith(('signal::timer::set', 'signal::timer::unset')):
            return [(('c', None), ev('timer', name.rsplit('::', 1)[-1], vals(args)))]
        m = re.search(r'pending::Deadline::(add|remove|find_entry|expired)$', name)
        if m:
            t = ('call', 'Deadline::' + m.group(1), tuple(novars(x) for x in vals(args)), I.site(fr, node))
            st = I.fresh_call(t, st)
            st = self.event(st, ('deadline', m.group(1), vals(args) + (t,), s))
            return [(t, I.havoc(obj, I.site(fr, node), st) if m.group(1) != 'find_entry' else st)]
        if name.endswith('message::reverse::type') and args:
            d = model.defaults(self.P, fr.F.t(node))
            v = ('call', name, (I.rvalue(args[0], st),), None)
            return [(('upd', v, tuple(sorted(d.items()))) if d else v, st)]
        if name.endswith('common::event::send') and args:
            return [(('c', None), ev('announce', model.msgtype(self.P, fr.F.t(node['a'][-1])) or fr.F.t(node['a'][-1]), (I.rvalue(args[-1], st),)))]
        if name.endswith('domain::discovery::request'):
            t = ('call', 'discovery::request', vals(args), I.site(fr, node))
            return [(t, self.event(I.fresh_call(t, st), ('discover', '', vals(args) + (t,), s)))]
        if self.again and node.get('f') in self.reserves():
            i = self.looks(fr, node, self.P.funcs.get(node.get('f')))
            if i is not None:
                st = self.event(st, ('lookup', '', (I.rvalue(args[i], st),) + vals(args[i + 1:]), s))
                return [(('call', name, vals(args), I.site(fr, node)), I.havoc(('sym', 'State:state'), I.site(fr, node), st))]
        for rx, di, mi in SENDS:
            if rx.search(name) and len(args) > max(di or 0, mi):
                mt = model.msgtype(self.P, fr.F.t(node['a'][mi]))
                v, d = I.rvalue(args[mi], st), I.rvalue(args[di or 0], st)
                res = ('call', name, (), I.site(fr, node))
                st = I.fresh_call(res, st)
                lams = tuple(x for a in args[mi + 1:] for x in [I.read(a, st)] if x[0] == 'lam')
                st = self.event(st, ('send', mt, (d, v) + lams, s))
                for l in lams:
                    self.callbacks.append((mt, l, s, st))
                return [(res, st)]
        if PUSH.search(name) and args:
            mt = model.msgtype(self.P, fr.F.t(node['a'][0]))
            return [(('call', name, (), I.site(fr, node)), ev('push', mt, (I.rvalue(args[0], st),)))]
        if FANOUT.search(name) and args and I.read(args[-1], st)[0] == 'lam':
            kind = path(strip_hv(obj)).rsplit('.', 1)[-1]
            lam = I.read(args[-1], st)
            st = ev('register', kind, (I.rvalue(args[0], st),))
            self.regs.append((kind, I.rvalue(args[0], st), lam, s, st))
            return [(('c', None), I.havoc(obj, I.site(fr, node), st))]
        if FANOUT.search(name) and len(args) == 1:
            return [(('c', None), ev('deliver', path(strip_hv(obj)).rsplit('.', 1)[-1], vals(args)))]
        if re.search(r'fan::Out<.*>::failed$', name):
            return [(('c', None), ev('failed', path(strip_hv(obj)), vals(args)))]
        r = self.more(I, fr, node, name, obj, args, st)
        if r is not None:
            return r
        s2 = self.track(I, fr, node, name, obj, args, st)
        if s2 is not st:
            t = obj if obj is not None else args[0]
            v = ('call', name, (t,) + vals(args[1:] if obj is None else args), I.site(fr, node))
            if re.search(r'container::extract|std::exchange', name):
                return [(('call', name, (I.rvalue(t, st),) + vals(args[1:]), None), I.havoc(t, I.site(fr, node), s2))]
            return [(v, I.havoc(t, I.site(fr, node), s2))]
        return None

    def assume(self, I, v, st):
        # what is stored in the lists of instances are valid ids
        if v[0] == 'bool':
            x = strip(v[1])
            if x[0] == 'deref':
                x = strip(x[1])
                if x[0] == 'call' and x[1].endswith('find_if') and IDS.search(path(x[2][0])):
                    return True
            if x[0] == 'elem' and IDS.search(path(x[1])):
                return True
        return None

    def more(self, I, fr, node, name, obj, args, st):
        return None

    def on_element(self, I, fr, node, elem, st):
        self.here = fr.id
        elem = I.read(elem, st)
        return self.event(st, ('each', path(strip(elem)), (elem,), self.site(fr, node)))

    def on_fact(self, I, key, val, st):
        t = path(key[1]) + ' ' + (path(key[2]) if len(key) > 2 and isinstance(key[2], tuple) else '') if key[0] in ('t', 'eq') else path(key)
        if mentions(key, 'v'):
            return st
        if re.search(self.facts_of, t) or 'Deadline::' in repr(key):
            return self.event(st, ('fact', key, val, None))
        return st


def load(ctx, *more):
    P = ctx.load('service/*', *more)
    ctx.rel = facts.relevant(P, lambda F, n: F.file.startswith('service/') and (
        n['k'] == 'call' and interesting(F.name(n)) or n['k'] == 'mem' and n.get('n') in ('lookups', 'timeout_instances', 'disabled', 'associations', 'm_caller', 'm_reserved_service')))
    ctx.hs = {}
    for h in model.handlers(P, r'^service/source/manager/'):
        ctx.hs.setdefault(h.type, h)
    return P


def interesting(n):
    return bool(n and (any(rx.search(n) for rx, _, _ in SENDS) or PUSH.search(n) or FANOUT.search(n) or re.search(r'instance::Sequential::|pending::Deadline::|signal::timer|event::send$|fan::Out<.*>::failed$|discovery::request$', n)))


def run(ctx, F, cls, args, lam=None, limits=None, this=None, rel=True, **kw):
    r = cls(ctx.P)
    for k, v in kw.items():
        setattr(r, k, v)
    I = Interp(ctx.P, r, limits or More, relevant=ctx.rel if rel else None)
    out = I.run(F, (), args=args, this=lam[3] if lam else this, caps=lam[2] if lam else None)
    ctx.used(I)
    ctx.count('paths', len(out))
    return r, [(k, v, s) for k, v, s in out if k != 'throw'], I


def paths(ctx, t, cls=SM, limits=None, **kw):
    h = ctx.hs.get(t)
    ctx.need(h is not None, f'no handler of {t} found')
    r, out, I = run(ctx, h.F, cls, [('sym', 'request')], h.lam, limits, **kw)
    ctx.count('handlers')
    return h, r, [(k, s) for k, v, s in out]


def called(ctx, lam, args, cls=SM, limits=None, **kw):
    """paths of a stored callable"""
    cache = ctx.__dict__.setdefault('called', {})
    k = (lam, tuple(args), cls, limits, tuple(sorted(kw.items())))
    if k in cache:
        return cache[k]
    cache[k] = r = called_(ctx, lam, args, cls, limits, **kw)
    return r


def called_(ctx, lam, args, cls=SM, limits=None, **kw):
    F = next((ctx.P.funcs[f] for f in lam[1] if f in ctx.P.funcs), None)
    ctx.need(F is not None, 'the callable has no body')
    r, out, I = run(ctx, F, cls, args, lam, limits, **kw)
    ctx.count('continuations')
    return F, r, [(k, v, s) for k, v, s in out]
