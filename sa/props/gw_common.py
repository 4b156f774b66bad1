"""Shared by the gateway properties: what the inbound and outbound groups do with messages, tasks and connections."""
import re
from .. import model, facts
from ..interp import Interp, Limits, path, root, strip_hv, contains, dedupe, subterms_of as subterms
from ..rules import dbase
from ..rules.replies import SENDS, PUSH, FANOUT, strip
from ..rules.grow import Tracks
from ..facts import AnalysisError, walk
from .txm_common import member, mentions, at, copied
from .svc_common import SM, More, Once, none, novars

IN, OUT = r'^gateway/source/group/inbound/', r'^gateway/source/group/outbound/'


class GW(SM):
    watch = r'(disconnects|disconnecting|disabled_connections|m_entries|m_transactions|descriptors|m_units|m_mapping|m_internal|m_external|m_information|prospects|.*second|trids)$'
    facts_of = r'.'
    again = False
    keep = ()       # calls that stay calls: functions analysed elsewhere

    def special(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        vals = lambda xs: tuple(I.rvalue(a, st) for a in xs)
        if name.endswith('gateway::group::tcp::send') and len(args) > 3:
            mt = model.msgtype(self.P, fr.F.t(node['a'][3]))
            res = ('call', 'tcp::send', (), I.site(fr, node))
            st = self.event(I.fresh_call(res, st), ('tcp', mt, (I.rvalue(args[2], st), I.rvalue(args[3], st), I.rvalue(args[1], st)), s))
            # the send might have lost the connection, and with it everything that is known about it
            return [(res, I.havoc(('mem', I.read(args[0], st) if args[0][0] == 'v' else args[0], 'connections'), I.site(fr, node), st))]
        if re.search(r'task::concurrent::Unit<.*>::Unit(<.*>)?$', name) and len(args) > 2:
            return [(('call', 'unit', tuple(I.read(a, st) if I.read(a, st)[0] == 'lam' else I.rvalue(a, st) for a in args), None), st)]
        m = re.search(r'::(maybe_metric|force_metric)(<.*>)?$', name)
        if m:
            return [(('c', None), self.event(st, ('metric', m.group(1), (), s)))]
        m = re.search(r'task::concurrent::Coordinator<.*>::(add|operator\(\)|remove|failed|contains)$', name)
        if m:
            w = {'operator()': 'dispatch'}.get(m.group(1), m.group(1))
            v = vals(args)
            t = ('call', 'tasks.' + w, v, I.site(fr, node))
            if w == 'contains':
                return [(('call', 'tasks.contains', v, None), st)]
            if w == 'dispatch':
                st = I.fresh_call(t, st)
            return [(t, self.event(st, ('task', w, v, s)))]
        if re.search(r'group::connection::Holder<.*>::(partner|find_external|find_internal|process_handle|information|external_descriptor|external_descriptors|internal_descriptors|extract|connected|replace_configuration|configuration|clear|host_connections|empty)$', name) and obj is not None:
            m = name.rsplit('::', 1)[-1]
            t = ('call', m, (I.rvalue(obj, st),) + vals(args), None)
            if m in ('extract', 'connected', 'clear', 'replace_configuration'):
                st = self.event(st, ('holder', m, vals(args), s))
                st = I.havoc(obj, I.site(fr, node), st)
            return [(t, st)]
        if re.search(r'protocol::transform::(to|from)(<.*>)?$', name) and args:
            w = 'transform::' + re.search(r'transform::(to|from)', name).group(1)
            return [(('call', w, vals(args), None), st)]
        if re.search(r'message::protocol::compatible(<.*>)?$', name) and args:
            ta = fr.F.targs(node)
            mt = next((x for x in (model.msgtype(self.P, str(a)) for a in ta) if x), '?')
            return [(('call', 'compatible', (('c', mt),) + vals(args), None), st)]
        m = re.search(r'(transaction::Cache|pending::Transactions|reply::Destination)::(\w+)$', name)
        if m and obj is not None and m.group(2) not in self.keep and not self.inside(fr, m.group(1)):
            v = vals(args)
            if m.group(2) == 'extract':
                t = ('call', 'extract', v, I.site(fr, node))
                st = I.fresh_call(t, st)
            else:
                t = ('call', m.group(2), v, None if m.group(2) in ('find', 'contains', 'is_associated', 'associated', 'empty') else I.site(fr, node))
                if t[3]:
                    st = I.fresh_call(t, st)
            if m.group(2) not in ('find', 'contains', 'is_associated', 'associated', 'empty'):
                st = self.event(st, ({'transaction::Cache': 'cache', 'pending::Transactions': 'pending', 'reply::Destination': 'destination'}[m.group(1)], m.group(2), v + (t,), s))
            return [(t, st)]
        if name.endswith('process::handle') and not args:
            return [(('call', 'process::handle', (), None), st)]
        for k in self.keep:
            if re.search(k, name):
                w = name.rsplit('::', 1)[-1]
                v = vals(args)
                t = ('call', w, v, I.site(fr, node))
                return [(t, self.event(I.fresh_call(t, st), ('do', '::'.join(name.split('::')[-2:]), v + (t,), s)))]
        if name.endswith('discovery::request') and 'domain' in name and args:
            return [(('c', None), self.event(st, ('discover', '', vals(args), s)))]
        if re.search(r'discovery::(topology::(implicit|direct)::update|provider::registration)$', name):
            return [(('c', None), self.event(st, ('topology' if 'update' in name else 'register', name.rsplit('::', 2)[-2], vals(args), s)))]
        if name.endswith('ipc::call') or name.endswith('communication::ipc::call'):
            t = ('call', 'ipc::call', vals(args), I.site(fr, node))
            return [(t, self.event(I.fresh_call(t, st), ('call', model.msgtype(self.P, fr.F.t(node['a'][1])) if len(node['a']) > 1 else '', vals(args), s)))]
        return super().special(I, fr, node, name, obj, args, st)

    def inside(self, fr, what):
        return what in (fr.F.qn or '')


def load(ctx):
    P = ctx.load('gateway/*')
    ctx.rel = None
    ctx.hs = {}
    for side, rx in (('in', IN), ('out', OUT)):
        for h in model.handlers(P, rx):
            via = h.via.qn.rsplit('::', 1)[-1]
            ctx.hs.setdefault((side, via if via in ('internal', 'external', 'management') else 'other', h.type), h)
    return P


def run(ctx, F, cls, args, lam=None, limits=None, this=None, start=None, **kw):
    r = cls(ctx.P)
    for k, v in kw.items():
        setattr(r, k, v)
    I = Interp(ctx.P, r, limits or Once)
    out = I.run(F, (), args=args, this=lam[3] if lam else this, caps=lam[2] if lam else None, start=start)
    ctx.used(I)
    ctx.count('paths', len(out))
    return r, [(k, v, s) for k, v, s in out if k != 'throw'], I


def handler(ctx, side, via, t, cls=GW, **kw):
    h = ctx.hs.get((side, via, t))
    if h is None:
        return None
    r, out, I = run(ctx, h.F, cls, [('sym', 'request'), ('sym', 'descriptor')][:len(h.F.params)], h.lam, **kw)
    ctx.count('handlers')
    return h, r, [(k, s) for k, v, s in out]


def called(ctx, lam, args, cls=GW, **kw):
    cache = ctx.__dict__.setdefault('called', {})
    k = (lam, tuple(args), cls, tuple(sorted(kw.items())))
    if k not in cache:
        F = next((ctx.P.funcs[f] for f in lam[1] if f in ctx.P.funcs), None)
        ctx.need(F is not None, 'the callable has no body')
        r, out, I = run(ctx, F, cls, args, lam, **kw)
        ctx.count('continuations')
        cache[k] = F, r, [(k2, v, s) for k2, v, s in out]
    return cache[k]


# ---------------------------------------------------------------- values
def unwrap(v):
    while isinstance(v, tuple) and v and v[0] in ('hv', 'upd'):
        v = v[1]
    return v


def is_req(v, field, what='request'):
    v = strip_hv(v)
    t = ('sym', what)
    for f in field.split('.'):
        t = ('mem', t, f)
    return v == t


def is_sock(v):
    """the socket of the connection that the message came for"""
    v = strip_hv(v)
    return bool(any(x[0] == 'call' and x[1] in ('partner', 'find_external', 'external_descriptor') and ('sym', 'descriptor') in x[2] for x in subterms(v) if x and isinstance(x, tuple)))


def is_message(v, transformed, what='request'):
    """the message itself: as it came, or transformed to another version of it"""
    v = unwrap(v)
    if v[0] == 'call' and v[1] in ('transform::to', 'transform::from'):
        return transformed and unwrap(v[2][0]) == ('sym', what)
    return not transformed and v == ('sym', what)


def corr(rule, v):
    """the correlation of a message"""
    c = member(rule, v, 'correlation')
    if c is None:
        b = v
        while isinstance(b, tuple) and b and b[0] in ('upd', 'hv'):
            b = b[1]
        if isinstance(b, tuple) and b[0] == 'call' and b[1].endswith('reverse::type'):
            return ('mem', b[2][0], 'correlation')
        if isinstance(b, tuple) and b[0] in ('sym', 'elem'):
            return ('mem', b, 'correlation')
    return c


def req_corr(v, what='request', rule=None):
    return corr(rule, v) == ('mem', ('sym', what), 'correlation')


def code(rule, v):
    """the result code of a message, None when it is not known"""
    c = member(rule, v, 'code.result')
    if c is None:
        x = member(rule, v, 'code')
        c = member(rule, x, 'result') if x is not None else None
        if c is None and x is not None and x[0] == 'new' and x[2]:
            c = x[2][0]
    return c[1] if isinstance(c, tuple) and c and c[0] == 'e' else None


def fields(ctx, x):
    """{field: value} of a record that is made with all its values"""
    x = unwrap(x)
    if x[0] != 'new':
        return {}
    if x[3]:
        return dict(zip(x[3], x[2]))
    r = ctx.P.records.get(model.clean(x[1]))
    return dict(zip([f['n'] for f in r['fields']], x[2])) if r else {}


def is_ipc(ctx, v, want=('mem', ('mem', ('sym', 'request'), 'process'), 'ipc')):
    """a value that was captured, possibly in something shared"""
    v = strip_hv(v)
    if v == want:
        return True
    if v[0] == 'mem':
        b = strip_hv(v[1])
        if b[0] == 'deref':
            b = strip_hv(b[1])
        if b[0] == 'call' and b[1].endswith('make_shared') and b[2]:
            return fields(ctx, b[2][0]).get(v[2]) == want
        if b[0] == 'new':
            return fields(ctx, b).get(v[2]) == want
    return False
