"""Shared by the XATMI properties: what a server does with a call, exceptions and scope guards included."""
import re
from .. import model, facts
from ..interp import Interp, Limits, path, root, strip_hv, contains, dedupe
from ..rules import dbase
from ..rules.grow import Tracks
from ..facts import AnalysisError, walk
from .txm_common import member, mentions, at

POLICY = re.compile(r'policy::call::(Default|Admin)::(transaction|reply|ack|forward)$')
QUIET = re.compile(r'(execution::context::|header::fields|::context$|Context::instance|::state$|::now$|logical_name|::deadline$|Context::current|process::handle|algorithm::|::descriptors$|::get$|flag::|^std::)')


class More(Limits):
    states = 400
    steps = 3000000


class Srv(dbase.Uses):
    """the calls of the policy, and the service itself, are events; everything that is not known to be quiet may throw"""
    try_may_throw = False

    def __init__(self, P):
        super().__init__(P, {})

    def inline(self, F, node):
        return not POLICY.search(F.qn or '')

    def throws(self, I, st, what='other'):
        I.thrown.append((('throw', what), st))

    def on_call(self, I, fr, node, name, obj, args, st):
        if not name:
            return None
        self.here = fr.id
        s = (fr.F.file, node.get('l'))
        if dbase.QUIET.search(name):
            return [(('c', None), st)]
        m = re.search(r'execute::basic_scope<.*>::(operator\(\)|release)$', name)
        if m and obj is not None:
            v = I.read(obj, st)
            if m.group(1) == 'release':
                return [(('c', None), I.write(obj, ('c', 'released'), st))]
            if v == ('c', 'released'):
                return [(('c', None), st)]
            lam = next((x for x in v[2] if x[0] == 'lam'), None) if v[0] == 'call' else None
            if lam is None:
                raise AnalysisError('what a scope guard does is not known')
            return [(x, I.write(obj, ('c', 'released'), s2)) for x, s2 in I.call_lambda(lam, node, [], fr, st)]
        m = POLICY.search(name)
        if m:
            v = tuple(I.rvalue(a, st) for a in args)
            kind = m.group(2)
            if kind == 'transaction':
                kind = 'enter' if len(args) > 1 else 'finalize'
            res = ('call', 'policy.' + kind, v if kind == 'finalize' else (), I.site(fr, node))
            st = self.event(I.fresh_call(res, st), (kind, 'policy', v + (res,), s))
            self.throws(I, self.event(st, ('failed', kind, (), s)))
            return [(res, st)]
        if re.search(r'server::Service>?::operator ?\(\)$', name) or name == 'std::invoke' and 'server::Service' in (fr.F.t(node['a'][0]) or ''):
            res = ('call', 'service', (), I.site(fr, node))
            st = self.event(I.fresh_call(res, st), ('service', 'service', (I.rvalue(obj, st),) + tuple(I.rvalue(a, st) for a in args), s))
            self.throws(I, st)
            self.throws(I, self.event(st, ('forwards', '', (), s)), 'casual::common::service::invoke::Forward')
            return [(res, self.event(st, ('returned', '', (), s)))]
        if name.endswith(('server::Context::finalize', 'conversation::state::descriptor::Holder::unreserve')) or name.endswith('::unreserve'):
            st = self.event(st, ('do', name.rsplit('::', 1)[-1], tuple(I.rvalue(a, st) for a in args), s))
            return [(('c', None), st)]
        if name.endswith('service::transform::parameter'):
            res = ('call', 'parameter', tuple(I.rvalue(a, st) for a in args), I.site(fr, node))
            self.throws(I, st)
            return [(res, I.fresh_call(res, st))]
        return None


def unwrap(v):
    while isinstance(v, tuple) and v and v[0] in ('hv', 'upd', 'bool'):
        v = v[1]
    return v


def code(rule, v):
    """the result code of a message, None when it is not known"""
    c = member(rule, v, 'code.result')
    if c is None:
        x = member(rule, v, 'code')
        c = member(rule, x, 'result') if x is not None else None
        if c is None and x is not None:
            x = unwrap(x)
            if x[0] == 'new' and x[2]:
                c = x[2][0]
    return c[1].rsplit('::', 1)[-1] if isinstance(c, tuple) and c and c[0] == 'e' else None


def last(v):
    v = unwrap(v)
    return v[1].rsplit('::', 1)[-1] if isinstance(v, tuple) and v and v[0] == 'e' else None


def is_(v, p):
    return v is not None and path(strip_hv(v)) == p


def calls(P):
    """the function that carries a call out, one per kind of message and policy"""
    return [F for F in P.named(r'server::handle::service::call$') if len(F.params) == 4 and 'conversation::connect' in F.S[F.params[2]['t']] or len(F.params) == 4 and 'service::call' in F.S[F.params[2]['t']]]
