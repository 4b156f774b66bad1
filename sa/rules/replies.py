"""Reply obligations: every path through a request handler answers the requester exactly once.

A handler owes its requester one reply.  The obligation is discharged by
  - a send (or a persistent reply) of the reply type to the ipc of the requester, correlated with the request
  - handing the request over: it is forwarded / stored as a whole, or a continuation that captured it is
    registered (the continuation is then analysed in place and has to discharge exactly once itself)
"""
import re
from ..interp import Interp, Rule, Budget, State, dedupe, path, root, strip_hv, contains, prefixes
from .. import facts, model
from ..facts import AnalysisError

SENDS = [  # (callee, index of destination or None when the object is the destination, index of message)
    (re.compile(r'ipc::send::Coordinator::send$'), 0, 1),
    (re.compile(r'communication::device::blocking::(optional::)?send$'), 0, 1),
    (re.compile(r'communication::device::non::blocking::(optional::)?send$'), 0, 1),
    (re.compile(r'communication::device::async::call$'), 0, 1),
    (re.compile(r'communication::ipc::flush::(optional::)?send$'), 0, 1),
    (re.compile(r'ipc::pending::basic_holder<.*>::add$'), 0, 1),
    (re.compile(r'gateway::group::tcp::send$'), 2, 3),
]
PUSH = re.compile(r'communication::(ipc::inbound::Device|device::Inbound<.*>)::push$')
QUIET = re.compile(r'(log::line|log::error|log::write|Trace::Trace|Trace::~Trace|verbose::error|event::send|log::category)$|^casual::common::log::')
FANOUT = re.compile(r'message::coordinate::(minimal::)?fan::Out<.*>::(operator\(\)|add)$')
STORE = re.compile(r'::(push_back|emplace_back|push|emplace|insert|add|push_front|emplace_front|try_emplace|insert_or_assign|then)$')


def leaf(t):
    return path(t)


def strip(v):
    while isinstance(v, tuple) and v and v[0] in ('hv', 'upd', 'bool'):
        v = v[1]
    return v


def message_of(term, msg):
    """does the value derive from (a member of) the request"""
    return contains(term, msg)


class Replies(Rule):
    """auto: (replies, interim, transfers, tainted)"""
    try_may_throw = False
    extra_sends = ()
    requester = ('process.ipc', 'process')
    store = STORE

    def __init__(self, P, handler, reply_types, interim=None, own=None):
        self.P, self.h, self.reply_types = P, handler, reply_types
        self.interim = interim
        self.msg = None
        self.sites = {}
        self.bad = []

    # -- helpers
    def mtype(self, fr, node, i):
        a = node['a'][i]
        t = fr.F.t(a)
        return model.msgtype(self.P, t), t

    def note(self, kind, fr, node, detail=''):
        self.sites[(fr.F.file, node.get('l'), kind)] = (fr.F, node, detail)

    def handed_over(self, v, st, I):
        """the whole request (or its complete form) is in the value"""
        v = I.rvalue(v, st)
        return self.whole(v)

    def whole(self, v):
        if v == self.msg:
            return True
        if v[0] in ('upd', 'hv', 'bool'):
            return self.whole(v[1])
        if v[0] == 'new':
            return any(isinstance(x, tuple) and x and self.whole(x) for x in v[2])
        if v[0] == 'call':
            return any(isinstance(x, tuple) and x and self.whole(x) for x in v[2]) and re.search(r'complete|move|forward|transform|tuple|pair|optional', v[1]) is not None
        if v[0] == 'lam':
            return any(self.whole(c[1]) for c in v[2]) or self.identity(('new', 'captures', tuple(c[1] for c in v[2]), None))
        return self.identity(v)

    def identity(self, v):
        """value that carries both the return address and the correlation of the request"""
        if not isinstance(v, tuple) or not v or v[0] not in ('new', 'upd'):
            return False
        s = set(self.members(v))
        return any(m.startswith('process') for m in s) and 'correlation' in s

    def members(self, v):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == 'mem':
            p = []
            x = v
            while isinstance(x, tuple) and x and x[0] in ('mem', 'hv', 'upd'):
                if x[0] == 'mem':
                    p.append(x[2])
                x = x[1]
            if x == self.msg:
                yield '.'.join(reversed(p))
                return
        for x in v:
            if isinstance(x, tuple):
                yield from self.members(x)

    def dest_is_requester(self, d, st, I):
        d = strip(I.rvalue(d, st))
        p = []
        x = d
        while isinstance(x, tuple) and x and x[0] in ('mem', 'hv', 'upd', 'deref'):
            if x[0] == 'mem':
                p.append(x[2])
            x = x[1]
        p = '.'.join(reversed(p))
        return x == self.msg and p in self.requester

    def correlated(self, v, st, I):
        v = I.rvalue(v, st)
        c = I.mem(v, 'correlation') if v[0] in ('upd', 'new') else ('mem', v, 'correlation')
        if isinstance(c, tuple) and c and c[0] == 'mem' and c[2] == 'correlation' and strip(c[1]) == self.msg:
            return True
        return False

    # -- events
    def on_call(self, I, fr, node, name, obj, args, st):
        if name is None:
            return None
        if QUIET.search(name):
            return [(('c', None), st)]
        for rx, di, mi in list(self.extra_sends) + SENDS:
            if rx.search(name):
                if len(args) <= max(di or 0, mi) or len(node['a']) <= mi:
                    return None
                return self.send(I, fr, node, name, args, di, mi, st)
        if PUSH.search(name):
            if args and self.handed_over(args[0], st, I):
                self.note('requeue', fr, node)
                st = self.transfer(st, fr, node)
            return [(('call', name, (), None), st)]
        if FANOUT.search(name):
            return self.fanout(I, fr, node, name, obj, args, st)
        return self.other(I, fr, node, name, obj, args, st)

    def other(self, I, fr, node, name, obj, args, st):
        if obj is not None and self.store.search(name) and root(strip(obj))[0] != 'v':
            if any(self.handed_over(a, st, I) for a in args):
                lams = [l for a in args for l in model.flatten_all(I.rvalue(a, st)) if self.whole(l)]
                hushed = [self.hush(I, a, st) for a in args]
                if lams:
                    self.note('continuation', fr, node)
                    out = []
                    for lam in lams:
                        for s in self.later(I, fr, node, obj, lam, st):
                            out += I.opaque(node, fr, name, obj, hushed, s)
                    return out
                self.note('stored', fr, node, name)
                return I.opaque(node, fr, name, obj, hushed, self.transfer(st, fr, node))
        return None

    def later(self, I, fr, node, obj, lam, st):
        r = root(strip(obj)) if obj is not None else None
        s = st
        if r is not None and r[0] == 'sym':
            s = I.havoc(r, I.site(fr, node), s)
        return [s2 for _, s2 in I.invoke(lam, [], fr, s, node)]

    def hush(self, I, a, st):
        v = I.read(a, st)
        return ('sym', 'continuation') if v[0] == 'lam' else a

    def transfer(self, st, fr, node):
        a = st.auto
        return st.with_auto((a[0], a[1], min(a[2] + 1, 2), self.trace(a, fr, node, 'handed over')))

    def trace(self, a, fr, node, what):
        """where the events of a path are (for the report)"""
        return a[3] + ((what, fr.F.where(node)),) if len(a[3]) < 6 else a[3]

    def send(self, I, fr, node, name, args, di, mi, st):
        mt, t = self.mtype(fr, node, mi)
        ret = ('call', name, (), I.site(fr, node))
        st = I.fresh_call(ret, st)
        if mt in self.reply_types:
            if self.dest_is_requester(args[di], st, I) or self.return_address(I, fr, node, args[di], st):
                v = I.rvalue(args[mi], st)
                if not self.correlated(args[mi], st, I):
                    self.bad.append(('uncorrelated', fr.F, node, f'the reply {mt} is not correlated with the request', st))
                a = st.auto
                if self.interim and self.interim(v, I, st):
                    self.note('interim', fr, node)
                    if a[0]:
                        self.bad.append(('late-interim', fr.F, node, 'an interim reply after the final reply', st))
                    st = st.with_auto((a[0], min(a[1] + 1, 2), a[2], self.trace(a, fr, node, 'interim reply')))
                else:
                    self.note('reply', fr, node, mt)
                    st = st.with_auto((min(a[0] + 1, 2), a[1], a[2], self.trace(a, fr, node, 'reply')))
                return [(ret, st)]
            self.foreign(I, fr, node, mt, args[di], st)
        elif self.whole(I.rvalue(args[mi], st)):
            self.note('forward', fr, node, mt)
            st = self.transfer(st, fr, node)
        return [(ret, st)]

    def return_address(self, I, fr, node, d, st):
        return False

    def foreign(self, I, fr, node, mt, d, st):
        self.note('foreign', fr, node, path(I.rvalue(d, st)))

    def fanout(self, I, fr, node, name, obj, args, st):
        vals = [I.read(a, st) for a in args]
        lams = [v for v in vals if v[0] == 'lam']
        if not lams:
            return None
        if len(lams) == 2:
            # one call per reply, then the last one
            states = self.later(I, fr, node, obj, lams[0], st)
            states = [s for _, s in dedupe([((), st)] + [((), s) for s in states])]
            self.note('continuation', fr, node)
            return dedupe([(('c', None), s2) for s in states for s2 in self.later(I, fr, node, obj, lams[1], s)])
        lam = lams[0]
        # runs when all the pending have answered or failed; everything else may have changed by then
        self.note('continuation', fr, node)
        return [(('c', None), s) for s in self.later(I, fr, node, obj, lam, st)]


def analyse(P, h, reply_types, relevant=None, rule_cls=Replies, interim=None, limits=None, setup=None):
    """[(outcome kind, auto, state)], rule"""
    if relevant is None:
        relevant = relevant_for(P, h, reply_types)
    rule = rule_cls(P, h, reply_types, interim)
    from ..interp import Limits
    I = Interp(P, rule, limits or Limits, relevant=relevant)
    msg = ('sym', 'request')
    rule.msg = msg
    args = [msg] + [None] * (len(h.F.params) - 1)
    if setup:
        setup(rule, I)
    out = I.run(h.F, (0, 0, 0, ()), args=args, this=h.lam[3], caps=h.lam[2])
    return out, rule, I


def relevant_for(P, h, reply_types, extra=None):
    """functions that can discharge or hand over the obligation of the handler"""
    types = set(reply_types) | {h.type, None}
    rxs = [PUSH, FANOUT] + list(extra or [])
    T = {}

    def mt(t):
        if t not in T:
            T[t] = model.msgtype(P, t)
        return T[t]

    def direct(F, n):
        if n['k'] == 'call':
            nm = F.name(n)
            if not nm:
                return False
            for rx, di, mi in SENDS:
                if rx.search(nm):
                    return len(n['a']) > mi and mt(F.t(n['a'][mi])) in types
            if STORE.search(nm) and n.get('obj') is not None:
                for a in n['a']:
                    t = F.t(a) if a else ''
                    if 'lambda' in t or 'task::' in t or mt(t) == h.type or holds(P, t):
                        return True
            return any(r.search(nm) for r in rxs)
        if n['k'] == 'mem' and n['n'] == 'correlation':
            return True
        return False

    def stop(F):
        return (F.file.startswith('common/') and not F.file.startswith('common/include/common/message/type')) or F.file.endswith('log.h') or F.file.endswith('casual/task.h')
    return facts.relevant(P, direct, stop)


def holds(P, t):
    """a record of the component that stores a request (its complete form, or both correlation and process)"""
    r = P.records.get(model.clean(t))
    if r is None:
        return False
    names = {f['n'] for f in r['fields']}
    return 'complete' in names or 'message' in names or 'request' in names or ('correlation' in names and ('process' in names or 'ipc' in names))


def describe(st, n=6):
    from ..interp import path as p
    r = []
    for k, v in list(st.facts.items())[-n:]:
        if k[0] == 'eq':
            r.append(f"{p(k[1])} {'==' if v else '!='} {p(k[2])}")
        elif k[0] == 't':
            r.append(('' if v else '!') + p(k[1]))
        else:
            r.append(('' if v else '!') + p(k))
    return '; '.join(x[:140] for x in r)
