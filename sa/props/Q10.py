"""the transaction manager knows about the group before the caller gets its answer"""
from .queue_common import *
from ..rules.grow import Tracks


class Tracked(Tracks, GroupUses):
    watch = r'involved'

    def special(self, I, fr, node, name, obj, args, st):
        s2 = self.track(I, fr, node, name, obj, args, st)
        r = super().special(I, fr, node, name, obj, args, s2)
        if r is None and s2 is not st:
            target = obj if obj is not None else args[0]
            return [(('c', None), I.havoc(target, I.site(fr, node), s2))]
        return r

    def on_fact(self, I, key, val, st):
        if 'involved' in path(key[1]) or len(key) > 2 and isinstance(key[2], tuple) and 'involved' in path(key[2]):
            return self.event(st, ('fact', key, val, None))
        return st


MARK = re.compile(r'^\s*(INSERT INTO MESSAGE|UPDATE MESSAGE|DELETE FROM MESSAGE)', re.I)


def check(ctx):
    P = load(ctx)
    also_relevant(ctx, {'involved'})
    ctx.rule('on every path that changes messages under a transaction and answers ok, the transaction is found among those already reported, or a blocking "involved" message about it was sent before the answer and it is then remembered; '
             'commit and rollback forget it')
    for t, rt in (('queue_group_enqueue_request', 'queue_group_enqueue_reply'), ('queue_group_dequeue_request', 'queue_group_dequeue_reply')):
        h, out = paths(ctx, t, cls=Tracked)
        n = 0
        for k, st in out:
            trans = tx(st)
            for i, e in enumerate(st.auto):
                if e[0] != 'send' or e[1] != rt:
                    continue
                before = st.auto[:i]
                if not any(x[0] == 'sql' and MARK.match(x[1] or '') for x in before):
                    continue
                if t.endswith('enqueue_request') and not any(x[0] == 'size' for x in before):
                    continue    # an error after the statement
                if trans is None:
                    ctx.bad(f'{t}: transaction', 'messages are changed and answered whether or not there is a transaction', at(e))
                    continue
                sent = [x for x in before if x[0] == 'send' and x[1] == 'transaction_external_resource_involved']
                if not trans:
                    ctx.expect(not sent, f'{t}: no transaction', 'the transaction manager is told although there is no transaction', at(e))
                    continue
                n += 1
                # x[2] == 'found in involved'
                known = any(x[0] == 'fact' and member(x[1]) and positive(x[1], x[2]) for x in before)
                grown = [j for j, x in enumerate(before) if x[0] == 'grow']
                if sent:
                    ctx.expect(all(x[4] == 'blocking' for x in sent), f'{t}: blocking', 'the transaction manager is told with a send that may be delayed past the answer', at(sent[0]))
                    ctx.expect('transaction::manager' in repr(sent[0][2][0]) and 'request' in path(sent[0][2][1]), f'{t}: involved', 'the "involved" message is not about the transaction of the request or not to the transaction manager', at(sent[0]))
                    ctx.expect(any('trid' in path(a) for j in grown for a in before[j][2]), f'{t}: remembered', 'the transaction is not remembered as reported', at(sent[0]))
                elif ctx.expect(known, f'{t}: involved', 'messages are changed under a transaction and the caller is answered before the transaction manager knows that this group is involved', at(e)):
                    ctx.expect(not grown, f'{t}: remembered', 'a transaction is remembered as reported without having been reported', at(e))
        ctx.need(n, f'{t}: no transactional path found')
    for t in ('transaction_resource_commit_request', 'transaction_resource_rollback_request'):
        h, out = paths(ctx, t, cls=Tracked)
        for k, st in out:
            gone = [e for e in st.auto if e[0] == 'shrink']
            ctx.expect(any('trid' in path(a) or 'lambda' in path(a) or a[0] == 'lam' for e in gone for a in e[2]), f'{t}: forget', 'the finished transaction is still remembered: a group that shuts down never gets done', h.F.where())
    h, out = paths(ctx, 'transaction_resource_prepare_request', cls=Tracked)
    for k, st in out:
        ctx.expect(not any(e[0] in ('shrink', 'grow') for e in st.auto), 'prepare: remembered', 'a prepared transaction is forgotten before it is finished', h.F.where())


def tx(st):
    for f, v in st.facts.items():
        if f[0] == 't':
            t, pol = f[1], v
            while t[0] == 'un' and t[1] == '!':
                t, pol = t[2], not pol
            p = path(strip(t))
            if p == 'request.trid' or re.fullmatch(r'(null|valid|operator bool)\(request\.trid\)', p):
                return not pol if p.startswith('null') else pol
    return None


def member(key):
    s = repr(key)
    return 'involved' in s and 'trid' in s


def positive(key, val):
    t = key[1]
    pol = val
    while key[0] == 't' and t[0] == 'un' and t[1] == '!':
        t, pol = t[2], not pol
    if key[0] == 'eq':
        return not pol if re.search(r'\bend\(', path(key[1]) + path(key[2])) else pol
    n = t[1].rsplit('::', 1)[-1] if t[0] == 'call' else ''
    return not pol if n == 'empty' else pol
