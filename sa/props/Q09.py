"""the size account of a queue group follows its messages, and a full group refuses"""
from .queue_common import *
from ..rules.rows import parse
import itertools

U, CAP, PAY = 'used', 'capacity', 'payload'


class Sized(GroupUses):
    def special(self, I, fr, node, name, obj, args, st):
        if name.endswith('algorithm::container::append') and len(args) == 2:
            old, rng = I.read(args[1], st), I.rvalue(args[0], st)
            if not contains(old, rng):
                st = I.write(args[1], ('call', 'appended', (old, rng), None), st)
            return [(args[1], st)]
        return super().special(I, fr, node, name, obj, args, st)

    def on_walk(self, I, fr, node, rng, st):
        v = I.rvalue(rng, st)
        if 'sql.query' in repr(v):
            return self.event(st, ('walk', ('call', 'sql.column', (v, ('c', 0)), None) if v[0] == 'call' and v[1] == 'sql.query' else v, (), (fr.F.file, node.get('l'))))
        return st

    def on_fact(self, I, key, val, st):
        if mentions(key, ('capacity',)):
            return self.event(st, ('fact', key, val, None))
        return st


def mentions(t, names):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'mem' and t[2] in names:
            return True
        return any(mentions(x, names) for x in t if isinstance(x, tuple))
    return False


class Unknown(Exception):
    pass


def amount(t, env):
    """value of a term over (capacity, used, payload); None: no capacity is set"""
    t = strip(t)
    k = t[0]
    if k == 'c':
        return int(t[1])
    if k == 'bool':
        return amount(t[1], env)
    if k == 'un' and t[1] == '!':
        return not amount(t[2], env)
    if k == 'bin':
        a, b = amount(t[2], env), amount(t[3], env)
        if a is None or b is None:
            raise Unknown('an unset capacity is used')
        return {'+': lambda: a + b, '-': lambda: a - b, '>': lambda: a > b, '<': lambda: a < b, '>=': lambda: a >= b, '<=': lambda: a <= b, '==': lambda: a == b, '!=': lambda: a != b,
                '*': lambda: a * b}[t[1]]()
    if k == 'mem':
        if t[2] == 'capacity':
            return env[CAP]
        if t[2] == 'current':
            return env[U]
    if k == 'deref':
        return amount(t[1], env)
    if k == 'call':
        n = t[1].rsplit('::', 1)[-1]
        if n in ('value', 'operator*', 'has_value', 'operator bool', 'value_or') and len(t[2]) >= 1:
            v = amount(t[2][0], env)
            if n in ('has_value', 'operator bool'):
                return v is not None
            if n == 'value_or' and v is None:
                return amount(t[2][1], env)
            return v
        if n in ('size', 'ssize') and t[2] and path(strip(t[2][0])).endswith('payload.data'):
            return env[PAY]
    raise Unknown(f'not known how {path(t)[:100]} relates to the capacity')


def holds(fact, env):
    """does a decided fact agree with the quantities"""
    _, key, val = fact[:3]
    if key[0] == 't':
        r = amount(key[1], env)
        if not isinstance(r, bool):
            r = r is not None if mentions(key[1], ('capacity',)) else bool(r)
    elif key[0] == 'eq':
        a, b = amount(key[1], env), amount(key[2], env)
        r = a == b
    else:
        r = amount(key, env)
    return r == val


def deletes(st):
    """(event, sql syntax) of the changes of the number of bytes stored"""
    for e in st.auto:
        if e[0] == 'sql' and e[1]:
            s = parse(e[1])[0][0]
            if s.get('table') == 'message' and s['op'] in ('insert', 'delete'):
                yield e, s


def returned_length(v, text):
    """the value is the (sum of) lengths returned by this statement"""
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and x[0] == 'call' and x[1] == 'sql.column':
                q = x[2][0]
                if q[0] == 'call' and q[1] == 'sql.query' and q[2][0][1] == text:
                    s = parse(text)[0][0]
                    cols = s.get('returning') or []
                    i = x[2][1][1] if x[2][1][0] == 'c' else None
                    if i is not None and i < len(cols):
                        c = cols[i]
                        return c[0] == 'fn' and c[1].lower() == 'length' and c[2][0][0] == 'col' and c[2][0][2] == 'payload'
            todo += [z for z in x if isinstance(z, tuple)]
    return False


def recomputed(v):
    v = strip(v)
    t = repr(v)
    return 'sql.query' in t and v[0] != 'bin' and re.search(r'sum\( *length\( *payload *\)\)', t, re.I) and 'WHERE' not in t.upper().split('FROM MESSAGE')[-1][:30]


def check(ctx):
    P = load(ctx)
    ctx.rule('the account of used bytes changes by the payload size of what is inserted or deleted, or is recomputed from the database after the last change, on every path that answers ok; '
             'an enqueue stores a message only under conditions that imply it fits, and refuses for lack of space only when it does not')
    # enqueue
    t = 'queue_group_enqueue_request'
    h, out = sized(ctx, t)
    stored = refused = 0
    for k, st in out:
        ins = [i for i, e in enumerate(st.auto) if e[0] == 'sql' and (e[1] or '').strip().upper().startswith('INSERT INTO MESSAGE')]
        sizes = [e for e in st.auto if e[0] == 'size']
        facts_ = [e for e in st.auto if e[0] == 'fact']
        if ins:
            before = [e for e in st.auto[:ins[0]] if e[0] == 'fact']
            bad = None
            for env in quantities():
                if all(holds_(ctx, f, env, h) for f in before) and env[CAP] is not None and env[U] + env[PAY] > env[CAP]:
                    bad = env
                    break
            if ctx.expect(bad is None, f'{t}: capacity', f'a message is stored although it does not fit ({bad})', at(st.auto[ins[0]])):
                stored += 1
            if code_is(reply_value(st, 'queue_group_enqueue_reply', 'code'), 'ok') is False or not sizes and not pure_ok(st):
                continue
            ctx.expect(len(sizes) == 1 and grows(sizes[0][1]), f'{t}: account', 'the payload of a stored message is not added to the used size (once)', at(st.auto[ins[0]]))
        else:
            ctx.expect(not sizes, f'{t}: account', 'the used size changes although nothing is stored', h.F.where())
            if facts_ and not any(e[0] == 'sql' for e in st.auto):
                bad = None
                for env in quantities():
                    if all(holds_(ctx, f, env, h) for f in facts_) and (env[CAP] is None or env[U] + env[PAY] <= env[CAP]):
                        bad = env
                        break
                if bad and code_is(reply_value(st, 'queue_group_enqueue_reply', 'code'), 'no_queue'):
                    ctx.bad(f'{t}: capacity', f'a message that fits is refused ({bad})', h.F.where())
                else:
                    refused += 1
    ctx.expect(stored > 0, f'{t}: stores', 'no path stores a message', h.F.where())
    ctx.expect(refused > 0, f'{t}: refuses', 'no path refuses a message for lack of space', h.F.where())

    # what deletes
    for t, rt, member in (('transaction_resource_commit_request', 'transaction_resource_commit_reply', 'state'), ('transaction_resource_rollback_request', 'transaction_resource_rollback_reply', 'state'),
                          ('queue_group_dequeue_request', 'queue_group_dequeue_reply', 'code'),
                          ('queue_group_message_remove_request', None, None), ('queue_group_queue_clear_request', None, None), ('queue_group_queue_restore_request', None, None),
                          ('queue_group_message_recovery_request', None, None)):
        h, out = sized(ctx, t)
        n = 0
        for k, st in out:
            if rt and code_is(reply_value(st, rt, member), 'ok') is False:
                continue
            if rt and not any(e[0] == 'send' and e[1] == rt for e in st.auto):
                continue
            gone = [(e, s) for e, s in deletes(st)]
            sizes = [e for e in st.auto if e[0] == 'size']
            n += 1
            if not gone:
                for e in sizes:
                    ok = recomputed(e[1]) or 'recovery' in t or e[1][0] == 'bin' and e[1][1] == '-'
                    ctx.expect(ok and (t != 'queue_group_dequeue_request'), f'{t}: account', 'the used size changes although no message is stored or deleted', at(e))
                continue
            if not sizes:
                if rt and any(e[0] == 'sql' for e in st.auto) is False:
                    continue
                ctx.bad(f'{t}: account', 'messages are deleted and the used size does not follow', at(gone[-1][0]), [f'{label(ctx, e[1])} at {at(e)}' for e, _ in gone])
                continue
            last = sizes[-1]
            i = max(j for j, e in enumerate(st.auto) if e is last)
            j = max(j for j, e in enumerate(st.auto) if any(e is g for g, _ in gone))
            if recomputed(last[1]):
                ctx.expect(i > j and reread(st, j), f'{t}: account', 'the used size is recomputed before the last message is deleted', at(last))
            elif 'recovery' in t:
                ctx.expect(last[1][0] == 'bin' and last[1][1] == '-' and any(returned_length(last[1][3], e[1]) for e, _ in gone), f'{t}: account', 'the size of what a recovery deletes is not subtracted', at(last))
            else:
                good = last[1][0] == 'bin' and last[1][1] == '-' and len(sizes) == 1 and path(strip(last[1][2])).endswith('size.current')
                if good:
                    rhs = last[1][3]
                    good = any(returned_length(rhs, e[1]) for e, _ in gone) or (rhs == ('c', 0) or strip(rhs)[0] == 'v') and any(returned_length(w[1], e[1]) for w in st.auto if w[0] == 'walk' for e, _ in gone) or t == 'queue_group_dequeue_request' and re.search(r'size\(.*payload', path(rhs)) is not None
                ctx.expect(good, f'{t}: account', f'the used size does not shrink by the payload of what is deleted: {path(last[1])[:140]}', at(last))
        ctx.need(n, f'{t}: no path answers ok')

    # configuration: the capacity is what is configured, the account is read from the database
    t = 'queue_group_configuration_update_request'
    h, out = sized(ctx, t)
    for k, st in out:
        caps = [e for e in st.auto if e[0] == 'capacity']
        ctx.expect(caps and path(strip(caps[-1][1])) == 'request.model.capacity', f'{t}: capacity', 'the configured capacity is not taken over', at(caps[-1]) if caps else h.F.where())
        sizes = [e for e in st.auto if e[0] == 'size']
        ctx.expect(sizes and recomputed(sizes[-1][1]), f'{t}: account', 'the used size is not read from the database', h.F.where())
    # state reports them
    t = 'queue_group_state_request'
    if t in ctx.hs:
        from .Q04 import leaves
        h, out = sized(ctx, t)
        for k, st in out:
            for e in st.auto:
                if e[0] == 'send' and e[1] == 'queue_group_state_reply':
                    d = dict(leaves(e[2][1]))
                    for m in ('size.current', 'size.capacity'):
                        if m in d:
                            ctx.expect(path(strip(d[m])).endswith(m), f'{t}: {m}', f'reports {path(d[m])[:80]} as {m}', at(e))


def reread(st, j):
    return any(e[0] == 'sql' and re.search(r'sum\( *length\( *payload', e[1] or '', re.I) for e in st.auto[j + 1:])


def pure_ok(st):
    return any(e[0] == 'send' and (e[1] == 'transaction_external_resource_involved' or e[4] == 'pending') for e in st.auto)


def grows(v):
    return v[0] == 'bin' and v[1] == '+' and {path(strip(v[2])).split('.')[-1], 'x'} >= {'current'} and re.search(r'size\(request\.message\.payload\.data\)', path(v[3])) is not None or recomputed(v)


def quantities():
    for c in (None, 0, 3, 4, 5):
        for u in (0, 1, 2, 3, 4, 5):
            for p in (0, 1, 2, 3, 4):
                yield {CAP: c, U: u, PAY: p}


def holds_(ctx, f, env, h):
    try:
        return holds(f, env)
    except Unknown as e:
        if env[CAP] is None:
            return False
        raise AnalysisError(f'{h.F.where()}: {e}')


def sized(ctx, t):
    return paths(ctx, t, cls=Sized)
