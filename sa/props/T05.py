"""a vote is durable before anyone hears of it"""
from .txm_common import *
from .T02 import votes
from ..facts import walk

PREPARE_REPLY = 'transaction_resource_prepare_reply'


class Log(TM):
    """the log itself opened up, for the functions that make it persistent"""

    def special(self, I, fr, node, name, obj, args, st):
        if re.search(r'transaction::manager::Log::\w+$', name):
            return None
        return super().special(I, fr, node, name, obj, args, st)


def run(ctx, F, cls, args=(), this=('sym', 'this'), relevant=None):
    r = cls(ctx.P)
    I = Interp(ctx.P, r, More, relevant=relevant)
    out = I.run(F, (), args=list(args), this=this) if args else I.run(F, (), this=this)
    ctx.used(I)
    return r, [(k, s) for k, v, s in out if k != 'throw']


def check(ctx):
    P = load(ctx)
    ctx.rule('what depends on a logged prepare (the vote of a resource, the prepare report of a commit) is only handed to the holder of persistent replies, after the prepare is logged; '
             'the holder is only emptied after the log is persisted; the log ends its database transaction and begins a new one, each prepared branch is one row, removal deletes the rows of the global id; '
             'an idle manager persists')
    n = 0
    for u in units(ctx, TYPES):
        for k, st in u.paths:
            evs = st.auto
            prepared = [i for i, e in enumerate(evs) if e[0] == 'log' and e[1] == 'prepare']
            for i, e in enumerate(evs):
                if e[0] == 'send' and (e[1] == PREPARE_REPLY and u.kind == 'prepare' and 'ok' in votes(evs[:i]) or e[1] and e[1].endswith('_reply') and any(j < i for j in prepared)):
                    n += 1
                    ctx.expect(e[4] == 'persistent', f'{u.name}: vote', f'{u.name}: {e[1]} is sent before the prepared transaction is on disk', at(e))
                    ctx.expect(any(j < i for j in prepared), f'{u.name}: vote', f'{u.name}: {e[1]} is handed over before the prepared transaction is logged', at(e))
                if e[0] == 'flush' and e[1].endswith('replies'):
                    last = max([j for j, x in enumerate(evs[:i]) if x[0] == 'log' and x[1] in ('prepare',)], default=-1)
                    ctx.expect(any(x[0] == 'log' and x[1] == 'persist' for x in evs[last + 1:i]), f'{u.name}: flush', f'{u.name}: the waiting replies are sent before the log is persisted', at(e))
            if prepared:
                for j in prepared:
                    ctx.expect('find' in path(evs[j][2][0]) and 'transactions' in path(evs[j][2][0]), f'{u.name}: logged', f'{u.name}: what is logged is {path(evs[j][2][0])}', at(evs[j]))
    ctx.need(n, 'no vote found')
    flush(ctx)
    log(ctx)
    idle(ctx)


def flushes(F):
    return any(n['k'] == 'call' and re.search(r'(Holder|pending::basic_holder<.*>)::send$', F.name(n) or '') for n in walk(F.body))


def flush(ctx):
    """every function that empties the holder, or else all who call it, persist before"""
    P = ctx.P
    all_ = [F for F in P.find(file=r'^transaction/') if F.body is not None]
    todo = [(F, None, 0) for F in all_ if flushes(F)]
    ctx.need(todo, 'nothing empties the holder of persistent replies')
    seen = set()
    while todo:
        F, inner, depth = todo.pop(0)
        if (F.id, inner) in seen:
            continue
        seen.add((F.id, inner))
        r, ps = run(ctx, F, TM, relevant=ctx.rel)
        bad, hit = None, False
        for k, st in ps:
            for i, e in enumerate(st.auto):
                if e[0] == 'flush' and e[1].endswith('replies'):
                    hit = True
                    if not any(x[0] == 'log' and x[1] == 'persist' for x in st.auto[:i]):
                        bad = bad or at(e)
        if inner and not hit:
            # the lambda is kept for later
            bad = inner
        if not bad:
            ctx.ok(f'{F.qn}: flush', F.where())
            continue
        up = [(G, None) for G in all_ if any(x['k'] == 'call' and x.get('f') == F.id for x in walk(G.body))]
        if F.d.get('lambda') and not inner:
            up += [(G, bad) for G in all_ if any(x['k'] == 'lambda' and F.id in x['f'] for x in walk(G.body))]
        up = [x for x in up if (x[0].id, x[1]) not in seen and x[0].id != F.id]
        if not up or inner and not hit or depth > 1 or len(seen) > 30:
            ctx.bad(f'{F.qn}: flush', f'{F.qn}: the waiting replies are sent before the log is persisted', bad)
            continue
        todo += [x + (depth + 1,) for x in up]


def log(ctx):
    P = ctx.P
    prep = dbase.prepared(P, r'^transaction/source/manager/log\.cpp$')
    ctx.need(prep, 'no prepared statements of the transaction log found')

    class Exec(Log):
        def __init__(self, P):
            super().__init__(P)
            self.prep = prep

        def on_element(self, I, fr, node, elem, st):
            self.here = fr.id
            return self.event(st, ('each', path(strip(elem)), (elem,), self.site(fr, node)))

    def of(name):
        F = next(iter(P.named(r'transaction::manager::Log::' + name + '$')), None)
        ctx.need(F is not None, f'Log::{name} not found')
        return F

    # persist
    F = of('persist')
    r, ps = run(ctx, F, Exec)
    ctx.need(ps, 'Log::persist has no path')
    for k, st in ps:
        tx = [e[1] for e in st.auto if e[0] == 'tx']
        ctx.expect(tx and tx[0] == 'commit' and tx[-1].endswith('begin') and 'rollback' not in tx, 'Log::persist', f'Log::persist: {" ".join(tx) or "nothing"} (commit and begin expected)', F.where())
    # the columns of the table
    ctor = next((G for G in P.named(r'transaction::manager::Log::Log$') if any(x['k'] == 'call' and dbase.CONN_EXEC.search(G.name(x) or '') for x in walk(G.body))), None)
    ctx.need(ctor is not None, 'the constructor of Log not found')
    r, ps = run(ctx, ctor, Exec)
    cols = None
    for k, st in ps:
        ex = [e for e in st.auto if e[0] in ('sql', 'tx')]
        for e in ex:
            if e[0] == 'sql' and e[1] and re.search(r'create\s+table', e[1], re.I):
                body = e[1][e[1].index('(') + 1:]
                cols = [x.strip().split()[0] for x in re.sub(r'\([^()]*\)', '', body).split(',') if x.strip() and not re.match(r'\s*(primary|\)|;)', x, re.I)]
        ctx.expect(ex and ex[-1][0] == 'tx' and ex[-1][1].endswith('begin'), 'Log::Log', 'the log is not left in a database transaction when it is opened', ctor.where())
    ctx.need(cols and 'gtrid' in cols, 'the table of the log not found')
    d = next((G for G in P.named(r'transaction::manager::Log::~Log$')), None)
    if ctx.expect(d is not None, 'Log::~Log', 'the log is not committed when it is closed', ctor.where()):
        r, ps = run(ctx, d, Exec)
        for k, st in ps:
            ctx.expect(any(e[0] == 'tx' and e[1] == 'commit' for e in st.auto), 'Log::~Log', 'the log is not committed when it is closed', d.where())
    # prepare: a row for each branch
    F = of('prepare')
    r, ps = run(ctx, F, Exec, [('sym', 'transaction')])
    want = {'gtrid': r'^global\(.*branches\[\]\.trid\)$', 'bqual': r'^branch\(.*branches\[\]\.trid\)$', 'format': r'branches\[\]\.trid\.xid\.formatID$', 'state': r'prepared$'}
    n = 0
    for k, st in ps:
        evs = st.auto
        ins = [e for e in evs if e[0] == 'sql']
        each = [e for e in evs if e[0] == 'each' and e[1].endswith('branches[]')]
        ctx.expect(not ins or each, 'Log::prepare: each', 'what is logged is not each branch of the transaction', F.where())
        if each:
            ctx.expect(len(ins) == 1, 'Log::prepare: each', f'{len(ins)} rows are logged for a prepared branch', at(each[0]))
        for e in ins:
            n += 1
            m = re.match(r'\s*insert\s+into\s+trans\s*(\(([^)]*)\))?\s*values', e[1] or '', re.I)
            if not ctx.expect(m is not None, 'Log::prepare: insert', 'a prepared branch is not inserted in the log', at(e)):
                continue
            names = [x.strip() for x in m.group(2).split(',')] if m.group(2) else cols
            ctx.expect(len(names) == len(e[2]), 'Log::prepare: columns', f'{len(e[2])} values for {len(names)} columns', at(e))
            for c, v in zip(names, e[2]):
                if c in want:
                    p = path(v) if v[0] != 'e' else v[1]
                    ctx.expect(re.search(want[c], re.sub(r'tag>|\w+::', '', p)) or simple(c, p), f'Log::prepare: {c}', f'the column {c} gets {p}', at(e))
    ctx.need(n, 'Log::prepare executes nothing')
    F = next((G for G in P.named(r'transaction::manager::Log::remove$') if any(x['k'] == 'call' and dbase.ANY.search(G.name(x) or '') for x in walk(G.body))), None)
    ctx.need(F is not None, 'Log::remove not found')
    r, ps = run(ctx, F, Exec, [('sym', 'global')])
    for k, st in ps:
        ins = [e for e in st.auto if e[0] == 'sql']
        ok = len(ins) == 1 and re.fullmatch(r'\s*delete\s+from\s+trans\s+where\s+gtrid\s*=\s*(\?|:\w+)\s*;?\s*', ins[0][1] or '', re.I) and [path(x) for x in ins[0][2]] == ['global']
        ctx.expect(ok, 'Log::remove', 'the removal does not delete the rows of the global transaction (and nothing else)', F.where())


def simple(c, p):
    if c == 'gtrid':
        return 'gtrid' in p and '[]' in p and 'trid' in p and 'bqual' not in p.replace('gtrid_length', '') or re.search(r'\.global\b', p)
    if c == 'bqual':
        return 'branches[]' in p and ('bqual' in p or 'gtrid_length' in p)
    return False


def idle(ctx):
    P = ctx.P
    n = 0
    for F in P.find(file=r'^transaction/source/manager/'):
        if F.body is None or not any(x['k'] == 'call' and (F.name(x) or '').endswith('dispatch::condition::idle') for x in walk(F.body)):
            continue
        lams = []

        class Grab(TM):
            def special(self, I, fr, node, name, obj, args, st):
                if name.endswith('dispatch::condition::idle'):
                    lams.append(I.read(args[0], st))
                return super().special(I, fr, node, name, obj, args, st)
        run(ctx, F, Grab)
        for lam in lams:
            ctx.need(lam[0] == 'lam', f'{F.where()}: the idle callback is not known')
            n += 1
            G = P.funcs[lam[1][0]]
            r = TM(P)
            I = Interp(P, r)
            for k, v, st in I.run(G, (), this=lam[3], caps=lam[2]):
                if k != 'throw':
                    ev = [(e[0], e[1]) for e in st.auto]
                    if any(f[0] == 't' and b and 'replies' in path(f[1]) and 'empty' in path(f[1]) for f, b in st.facts.items()):
                        continue
                    ctx.expect(('log', 'persist') in ev and any(x == 'flush' for x, _ in ev), 'idle: persist', 'an idle transaction manager does not persist: votes that wait are never sent', G.where())
    ctx.expect(n, 'idle: persist', 'the transaction manager does nothing when it is idle: votes that wait are never sent', 'transaction/source/manager/main.cpp')
