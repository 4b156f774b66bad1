"""where a request for a service goes: the most preferred instance"""
from .svc_common import *
from ..interp import subterms_of as subterms

SORT = re.compile(r'(^|::)(stable_sort|sort)$')
METHODS = r'service::manager::state::service::Instances::\w+$'
FILE = r'^service/'


class Ranges(SM):
    """what happens with the instances of a service"""
    again = False
    watch = r'(m_sequential|m_concurrent|m_prioritized_concurrent)$'
    facts_of = r'.'

    def more(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        if SORT.search(name) and args and 'm_concurrent' in path(args[0]):
            by = tuple(I.rvalue(a, st) for a in args)
            return [(('c', None), I.havoc(strip_hv(args[0]), I.site(fr, node), self.event(st, ('sort', path(strip_hv(args[0])), by, s))))]
        return None

    def on_assign(self, I, fr, node, lhs, val, st):
        p = path(strip_hv(lhs))
        if p.endswith('m_prioritized_concurrent'):
            return self.event(st, ('front', p, (val,), (fr.F.file, node.get('l'))))
        if 'm_concurrent' in p and re.search(r'\.(order|hops|id)$', p):
            return self.event(st, ('write', p, (val, lhs), (fr.F.file, node.get('l'))))
        return st


class Lookup(SM):
    again = False
    facts_of = r'associations|reserve|gtrid|requester|has_sequential|m_sequential|contains'
    watch = r'associations|lookups'

    def more(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        if name.endswith('service::manager::State::reserve_concurrent'):
            vals = tuple(I.rvalue(a, st) for a in args)
            t = ('call', 'reserve', vals, I.site(fr, node))
            return [(t, self.event(I.fresh_call(t, st), ('reserve', '', vals + (t,), s)))]
        m = re.search(r'(lookup_index<.*>|Index<.*>)::(indexes|operator\[\]|contains|lookup)$', name)
        if m and obj is not None:
            return [(('call', m.group(2), (strip_hv(obj),) + tuple(I.rvalue(a, st) for a in args), None), st)]
        return None


class Update(Ranges):
    facts_of = r'directive|m_concurrent|lookup\('

    def inline(self, F, node):
        return not re.search(r'restrict_add_services|Deadline|State::remove', F.qn or '')
    watch = r'(m_sequential|m_concurrent|m_prioritized_concurrent|lookups)$'

    def more(self, I, fr, node, name, obj, args, st):
        s = self.site(fr, node)
        m = re.search(r'(lookup_index<.*>|Index<.*>)::(indexes|operator\[\]|contains|lookup)$', name)
        if m and obj is not None:
            return [(('call', m.group(2), (strip_hv(obj),) + tuple(I.rvalue(a, st) for a in args), None), st)]
        m = re.search(r'lookup_index<.*>::(emplace|insert|erase)$', name)
        if m and obj is not None:
            vals = tuple(I.rvalue(a, st) for a in args)
            t = ('call', m.group(1), (strip_hv(obj),) + vals, I.site(fr, node))
            return [(t, self.event(st, (m.group(1), path(strip_hv(obj)), vals, s)))]
        return Ranges.more(self, I, fr, node, name, obj, args, st)

    def on_assign(self, I, fr, node, lhs, val, st):
        p = path(strip_hv(lhs))
        if 'concurrent' in p and re.search(r'\.order$', p):
            return self.event(st, ('write', p, (val, lhs), (fr.F.file, node.get('l'))))
        return Ranges.on_assign(self, I, fr, node, lhs, val, st)


def check(ctx):
    P = load(ctx)
    ctx.rule('after every change of the concurrent instances of a service they are sorted by order and hops, and the most preferred ones are found again; one of these is chosen, one that the transaction '
             'is associated with if there is one; a new order of an instance reaches every service that has it; services lose an instance before it is gone; a lookup in a transaction '
             'associates the transaction with the instance that is replied; external callers never get a concurrent instance')
    ctx.assume('common::algorithm (sort, upper_bound, find_first_of, random::next) does what it is named for')
    Fs = [F for F in P.find(file=FILE) if re.search(METHODS, F.qn) and F.body is not None]
    seen = set()
    for F in Fs:
        seen |= ranges(ctx, F)
    for x, what in (('grow', 'get an instance'), ('shrink', 'lose an instance'), ('write', 'change the order of an instance')):
        ctx.expect(x in seen, 'ranges: ' + x, f'the concurrent instances of a service never {what}', Fs[0].where() if Fs else None)
    choice(ctx, Fs)
    reserve(ctx, P)
    compare(ctx, P)
    advertise(ctx, P)
    gone(ctx, P)
    lookup(ctx)


def ranges(ctx, F):
    r, out, I = run(ctx, F, Ranges, None, this=('sym', 'self'), rel=False)
    name = F.qn.rsplit('::', 1)[-1]
    seen = set()
    for k, v, s in out:
        evs = s.auto
        sorted_, front, why = True, True, None
        for e in evs:
            if e[0] in ('grow', 'write') and 'm_concurrent' in e[1]:
                sorted_ = front = False
                why = e
                seen.add(e[0])
                if e[0] == 'write':
                    ctx.expect(e[1].endswith('.order') or e[1].endswith('.hops'), f'{name}: write', f'{e[1][-40:]} of an instance is changed', at(e))
            elif e[0] == 'shrink' and 'm_concurrent' in e[1]:
                front = False
                why = e
                seen.add(e[0])
            elif e[0] == 'sort':
                sorted_ = True
                front = False
                why = why or e
            elif e[0] == 'front':
                if sorted_:
                    front = True
                none = fact(evs[:evs.index(e)], lambda p: re.match(r'(empty|std::empty)\(self\.m_concurrent\)$', p))
                t = path(e[2][0])
                if none is not True and 'm_concurrent' in t:
                    wrong = 'lower_bound' in t or 'back(' in t or '.#1' in t and 'equal_range' not in t or not re.search(r'upper_bound|equal_range|find|partition|while|count|distance|next', t)
                    ctx.expect(not wrong, f'{name}: most preferred', f'{t[-100:]} are taken for the most preferred instances', at(e))
                elif none is not True:
                    ctx.expect(none is None, f'{name}: most preferred', 'no instance is taken for the most preferred though there are some', at(e))
        if why:
            ctx.expect(sorted_, f'{name}: sorted', 'the concurrent instances of a service are not sorted after a change', at(why))
            ctx.expect(front, f'{name}: most preferred', 'the most preferred instances are not found again after a change', at(why))
    return seen


def fact(evs, pred):
    r = None
    for e in evs:
        if e[0] == 'fact' and e[1][0] == 't' and pred(path(e[1][1])):
            r = e[2]
    return r


def choice(ctx, Fs):
    chosen = 0
    for F in Fs:
        if not F.qn.endswith('::next_concurrent'):
            continue
        r, out, I = run(ctx, F, Ranges, None, this=('sym', 'self'), rel=False)
        among = False
        for k, v, s in out:
            t = path(v)
            none = fact(s.auto, lambda p: p.startswith('empty(') and 'm_prioritized_concurrent' in p)
            found = fact(s.auto, lambda p: 'find' in p and 'm_prioritized_concurrent' in p)
            if 'm_' not in t:
                ctx.expect(none is True, 'choice: none', 'no instance is chosen though there are some', F.where())
                continue
            chosen += 1
            ctx.expect('m_prioritized_concurrent' in t and t.endswith('.id'), 'choice: which', f'{t[-80:]} is chosen', F.where())
            ctx.expect(none is not True, 'choice: none', 'an instance is chosen where there is none', F.where())
            if found is True:
                among = True
                ctx.expect('find' in t, 'choice: associated', 'another instance than the one that the transaction is associated with is chosen', F.where())
            elif 'find' in t:
                ctx.expect(False, 'choice: associated', 'an instance is taken from an unsuccessful search', F.where())
        ctx.expect(among, 'choice: associated', 'the instances that the transaction is associated with are not looked for', F.where())
    ctx.expect(chosen, 'choice', 'no concurrent instance is ever chosen', Fs[0].where() if Fs else None)


def reserve(ctx, P):
    Fs = [F for F in P.find(file=FILE) if F.qn.endswith('service::manager::State::reserve_concurrent') and F.body is not None]
    ctx.need(Fs, 'State::reserve_concurrent not found')
    for F in Fs:
        r, out, I = run(ctx, F, Update, [('sym', 'service_id'), ('sym', 'preferred')], this=('sym', 'self'), rel=False, facts_of=r'.')
        some = prefer = False
        for k, v, s in out:
            t = path(v)
            if 'm_' in t:
                some = True
                prefer |= 'preferred' in t
                ctx.expect('service_id' in t, 'choice: service', 'an instance of another service is chosen', F.where())
        ctx.expect(some, 'choice: reserve', 'no concurrent instance is ever chosen', F.where())
        ctx.expect(prefer, 'choice: associated', 'the instances that the transaction is associated with are not looked for', F.where())


def value(t, env, heap):
    """the value of a term when the members of lhs and rhs are known"""
    if t[0] == 'c':
        return t[1]
    if t[0] == 'mem' and path(t) in env:
        return env[path(t)]
    if t[0] in ('deref', 'val'):
        return value(t[1], env, heap)
    if t[0] == 'bool':
        return value(t[1], env, heap)
    if t[0] == 'call':
        n = t[1].rsplit('::', 1)[-1]
        vs = [value(x, env, heap) for x in t[2]]
        if n in ('tie', 'make_tuple', 'forward_as_tuple', 'make_pair'):
            return tuple(vs)
        if len(vs) == 2:
            ops = {'operator<': lambda a, b: a < b, 'operator>': lambda a, b: a > b, 'operator==': lambda a, b: a == b, 'operator<=>': lambda a, b: (a > b) - (a < b)}
            if n in ops:
                return ops[n](*vs)
        raise LookupError(n)
    if t[0] == 'new' and 'tuple' in t[1]:
        return tuple(value(x, env, heap) for x in t[2])
    if t[0] in ('lt', 'gt', 'le', 'ge', 'eq', 'ne') and len(t) > 2:
        a, b = value(t[1], env, heap), value(t[2], env, heap)
        return dict(lt=a < b, gt=a > b, le=a <= b, ge=a >= b, eq=a == b, ne=a != b)[t[0]]
    if t[0] in ('op', 'bin') and len(t) > 3:
        a, b = value(t[2], env, heap), value(t[3], env, heap)
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b, '&&': a and b, '||': a or b}[t[1]]
    if t[0] == 'not':
        return not value(t[1], env, heap)
    raise LookupError(t[0])


def compare(ctx, P):
    """which of two instances is preferred, for every relation of their orders and hops"""
    Fs = [F for F in P.find(file=FILE) if re.search(r'service::instances::operator\s?<$', F.qn) and F.body is not None]
    for F in Fs:
        r, out, I = run(ctx, F, Ranges, [('sym', 'lhs'), ('sym', 'rhs')], rel=False)
        for o in (-1, 0, 1):
            for h in (-1, 0, 1):
                env = {'lhs.order': 1, 'rhs.order': 1 - o, 'lhs.hops': 1, 'rhs.hops': 1 - h}
                want = (o, h) < (0, 0)
                got = set()
                try:
                    for k, v, s in out:
                        if all(value(f[1], env, s) == b if f[0] == 't' else value(f, env, s) == b for f, b in s.facts.items()):
                            got.add(bool(value(v, env, s)))
                except (LookupError, TypeError, KeyError) as x:
                    ctx.count('comparisons not decided')
                    continue
                ctx.expect(got == {want}, 'compare', f'an instance with {"lower" if o < 0 else "higher" if o else "equal"} order and {"fewer" if h < 0 else "more" if h else "as many"} hops is {"not " if want else ""}preferred', F.where())
    ctx.expect(Fs, 'compare', 'instances are not compared', None)


def advertise(ctx, P):
    Fs = [F for F in P.find(file=FILE) if F.qn.endswith('service::manager::State::update') and F.body is not None and 'concurrent' in F.id + repr(F.sig if hasattr(F, 'sig') else '')]
    if not Fs:
        Fs = [F for F in P.find(file=FILE) if F.qn.endswith('service::manager::State::update') and F.body is not None]
    seen = set()
    where = Fs[0].where() if Fs else None
    for F in Fs:
        r, out, I = run(ctx, F, Update, [('sym', 'message')], this=('sym', 'self'), rel=False, limits=Once)
        for k, v, s in out:
            evs = s.auto
            only = next((e[2] for e in evs if e[0] == 'fact' and e[1][0] == 'eq' and 'directive' in path(e[1][1]) and path(e[1][2]).endswith('instance')), None)
            for i, e in enumerate(evs):
                if e[0] == 'grow' and 'm_concurrent' in e[1]:
                    seen.add('add')
                    v2 = e[2][0]
                    parts = [path(x) for x in v2[2]] if v2[0] == 'new' else [path(v2)]
                    ctx.expect(any('message.process.ipc' in p for p in parts), 'advertise: instance', 'another instance is added to the service than the one that advertises', at(e))
                    ctx.expect('message.order' in parts, 'advertise: order', 'the instance is added with another order than it advertises', at(e))
                    ctx.expect(any(p.endswith('property.hops') and 'message.services.add' in p for p in parts), 'advertise: hops', 'the instance is added with other hops than it advertises', at(e))
                if e[0] == 'write' and 'instances.concurrent' in e[1] and 'm_concurrent' not in e[1]:
                    seen.add('order')
                    ctx.expect(path(e[2][0]) == 'message.order', 'advertise: order', f'the order of an instance becomes {path(e[2][0])[-60:]}', at(e))
                if e[0] == 'write' and 'm_concurrent' in e[1]:
                    seen.add('services')
                    ctx.expect(path(e[2][0]) == 'message.order', 'advertise: order', f'the order of an instance of a service becomes {path(e[2][0])[-60:]}', at(e))
                    ctx.expect('message.process.ipc' in e[1] or any(x[0] == 'fact' and x[1][0] == 'eq' and x[2] and 'message.process.ipc' in path(x[1][1]) + path(x[1][2]) for x in evs[:i]), 'advertise: which', 'the order of another instance is changed', at(e))
            if only:
                wrote = any(e[0] == 'write' and 'm_concurrent' not in e[1] for e in evs)
                known = fact(evs, lambda p: p.startswith('lookup(') and 'concurrent' in p)
                if wrote:
                    ctx.expect(known is True, 'advertise: unknown', 'the order of an instance that is not known is changed', F.where())
    ctx.expect('order' in seen, 'advertise: order', 'the order of an instance is never updated', where)
    ctx.expect('services' in seen, 'advertise: services', 'services do not learn the new order of an instance: requests go on to the one that was preferred before', where)
    ctx.expect('add' in seen, 'advertise: add', 'no service ever gets a concurrent instance', where)


def gone(ctx, P):
    Fs = [F for F in P.find(file=FILE) if re.search(r'service::manager::local::.*remove$', F.qn) and F.body is not None]
    for F in Fs:
        r, out, I = run(ctx, F, Update, [('sym', 'state'), ('sym', 'process')], rel=False, limits=Once)
        seen = set()
        for k, v, s in out:
            for kind in ('concurrent', 'sequential'):
                er = [i for i, e in enumerate(s.auto) if e[0] == 'erase' and e[1].endswith('instances.' + kind)]
                sh = [i for i, e in enumerate(s.auto) if e[0] == 'shrink' and e[1].endswith('.m_' + kind)]
                if er and sh:
                    seen.add(kind)
                    ctx.expect(max(sh) < min(er), f'gone: {kind}', 'an instance is gone before the services lose it', at(s.auto[er[0]]))
        for kind in ('concurrent', 'sequential'):
            ctx.expect(kind in seen, f'gone: {kind}', f'a service keeps a {kind} instance of a process that is gone', F.where())
    ctx.need(Fs, 'where instances are removed was not found')


def lookup(ctx):
    h, r, ps = paths(ctx, LOOKUP, Lookup, limits=Once)
    w = h.F.where()
    seen = set()
    for k, s in ps:
        evs = s.auto
        for i, e in enumerate(evs):
            if e[0] != 'reserve' or e[1]:
                continue
            t = e[2][-1]
            got = next((x[2] for x in evs[i:] if x[0] == 'fact' and x[1][0] == 't' and strip(x[1][1]) == t), None)
            ext = next((x[2] for x in evs if x[0] == 'fact' and x[1][0] == 'eq' and any(path(y).endswith('Requester::external') for y in x[1][1:3])), None)
            ctx.expect(ext is not True, 'lookup: external', 'a request from another domain is given to another domain again', at(e))
            seq = fact(evs[:i], lambda p: p.endswith('m_sequential)') and p.startswith('empty('))
            ctx.expect(seq is True, 'lookup: local', 'a request goes to another domain though there is a local instance', at(e))
            ctx.expect('requested' in path(e[2][0]), 'lookup: service', 'an instance of another service is chosen', at(e))
            if got is None:
                continue
            seen.add(got)
            sends = [x for x in evs[i:] if x[0] == 'send' and x[1] == 'service_name_lookup_reply']
            if not got:
                ctx.expect(not any(contains(x[2][1], t) for x in sends), 'lookup: none', 'an instance is replied where there is none', at(e))
                continue
            ctx.expect(len(sends) == 1 and contains(sends[0][2][1], t), 'lookup: replied', 'another instance than the one that was chosen is replied', at(e))
            size = next((x[2] for x in evs if x[0] == 'fact' and 'gtrid' in repr(x[1][1]) and x[1][0] == 'eq' and 'size' in path(x[1][1])), None)
            tran = None if size is None else not size
            if tran:
                seen.add('transaction')
                known = fact(evs[:i], lambda p: 'find' in p and 'associations' in p)
                if known:
                    seen.add('associated')
                    ctx.expect('associations' in path(e[2][1]) and 'gtrid' in path(e[2][1]), 'lookup: associated', 'the instances that the transaction is associated with are not preferred', at(e))
                there = next((x[2] for x in evs[i:] if x[0] == 'fact' and contains(x[1], t) and x[1][0] == 't' and re.match(r'(find|contains|any_of)', path(x[1][1])) and 'associations' in path(x[1][1])), None)
                add = [x for x in evs[i:] if x[0] == 'grow' and 'associations' in x[1] and any(contains(y, t) for y in x[2])]
                ctx.expect(there is True or add, 'lookup: associate', 'the transaction is not associated with the instance that is replied', at(e))
                for x in add:
                    ctx.expect(known and x[1].endswith('second') or 'gtrid' in x[1] or any('gtrid' in path(y) for y in x[2]), 'lookup: associate', 'another transaction is associated with the instance', at(x))
    for x, what in ((True, 'finds a concurrent instance'), (False, 'finds no concurrent instance'), ('transaction', 'looks at the transaction'), ('associated', 'finds associated instances')):
        ctx.expect(x in seen, f'lookup: {x}', f'the lookup never {what}', w)
