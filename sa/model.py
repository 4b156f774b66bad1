"""Model of the messaging layer: message types, handlers, the primitives that send."""
import re
from .interp import Interp, Rule, Budget, State, path, root, strip_hv, contains, prefixes
from . import facts

clean = lambda t: re.sub(r'\s+', ' ', re.sub(r'\b(const|volatile|struct|class|enum)\b ?', '', t or '').replace('&', '')).strip()

DISPATCH = re.compile(r'(casual::common::message::dispatch::(handler|basic_handler<.*>::basic_handler|basic_handler<.*>::insert)|casual::common::event::listener)$')


def msgtype(P, t, depth=0):
    """enumerator of message::Type of a message type (by its bases), or None"""
    r = P.records.get(clean(t))
    if r is None:
        return None
    cache = getattr(P, '_msgtype', None)
    if cache is None:
        cache = P._msgtype = {}
    k = clean(t)
    if k in cache:
        return cache[k]
    res = None
    m = re.search(r'basic_(?:message|request|reply|process|id)\w*<.*?Type::(\w+)', k)
    if m:
        res = m.group(1)
    else:
        for b in r.get('bases', []):
            b = r['S'][b['t']] if isinstance(b, dict) else (r['S'][b] if isinstance(b, int) else b)
            m = re.search(r'\w+<.*?message::Type::(\w+)', b) or re.search(r'message_type<.*Type::(\w+)', b)
            if m:
                res = m.group(1)
                break
            if depth < 8:
                res = msgtype(P, b, depth + 1)
                if res:
                    break
    if res and res.endswith('_BASE'):
        for en, e in P.enums.items():
            if en.endswith('message::Type'):
                val = {c[0]: c[1] for c in e['c']}
                res = next((c[0] for c in e['c'] if c[1] == val.get(res) and not c[0].endswith('_BASE')), res)
                break
    cache[k] = res
    return res


class Discover(Rule):
    """collects the handlers that a function puts in a dispatch table"""
    try_may_throw = False

    def __init__(self):
        self.found = []

    def inline(self, F, node):
        rt = F.S[F.d['rt']]
        return 'lambda' in rt or 'handler' in rt or 'class)' in rt

    def on_call(self, I, fr, node, name, obj, args, st):
        if name and DISPATCH.search(name):
            vals = [I.read(a, st) for a in args]
            for v in vals:
                for x in flatten(v):
                    if x[0] in ('lam',):
                        self.found.append(x)
            return [(('new', 'dispatch', tuple(vals), None), st)]
        return None


def flatten(v):
    if v[0] == 'lam':
        yield v
    elif v[0] == 'new':
        for x in v[2]:
            if isinstance(x, tuple) and x:
                yield from flatten(x)
    elif v[0] == 'upd':
        yield from flatten(v[1])
        for _, x in v[2]:
            yield from flatten(x)


class Handler:
    __slots__ = ('F', 'lam', 'message', 'type', 'via')

    def __init__(self, F, lam, message, type, via):
        self.F, self.lam, self.message, self.type, self.via = F, lam, message, type, via

    def __repr__(self):
        return f'<{self.type} {self.F.file}:{self.F.line}>'


def dispatchers(P, file):
    """functions (in files matching) that build a dispatch table directly"""
    for F in P.find(file=file):
        if F.d.get('lambda') or F.body is None or 'handler' not in F.S[F.d['rt']]:
            continue
        for n in facts.walk(F.body):
            if n['k'] in ('call', 'ctor') and DISPATCH.search(F.name(n) or '') and n.get('a'):
                yield F
                break


def handlers(P, file):
    """message handlers registered by functions in files matching `file`; [(Handler)]"""
    out, seen = [], set()
    for D in dispatchers(P, file):
        rule = Discover()
        I = Interp(P, rule)
        try:
            I.run(D, ())
        except Budget:
            raise facts.AnalysisError(f'cannot enumerate the handlers of {D}')
        for lam in rule.found:
            for fid in lam[1]:
                F = P.funcs.get(fid)
                if F is None or not F.params or (fid, lam[2]) in seen:
                    continue
                seen.add((fid, lam[2]))
                m = clean(F.ptype(0))
                out.append(Handler(F, lam, m, msgtype(P, m), D))
    return out


def flatten_all(v):
    """every callable inside a value"""
    if isinstance(v, tuple) and v:
        if v[0] == 'lam':
            yield v
        for x in v:
            if isinstance(x, tuple):
                yield from flatten_all(x)


def defaults(P, t, depth=0):
    """{field: value} for the fields of a record with a constant default initializer"""
    r = P.records.get(clean(t))
    out = {}
    if r is None or depth > 6:
        return out
    S = r['S']
    for b in r.get('bases', []):
        b = S[b['t']] if isinstance(b, dict) else (S[b] if isinstance(b, int) else b)
        out.update(defaults(P, b, depth + 1))
    for f in r['fields']:
        i = f.get('init')
        ft = clean(S[f['t']])
        while i is not None and i['k'] in ('cast', 'init', 'ctor') and (i.get('e') or len(i.get('a') or []) == 1):
            i = i.get('e') or i['a'][0]
        e = P.enums.get(ft)
        if i is None:
            continue
        if i['k'] == 'init' and not i.get('a') or i['k'] == 'zero':
            if e:
                z = [c[0] for c in e['c'] if int(c[1]) == 0]
                if z:
                    out[f['n']] = ('e', ft + '::' + z[0], '0')
            elif re.fullmatch(r'(unsigned |signed )?(int|long|short|char|bool|unsigned|long long)', ft):
                out[f['n']] = ('c', False) if ft == 'bool' else ('c', 0)
        elif i['k'] == 'bool':
            out[f['n']] = ('c', bool(i.get('v')))
        elif i['k'] == 'int':
            out[f['n']] = ('c', int(i.get('v')))
        elif i['k'] == 'ref' and e:
            n = (i.get('n') or i.get('qn') or '').rsplit('::', 1)[-1]
            z = [c for c in e['c'] if c[0] == n]
            if z:
                out[f['n']] = ('e', ft + '::' + n, str(z[0][1]))
    return out
