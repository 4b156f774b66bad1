"""Does a function write to (something reached from) one of its parameters or its object?  Used to keep what is known
about an argument across a call whose body is not interpreted.  Conservative: unknown means yes."""
import re
from .facts import walk

PASS = re.compile(r'^(std::(move|forward|ref|cref|as_const|addressof)|__builtin_addressof)$')
NONMUT = re.compile(r'::(begin|end|front|back|at|data|get|operator\[\]|operator\*|operator->|find|rbegin|rend|range|c_str|value|lower_bound|upper_bound|size|empty)$')
NAMED = re.compile(r'^(std::(size|empty|begin|end|cbegin|cend|data|ssize|distance|any_of|all_of|none_of|count_if|max|min|tie)$|casual::common::(range|string|view|predicate|process|log|code)::|casual::common::log::)')


class Writes:
    def __init__(self, P):
        self.P, self.memo = P, {}

    def writes(self, G, key):
        k = (G.id, key)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False     # recursion: least fixpoint
        r = self._writes(G, key)
        self.memo[k] = r
        return r

    def _writes(self, G, key):
        if G.body is None:
            return True
        ids = set()
        if key != 'this':
            if key >= len(G.params):
                return True
            ids.add(G.params[key]['id'])
            t = G.S[G.params[key]['t']]
            if not t.endswith('&') and not t.endswith('*') and not t.endswith('&&'):
                return False
        this = key == 'this'

        def rooted(n):
            k = n.get('k') if isinstance(n, dict) else None
            if k == 'ref':
                return n.get('id') in ids
            if k == 'this':
                return this
            if k == 'mem':
                return rooted(n['b'])
            if k == 'cast':
                return rooted(n['e'])
            if k == 'index':
                return rooted(n['b'])
            if k == 'un' and n['op'] in ('*', '++', '--'):
                return rooted(n['e'])
            if k == 'cond':
                return rooted(n['a']) or rooted(n['b'])
            if k == 'call':
                name = G.name(n) if n.get('n') is not None else ''
                if 'obj' in n and (n.get('op') in ('->', '*', '[]') or NONMUT.search(name or '') or not n.get('cm')):
                    return rooted(n['obj'])
                if PASS.match(name or '') or NAMED.match(name or ''):
                    return any(rooted(a) for a in n['a'])
            return False

        nodes = list(walk(G.body)) + [x for i in G.d.get('inits', []) for x in walk(i.get('e'))]
        changed = True
        while changed:
            changed = False
            for n in nodes:
                if n['k'] == 'rfor':
                    v = n['var']
                    if v.get('id') not in ids and rooted(n['range']) and self._ref(G, v):
                        ids.add(v['id'])
                        ids.update(b['id'] for b in v.get('binds') or [])
                        changed = True
                elif n['k'] == 'decl':
                    for v in n['c']:
                        if v.get('id') not in ids and v.get('init') and rooted(v['init']) and self._ref(G, v):
                            ids.add(v['id'])
                            ids.update(b['id'] for b in v.get('binds') or [])
                            changed = True
        for n in nodes:
            k = n['k']
            if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                if rooted(n['a']):
                    return True
            elif k == 'un' and (n['op'] in ('++', '--', 'p++', 'p--', '&')) and rooted(n['e']):
                return True
            elif k == 'lambda':
                for c in n['caps']:
                    if c['n'] == 'this' and this:
                        return True
                    if c.get('id') in ids and c.get('ref') or c.get('init') and c.get('ref') and rooted(c['init']):
                        return True
            elif k in ('call', 'ctor', 'new'):
                name = G.name(n) if n.get('n') is not None else None
                if PASS.match(name or ''):
                    continue
                H = self.P.funcs.get(n.get('f')) if isinstance(n.get('f'), str) else None
                if k == 'call' and 'obj' in n and rooted(n['obj']) and not n.get('cm') and not n.get('st'):
                    if not (NONMUT.search(name or '') and (name or '').startswith(('std::', 'casual::common::'))) and n.get('op') not in ('->', '*'):
                        if H is None or self.writes(H, 'this'):
                            return True
                for i in n.get('mut', []):
                    if i < len(n.get('a', [])) and rooted(n['a'][i]):
                        if NAMED.match(name or ''):
                            continue
                        if H is None or self.writes(H, i):
                            return True
        return False

    @staticmethod
    def _ref(G, v):
        t = G.S[v['t']] if 't' in v else '&'
        return (t.endswith('&') or t.endswith('*')) and not t.startswith('const ') or bool(v.get('binds'))
