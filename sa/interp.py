"""Path-sensitive abstract interpreter over the extracted program.

Domain: a state is (heap, facts, auto)
  heap   lvalue term -> value term      (value numbering, terms are hash-consed tuples)
  facts  condition term -> True/False   (branch outcomes; dropped when an operand is written)
  auto   hashable state of the rule's automaton
Every project function whose source is in scope is analysed at its call (context sensitive
inlining), lambdas are values and analysed where they are called; loops are iterated to a
fixpoint of the set of states (with a cap that is counted); branches whose condition is not
decided by heap/facts continue in both directions.  No solver is involved.
"""
import re
import sys
from .mutate import Writes
sys.setrecursionlimit(20000)

TRUE, FALSE = ('c', True), ('c', False)

# functions that only pass their argument on
PASS = {'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::get_temporary', 'std::addressof', 'std::to_underlying',
        'std::move_if_noexcept', '__builtin_addressof', 'std::__addressof', 'std::make_move_iterator',
        'casual::common::range::make', 'std::exchange_'}

# opaque: bodies in these files are never inlined; described by the table below
OPAQUE = re.compile(r'common/include/common/(algorithm|range|stream|log|serialize|traits|string|view|predicate|functional|flag|execute|strong|code|terminal|uuid|unittest|cast)'
                    r'|common/source/(log|code|string|terminal|serialize|uuid|unittest)|cli/|argument')

# lambdas are called 0..n times by these (by any opaque function they are handed to, unless a hook says otherwise)
# never return
NORETURN = re.compile(r'casual::common::(code::raise::error|code::system::raise|event::error::(fatal::)?raise)$|^casual::terminate$')

MUTATING_ALGO = re.compile(r'(sort|partition|rotate|remove|reverse|unique|fill|trim|erase|move|copy|append|push|extract|insert|emplace|transform|generate|divide|exchange|swap|shuffle)')

NO_ARG_EFFECT = re.compile(r'^(std::(size|empty|begin|end|cbegin|cend|data|ssize|next|prev|distance|get|get_if|holds_alternative|any_of|all_of|none_of|find|find_if|count_if|max|min|tie|make_pair|make_tuple)'
                           r'|casual::common::(range|algorithm|log|string|view|predicate|process|cast|flag)::.*|casual::common::(log|code)::.*)$')


SCALAR = re.compile(r'^(unsigned |signed )?(int|long|short|char|bool|unsigned|long long|long int|unsigned long)$')


class State:
    __slots__ = ('heap', 'facts', 'auto', '_key')

    def __init__(self, heap, facts, auto):
        self.heap, self.facts, self.auto = heap, facts, auto
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.heap.items()), frozenset(self.facts.items()), self.auto)
        return self._key

    def copy(self, **kw):
        return State(kw.get('heap', self.heap), kw.get('facts', self.facts), kw.get('auto', self.auto))

    def with_auto(self, auto):
        return State(self.heap, self.facts, auto)


def dedupe(pairs):
    """[(x, state)] unique"""
    seen, out = set(), []
    for p in pairs:
        k = (p[:-1], p[-1].key())
        if k not in seen:
            seen.add(k)
            out.append(p)
    return out


def join(pairs):
    """merge outcomes that agree on automaton state and heap (their facts are intersected)"""
    if len(pairs) < 2:
        return pairs
    groups, order = {}, []
    for p in pairs:
        s = p[-1]
        k = (p[:-1], s.auto, frozenset(s.heap.items()))
        if k in groups:
            q = groups[k]
            f = {a: b for a, b in q[-1].facts.items() if s.facts.get(a) == b}
            groups[k] = q[:-1] + (State(q[-1].heap, f, q[-1].auto),)
        else:
            groups[k] = p
            order.append(k)
    return [groups[k] for k in order]


def contains(term, sub):
    if term == sub:
        return True
    if isinstance(term, tuple):
        for x in term:
            if isinstance(x, tuple) and contains(x, sub):
                return True
    return False


def subterms_of(t):
    if isinstance(t, tuple) and t:
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms_of(x)


def strip_hv(term):
    while isinstance(term, tuple) and term and term[0] == 'hv':
        term = term[1]
    return term


def prefixes(term):
    """the lvalue and everything it is a part of"""
    while True:
        term = strip_hv(term)
        yield term
        if isinstance(term, tuple) and term and term[0] in ('mem', 'elem', 'deref', 'idx'):
            term = term[1]
        else:
            return


def root(term):
    for t in prefixes(term):
        pass
    return t


def path(term):
    """render a term for matching/reporting"""
    if not isinstance(term, tuple) or not term:
        return str(term)
    k = term[0]
    if k == 'hv':
        return path(term[1])
    if k == 'c':
        return repr(term[1])
    if k == 'e':
        return term[1]
    if k == 'sym':
        return term[1]
    if k == 'v':
        return '$' + str(term[1])
    if k == 'mem':
        return f'{path(term[1])}.{term[2]}'
    if k == 'deref':
        return f'*{path(term[1])}'
    if k == 'elem':
        return f'{path(term[1])}[]'
    if k == 'idx':
        return f'{path(term[1])}[{path(term[2])}]'
    if k == 'call':
        return f"{term[1].split('::')[-1]}({', '.join(path(x) for x in term[2])})"
    if k == 'new':
        return f"{term[1].split('::')[-1]}{{{', '.join(path(x) for x in term[2])}}}"
    if k == 'upd':
        return path(term[1])
    if k == 'bool':
        return path(term[1])
    if k == 'fn':
        return term[2]
    if k == 'lam':
        return 'λ'
    if k in ('un',):
        return f'{term[1]}{path(term[2])}'
    if k == 'bin':
        return f'({path(term[2])} {term[1]} {path(term[3])})'
    return k


class Frame:
    __slots__ = ('F', 'id', 'env', 'this', 'depth', 'stack', 'refs', 'parent', 'defers')

    def __init__(self, F, id, env, this, stack):
        self.F, self.id, self.env, self.this, self.stack = F, id, env, this, stack
        self.refs = {}
        self.defers = None


class Limits:
    states = 24
    steps = 600000
    depth = 30
    loop = 4


class Rule:
    """base class of rules: all hooks optional"""

    def inline(self, F, node):
        return True

    def open(self, F):
        """look into a library function that is opaque otherwise"""
        return False

    def on_call(self, I, fr, node, name, obj, args, st):
        """return None (default treatment) or a list of (value, state)"""
        return None

    def after_call(self, I, fr, node, name, obj, args, val, st):
        return None

    on_fact = None      # (I, fact, value, state) -> state: a condition is decided on this path (facts may be forgotten later)

    def assume(self, I, v, st):
        """truth of a value that is known from elsewhere"""
        return None

    def on_assign(self, I, fr, node, lhs, val, st):
        return st

    def on_element(self, I, fr, node, elem, st):
        """an iteration over a range starts with this element"""
        return st

    def on_walk(self, I, fr, node, rng, st):
        """a range is about to be iterated over"""
        return st

    def on_loop(self, I, fr, node, st):
        """an iteration of a loop that is not over a range starts"""
        return st

    def on_leave(self, I, fr, node, kind, st):
        """a loop is left early: kind is brk, ret or throw"""
        return st

    def may_throw(self, I, fr, node, name):
        return False

    def on_return(self, I, fr, node, val, st):
        return st


class Budget(Exception):
    pass


class Interp:
    def __init__(self, P, rule, limits=Limits, relevant=None):
        self.P, self.rule, self.L, self.relevant = P, rule, limits, relevant
        self._trivial = {}
        self.steps = 0
        self.stats = dict(functions=set(), calls=0, opaque={}, caps=0, coarsened=0, lossy=0, recursion=0, loops=0)
        self._fid = {}
        self._frames, self._parents = {}, {}
        self.names = {}
        self.thrown = []
        self.effects = P.effects = getattr(P, 'effects', None) or Writes(P)

    # ------------------------------------------------------------ values
    def read(self, t, st, depth=0):
        """rvalue of a term"""
        if not isinstance(t, tuple):
            return t
        v = st.heap.get(t)
        if v is not None:
            return v
        if t[0] == 'mem' and depth < 20:
            b = self.read(t[1], st, depth + 1)
            if b != t[1]:
                return self.read(self.mem(b, t[2]), st, depth + 1)
        elif t[0] == 'deref' and depth < 20:
            b = self.read(t[1], st, depth + 1)
            if b != t[1]:
                return self.read(self.deref(b), st, depth + 1)
        elif t[0] in ('elem',) and depth < 20:
            b = self.read(t[1], st, depth + 1)
            if b != t[1]:
                return ('elem', b)
        return t

    def rvalue(self, t, st):
        """value of an lvalue including individually written members: ('upd', base, ((member, value), ...))"""
        v = self.read(t, st)
        if not isinstance(t, tuple) or t[0] not in ('v', 'mem', 'deref', 'elem', 'idx', 'sym'):
            return v
        kids = {}
        for k in st.heap:
            if k[0] == 'mem' and k != t:
                x = k
                while x[0] == 'mem' and x[1] != t:
                    x = x[1]
                if x[0] == 'mem' and x[1] == t:
                    kids[x[2]] = x
        if not kids:
            return v
        ov = tuple((f, self.rvalue(kids[f], st)) for f in sorted(kids))
        if v[0] == 'upd':
            d = dict(v[2])
            d.update(ov)
            return ('upd', v[1], tuple(sorted(d.items(), key=lambda x: x[0])))
        return ('upd', v, ov)

    def mem(self, b, f):
        if b[0] == 'upd':
            for n, v in b[2]:
                if n == f:
                    return v
            return self.mem(b[1], f)
        if b[0] == 'new' and b[3]:
            try:
                return b[2][b[3].index(f)]
            except (ValueError, IndexError):
                pass
        return ('mem', b, f)

    def deref(self, b):
        if b[0] == 'addr':
            return b[1]
        return ('deref', b)

    def kill_mentions(self, st, t, fieldwise=True):
        """drop facts and heap contents that depend on lvalue t"""
        pre = set(prefixes(t))
        field = t[2] if isinstance(t, tuple) and t[0] == 'mem' else None

        def hit(x, in_call=False):
            if not isinstance(x, tuple) or not x:
                return False
            if x == t:
                return True
            if in_call and x in pre:
                return True
            if field is not None and x[0] == 'mem' and x[2] == field and self.may_alias(x, t):
                return True
            c = in_call or x[0] == 'call'
            for y in x:
                if isinstance(y, tuple) and hit(y, c):
                    return True
            return False

        facts = st.facts
        nf = {k: v for k, v in facts.items() if not hit(k)}
        heap = st.heap
        nh = {}
        for k, v in heap.items():
            if k != t and self.is_prefix(t, k):
                continue
            if field is not None and k != t and k[0] == 'mem' and k[2] == field and self.may_alias(k, t):
                continue
            nh[k] = v
        return State(nh, nf, st.auto)

    def may_alias(self, a, b):
        ra, rb = root(a), root(b)
        if ra == rb:
            # same root: distinct member chains without elements do not alias
            pa, pb = path(a), path(b)
            if ('*' in pa) or ('[' in pa) or ('*' in pb) or ('[' in pb):
                return True
            return pa == pb
        # locals and fresh objects do not alias anything else
        if ra[0] in ('v', 'new', 'c', 'e') or rb[0] in ('v', 'new', 'c', 'e'):
            return False
        return True

    def is_prefix(self, p, t):
        for x in prefixes(t):
            if x == p:
                return True
        return False

    def write(self, t, v, st):
        st = self.kill_mentions(st, t)
        h = dict(st.heap)
        if v == t:
            h.pop(t, None)
        else:
            if t not in h and t[0] == 'mem':
                # a copy that was made before keeps what it has
                for k, x in st.heap.items():
                    if x == t and k[0] == 'v' and k in h:
                        h[k] = ('hv', t, 'before')
            h[t] = v
        return State(h, st.facts, st.auto)

    def havoc(self, t, site, st):
        t = strip_hv(t)
        if t[0] in ('c', 'e', 'lam', 'new'):
            return st
        st = self.kill_mentions(st, t)
        h = dict(st.heap)
        cur = ('hv', strip_hv(st.heap.get(t, t)) if t[0] == 'v' and t in st.heap and st.heap[t][0] not in ('c', 'e') else t, site)
        h[t] = cur
        # the content of an unknown version must not resolve to facts of an older one
        facts = {k: x for k, x in st.facts.items() if not contains(k, cur)}
        h = {k: x for k, x in h.items() if k == t or not contains(k, cur)}
        return State(h, facts, st.auto)

    def fresh_call(self, term, st):
        if any(contains(k, term) for k in st.facts) or any(contains(k, term) for k in st.heap):
            return State({k: v for k, v in st.heap.items() if not contains(k, term)},
                         {k: v for k, v in st.facts.items() if not contains(k, term)}, st.auto)
        return st

    # ------------------------------------------------------------ conditions
    def truth(self, v, st):
        """[(bool, state)]"""
        if v[0] == 'c':
            x = v[1]
            if isinstance(x, str) and re.fullmatch(r'-?\d+', x):
                x = int(x)
            return [(bool(x), st)]
        if v[0] == 'un' and v[1] == '!':
            return [(not b, s) for b, s in self.truth(v[2], st)]
        if v[0] == 'bin' and v[1] in ('==', '!='):
            a, b = v[2], v[3]
            neg = v[1] == '!='
            if a == b:
                return [(not neg, st)]
            ca, cb = a[0] in ('c', 'e'), b[0] in ('c', 'e')
            if ca and cb:
                return [((self.const_eq(a, b)) != neg, st)]
            if ca:
                a, b = b, a
            elif not cb and repr(a) > repr(b):
                a, b = b, a
            key = ('eq', a, b)
            if key in st.facts:
                return [(st.facts[key] != neg, st)]
            known = self.rule.assume(self, key, st)
            if known is not None:
                return [(known != neg, st)]
            if b[0] in ('c', 'e'):
                for k, val in st.facts.items():
                    if k[0] == 'eq' and k[1] == a and val and k[2][0] in ('c', 'e') and not self.const_eq(k[2], b):
                        return [(neg, st)]
            out = []
            for val in (True, False):
                f = dict(st.facts)
                f[key] = val
                out.append((val != neg, self.decided(key, val, State(st.heap, f, st.auto))))
            return out
        if v[0] == 'bin' and v[1] in ('>', '>=', '<', '<='):
            op, a, b = v[1], v[2], v[3]
            flip = False
            if op == '<=':
                op, flip = '>', True
            elif op == '>=':
                op, flip = '<', True
            if op == '<':
                op, a, b = '>', b, a
            v = ('bin', op, a, b)
            na, nb = self.num(a), self.num(b)
            if na is not None and nb is not None:
                return [((na > nb) != flip, st)]
            if v in st.facts:
                return [(st.facts[v] != flip, st)]
            out = []
            for val in (True, False):
                f = dict(st.facts)
                f[v] = val
                out.append((val != flip, self.decided(v, val, State(st.heap, f, st.auto))))
            return out
        if v[0] in ('lam', 'new') and v[0] == 'lam':
            return [(True, st)]
        if v[0] == 'bool' and v[1][0] == 'new' and not v[1][2] and v[1][1].startswith(('std::optional<', 'casual::common::strong::Type<')):
            return [(False, st)]
        if v[0] == 'bool' and v[1][0] == 'new' and len(v[1][2]) == 1 and v[1][1].startswith('std::optional<') and v[1][2][0][0] in ('bin', 'call') and re.search(r'operator[-+*/]$', v[1][2][0][1]):
            return [(True, st)]
        known = self.rule.assume(self, v, st)
        if known is not None:
            return [(known, st)]
        key = ('t', v)
        if key in st.facts:
            return [(st.facts[key], st)]
        out = []
        for val in (True, False):
            f = dict(st.facts)
            f[key] = val
            out.append((val, self.decided(key, val, State(st.heap, f, st.auto))))
        return out

    def decided(self, key, val, st):
        return self.rule.on_fact(self, key, val, st) if self.rule.on_fact else st

    def num(self, t):
        if t[0] == 'c' and isinstance(t[1], (int, float)):
            return t[1]
        if t[0] == 'e' and len(t) > 2 and t[2] is not None:
            return int(t[2])
        return None

    def const_eq(self, a, b):
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            return na == nb
        return a == b

    # ------------------------------------------------------------ variables
    def var_loc(self, fr, vid, st):
        r = st.heap.get(('ref', vid, fr.id))
        if r is not None:
            return r
        r = fr.env.get(vid)
        if r is not None:
            return r
        return ('v', vid, fr.id)

    def frame_id(self, parent, node):
        k = (parent, id(node))
        r = self._frames.get(k)
        if r is None:
            r = self._frames[k] = len(self._frames) + 1
            self._parents[r] = parent
        return r

    def site(self, fr, node):
        return (fr.F.id, node.get('l'), id(node))

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr, st):
        """evaluate to [(lvalue-or-value term, state)]"""
        self.steps += 1
        if self.steps > self.L.steps:
            raise Budget(f'budget exhausted in {fr.F}')
        m = getattr(self, 'x_' + n['k'], None)
        if m is None:
            return self.x_other(n, fr, st)
        return m(n, fr, st)

    def rv(self, n, fr, st):
        """evaluate to an rvalue"""
        return [(self.read(v, s), s) for v, s in self.ev(n, fr, st)]

    def evs(self, ns, fr, st):
        """evaluate a list, [(tuple of terms, state)]"""
        acc = [((), st)]
        for n in ns:
            if n is None:
                acc = [(vs + (('c', None),), s) for vs, s in acc]
                continue
            nxt = []
            for vs, s in acc:
                for v, s2 in self.ev(n, fr, s):
                    nxt.append((vs + (v,), s2))
            acc = dedupe(nxt) if len(nxt) > 1 else nxt
            if len(acc) > self.L.states:
                acc = self.coarsen(acc)
        return acc

    def x_int(self, n, fr, st):
        try:
            return [(('c', int(n['v'])), st)]
        except (KeyError, ValueError):
            return [(('c', n.get('v')), st)]

    x_const = x_int

    def x_float(self, n, fr, st):
        return [(('c', n.get('v')), st)]

    def x_bool(self, n, fr, st):
        return [(('c', bool(n['v'])), st)]

    def x_str(self, n, fr, st):
        return [(('c', '"' + str(n.get('v')) + '"'), st)]

    def x_null_ptr(self, n, fr, st):
        return [(('c', None), st)]

    def x_zero(self, n, fr, st):
        return [(('new', fr.F.t(n), (), None), st)]

    def x_this(self, n, fr, st):
        return [(fr.this if fr.this is not None else ('sym', 'this:' + fr.F.cls()), st)]

    def x_ref(self, n, fr, st):
        dk = n.get('dk')
        if dk == 'enum':
            return [(('e', fr.F.S[n['q']], n.get('v')), st)]
        if dk == 'func':
            return [(('fn', n['f'], fr.F.name(n)), st)]
        if dk == 'gvar':
            if 'v' in n:
                return [(('c', int(n['v'])), st)]
            g = self.P.global_qn(fr.F.S[n['q']])
            i = g.get('init') if g else None
            if i and i['k'] == 'ref' and i.get('dk') == 'func':
                return [(('fn', i['f'], g['S'][i['n']]), st)]
            if i and i['k'] == 'lambda' and not i['caps']:
                return [(('lam', tuple(i['f']), (), None, (g['file'], i['l'])), st)]
            return [(('sym', fr.F.S[n['q']]), st)]
        if dk in ('var', 'parm', 'bind'):
            if 'v' in n and n['id'] not in fr.env:
                return [(('c', int(n['v'])), st)]
            return [(self.var_loc(fr, n['id'], st), st)]
        return [(('sym', n.get('n', '?')), st)]

    def x_mem(self, n, fr, st):
        out = []
        for b, s in self.ev(n['b'], fr, st):
            if n.get('arrow') and n['b']['k'] != 'this' and not (n['b']['k'] == 'call' and n['b'].get('op') == '->'):
                b = self.deref(self.read(b, s))
            if b[0] in ('new', 'upd'):
                b2 = self.mem(b, n['n'])
            else:
                b2 = ('mem', b, n['n'])
            out.append((b2, s))
        return out

    def x_mfunc(self, n, fr, st):
        return [(('fn', n['f'], fr.F.name(n)), st)]

    def x_un(self, n, fr, st):
        op = n['op']
        out = []
        if op == '!':
            for v, s in self.rv(n['e'], fr, st):
                out.append((('c', not v[1]) if v[0] == 'c' and isinstance(v[1], (bool, int)) else ('un', '!', v), s))
            return out
        if op == '*':
            return [(self.deref(v), s) for v, s in self.rv(n['e'], fr, st)]
        if op == '&':
            return [(('addr', v), s) for v, s in self.ev(n['e'], fr, st)]
        if op in ('++', '--', 'p++', 'p--'):
            for v, s in self.ev(n['e'], fr, st):
                old = self.read(v, s)
                new = ('c', old[1] + (1 if '+' in op else -1)) if old[0] == 'c' and isinstance(old[1], int) else ('hv', strip_hv(v), self.site(fr, n))
                s = self.rule.on_assign(self, fr, n, v, ('bin', op[-1], old, ('c', 1)), s)
                s = self.write(v, new, s)
                out.append((old if op[0] == 'p' else v, s))
            return out
        for v, s in self.rv(n['e'], fr, st):
            if v[0] == 'c' and op == '-' and isinstance(v[1], (int, float)):
                out.append((('c', -v[1]), s))
            else:
                out.append((('un', op, v), s))
        return out

    def x_bin(self, n, fr, st):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for b, s in self.cond(n, fr, st):
                out.append((('c', b), s))
            return dedupe(out)
        if op == ',':
            out = []
            for _, s in self.ev(n['a'], fr, st):
                out += self.ev(n['b'], fr, s)
            return out
        if op == '=':
            out = []
            for v, s in self.rv(n['b'], fr, st):
                for l, s2 in self.ev(n['a'], fr, s):
                    s3 = self.rule.on_assign(self, fr, n, l, v, s2)
                    out.append((l, self.write(l, v, s3)))
            return out
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            out = []
            for v, s in self.rv(n['b'], fr, st):
                for l, s2 in self.ev(n['a'], fr, s):
                    s3 = self.rule.on_assign(self, fr, n, l, ('bin', op[:-1], self.read(l, s2), v), s2)
                    out.append((l, self.havoc(l, self.site(fr, n), s3)))
            return out
        out = []
        for (a, b), s in self.evs([n['a'], n['b']], fr, st):
            a, b = self.read(a, s), self.read(b, s)
            out.append((self.binop(op, a, b), s))
        return out

    FIND = re.compile(r'(^std::(ranges::)?(find|find_if|lower_bound)$|algorithm::(find|find_if)$)')
    END = re.compile(r'(^std::c?end$|^std::.*::c?end$)')

    def found(self, a, b):
        """the search whose result a is compared with the end of its range"""
        if a[0] == 'call' and b[0] == 'call' and self.FIND.search(a[1]) and self.END.search(b[1]) and a[2] and b[2] and strip_hv(a[2][0]) == strip_hv(b[2][0]):
            return a
        return None

    def binop(self, op, a, b):
        if op in ('==', '!='):
            f = self.found(a, b) or self.found(b, a)
            if f is not None:
                return ('bool', f) if op == '!=' else ('un', '!', ('bool', f))
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None and isinstance(na, int) and isinstance(nb, int):
            try:
                r = {'==': na == nb, '!=': na != nb, '<': na < nb, '>': na > nb, '<=': na <= nb, '>=': na >= nb,
                     '+': na + nb, '-': na - nb, '*': na * nb, '|': na | nb, '&': na & nb}.get(op)
                if r is not None:
                    return ('c', r)
            except Exception:
                pass
        return ('bin', op, a, b)

    def cond(self, n, fr, st):
        """[(bool, state)] of a condition expression, short circuiting"""
        if n is None:
            return [(True, st), (False, st)]
        if n['k'] == 'bin' and n['op'] in ('&&', '||'):
            out = []
            for b, s in self.cond(n['a'], fr, st):
                if b == (n['op'] == '&&'):
                    out += self.cond(n['b'], fr, s)
                else:
                    out.append((b, s))
            return dedupe(out)
        if n['k'] == 'un' and n['op'] == '!':
            return [(not b, s) for b, s in self.cond(n['e'], fr, st)]
        out = []
        for v, s in self.rv(n, fr, st):
            out += self.truth(v, s)
        return dedupe(out)

    def x_cond(self, n, fr, st):
        out = []
        for b, s in self.cond(n['c'], fr, st):
            out += self.ev(n['a'] if b else n['b'], fr, s)
        return dedupe(out)

    def x_cast(self, n, fr, st):
        return self.ev(n['e'], fr, st)

    def x_index(self, n, fr, st):
        return [(('idx', a, self.read(b, s)), s) for (a, b), s in self.evs([n['b'], n['i']], fr, st)]

    def x_init(self, n, fr, st):
        out = []
        for vs, s in self.evs(n['a'], fr, st):
            vs = tuple(self.read(v, s) for v in vs)
            if len(vs) == 1 and not n.get('fn') and fr.F.t(n) and '[' not in fr.F.t(n):
                out.append((vs[0], s))
            elif not vs and SCALAR.match(fr.F.t(n) or ''):
                out.append((('c', fr.F.t(n) not in ('bool',) and 0), s))
            else:
                out.append((('new', fr.F.t(n), vs, tuple(n['fn']) if n.get('fn') else None), s))
        return out

    def x_new(self, n, fr, st):
        if n.get('e'):
            return [(('addr', ('new', fr.F.t(n), (v,), None)), s) for v, s in self.rv(n['e'], fr, st)]
        return [(('addr', ('new', fr.F.t(n), (), None)), st)]

    def x_delete(self, n, fr, st):
        return self.ev(n['e'], fr, st)

    def x_throw(self, n, fr, st):
        out = []
        if n.get('e'):
            for v, s in self.rv(n['e'], fr, st):
                self.thrown.append((('throw', fr.F.t(n['e'])), s))
        else:
            self.thrown.append((('throw', 'rethrow'), st))
        return out  # no normal continuation

    def x_stmtexpr(self, n, fr, st):
        return [(('c', None), s) for k, v, s in self.stmt(n['body'], fr, st) if k == 'next']

    def x_other(self, n, fr, st):
        out = [((), st)]
        subs = [x for x in n.get('c', []) if x]
        return [(('other', n.get('n', n['k']), tuple(self.read(v, s) for v in vs)), s) for vs, s in self.evs(subs, fr, st)]

    def x_lambda(self, n, fr, st):
        states = [((), st)]
        this = None
        for c in n['caps']:
            if c['n'] == 'this':
                this = fr.this
                continue
            nxt = []
            for acc, s in states:
                if c.get('init'):
                    for v, s2 in self.ev(c['init'], fr, s):
                        nxt.append((acc + ((c['id'], v if c['ref'] else self.rvalue(v, s2), bool(c['ref']), c['n']),), s2))
                else:
                    loc = self.var_loc(fr, c['id'], s)
                    nxt.append((acc + ((c['id'], loc if c['ref'] else self.rvalue(loc, s), bool(c['ref']), c['n']),), s))
            states = nxt
        this = this if this is not None else fr.this
        return [(('lam', tuple(n['f']), caps, this, (fr.F.file, n['l'])), s) for caps, s in states]

    # ------------------------------------------------------------ calls
    def x_ctor(self, n, fr, st):
        name = fr.F.name(n)
        if n.get('ck') in ('copy', 'move') and len(n['a']) >= 1:
            return [(self.rvalue(v, s), s) for v, s in self.ev(n['a'][0], fr, st)]
        out = []
        for args, s in self.evs(n['a'], fr, st):
            r = self.rule.on_call(self, fr, n, name, None, args, s)
            if r is not None:
                out += r
                continue
            vals = tuple(self.read(a, s) for a in args)
            t = fr.F.t(n)
            # wrappers of callables are transparent
            if len(vals) == 1 and vals[0][0] in ('lam', 'fn'):
                out.append((vals[0], s))
                continue
            C = self.P.funcs.get(n['f'])
            if C is not None and (not OPAQUE.search(C.file) or self.rule.open(C)) and self.rule.inline(C, n) and C.d.get('inits') is not None:
                out += self.construct(C, n, args, fr, s)
                continue
            out.append((('new', t, vals, None), s))
        return out

    def construct(self, C, n, args, fr, st):
        """a constructor with visible source: the object's members in terms of the arguments (body effects via rule)"""
        t = fr.F.t(n)
        if len(fr.stack) > self.L.depth or C.id in [x[0] for x in fr.stack]:
            return [(('new', t, tuple(self.read(a, st) for a in args), None), st)]
        env = {}
        s = st
        f2 = Frame(C, self.frame_id(fr.id, n), env, None, fr.stack + ((C.id,),))
        s = self.bind_params(C, f2, args, s, fr)
        fields, vals = [], []
        acc = [((), s)]
        for i in C.d['inits']:
            if not i.get('m') and not i.get('base') and not i.get('deleg'):
                continue
            e = i.get('e')
            nxt = []
            for vs, s2 in acc:
                if e is None:
                    nxt.append((vs + (('c', None),), s2))
                else:
                    B = self.P.funcs.get(e.get('f')) if i.get('base') and e['k'] == 'ctor' and not e.get('a') and C.params else None
                    if B is not None and len(B.params) == len(C.params) and B.d.get('inits') and len(args) == len(C.params):
                        # an inherited constructor gets the same arguments
                        r = [(v, s3) for v, s3 in self.construct(B, e, args, f2, s2)]
                    else:
                        r = self.rv(e, f2, s2)
                    for v, s3 in r:
                        nxt.append((vs + (v,), s3))
            acc = nxt
            fields.append(i.get('m', ''))
        out = []
        for vs, s2 in acc:
            if any(i.get('deleg') for i in C.d['inits']) and vs:
                out.append((vs[0], s2))
                continue
            fs = list(fields)
            vs = list(vs)
            # base class members are reachable too
            for i, (f, v) in enumerate(zip(fields, vs)):
                if f == '' and v[0] == 'new' and v[3]:
                    for bf, bv in zip(v[3], v[2]):
                        if bf and bf not in fs:
                            fs.append(bf)
                            vs.append(bv)
            val = ('new', t, tuple(vs), tuple(fs))
            if C.body and C.body.get('c'):
                loc = ('v', 'obj', f2.id)
                f2.this = loc
                s3 = self.write(loc, val, s2)
                for k, v, s4 in self.stmt(C.body, f2, s3):
                    if k in ('next', 'ret'):
                        out.append((val, s4))
                    elif k == 'throw':
                        self.thrown.append((v, s4))
            else:
                out.append((val, s2))
        return dedupe(out)

    def x_call(self, n, fr, st):
        name = fr.F.name(n) if n.get('n') is not None else None
        self.stats['calls'] += 1
        ns = ([n['obj']] if 'obj' in n else []) + (n['a'] if name or 'callee' not in n else [n['callee']] + n['a'])
        out = []
        for vs, s in self.evs(ns, fr, st):
            if 'obj' in n:
                obj, args = vs[0], vs[1:]
                if n.get('arrow') and n['obj']['k'] != 'this' and not (n['obj']['k'] == 'call' and n['obj'].get('op') == '->'):
                    obj = self.deref(self.read(obj, s))
            elif name is None and 'callee' in n:
                obj, args = vs[0], vs[1:]
            else:
                obj, args = None, vs
            if any(x == ('dead',) for x in vs):
                continue
            out += self.call(n, fr, name, obj, args, s)
        return dedupe(out)

    def call(self, n, fr, name, obj, args, st):
        op = n.get('op')
        # transparent
        if name in PASS and args:
            if len(args) == 2 and name == 'casual::common::range::make':
                a, b = self.read(args[0], st), self.read(args[1], st)
                if a[0] == 'call' and b[0] == 'call' and self.BEGIN.search(a[1]) and self.END.search(b[1]) and a[2] and b[2] and a[2][0] == b[2][0]:
                    return [(a[2][0], st)]
                return [(('call', name, (a, b), None), st)]
            return [(args[0], st)]
        r = self.rule.on_call(self, fr, n, name, obj, args, st)
        if r is not None:
            return r
        if name and NORETURN.search(name):
            if not name.endswith('terminate'):
                self.thrown.append((('throw', 'std::system_error'), st))
            return []
        if name is None:  # call through function pointer / value
            v = self.read(obj, st)
            if v[0] == 'lam':
                return self.call_lambda(v, n, args, fr, st)
            if v[0] == 'fn':
                G = self.P.funcs.get(v[1])
                if G is not None and self.inlinable(G, n, fr):
                    return self.enter(G, n, None, args, fr, st)
            return self.opaque(n, fr, 'indirect', obj, args, st)
        base = name.rsplit('::', 1)[-1]
        if op == '()' and obj is not None:
            v = self.read(obj, st)
            if v[0] == 'lam':
                return self.call_lambda(v, n, args, fr, st)
            if v[0] == 'fn':
                G = self.P.funcs.get(v[1])
                if G is not None and self.inlinable(G, n, fr):
                    return self.enter(G, n, None, args, fr, st)
        inner = n.get('obj') or (n['a'] or [None])[0]
        while inner is not None and inner['k'] in ('cast', 'bind', 'mat', 'tmp', 'paren') and 'e' in inner:
            inner = inner['e']
        if op == '->' and inner is not None and inner['k'] == 'call' and inner.get('op') == '->':
            # chained operator ->
            return [(obj if obj is not None else args[0], st)]
        if op in ('->', '*') and obj is not None and not args:
            v = self.read(obj, st)
            if v[0] == 'v':
                v = obj
            return [(self.deref(v), st)]
        if op in ('->', '*') and obj is None and len(args) == 1:
            return [(self.deref(self.read(args[0], st)), st)]
        if base == 'operator bool' and obj is not None:
            G = self.P.funcs.get(n['f'])
            if not (G is not None and self.inlinable(G, n, fr)):
                v = self.read(obj, st)
                return [(('bool', v) if v[0] not in ('c',) else v, st)]
        if base in ('empty', 'size') and (obj is not None or len(args) == 1):
            its = self.items(self.read(obj if obj is not None else args[0], st))
            if its is not None:
                return [(('c', len(its) if base == 'size' else not its), st)]
        if name == 'std::get' and len(args) == 1 and n.get('ta') and re.match(r'\d+U?L*$', fr.F.S[n['ta'][0]]):
            v = self.read(args[0], st)
            return [(('mem', v if v[0] != 'new' else args[0], '#' + fr.F.S[n['ta'][0]].rstrip('UL')), st)]
        if name == 'casual::common::Uuid::get' and obj is not None and not args:
            return [(obj, st)]
        if base in ('underlying', 'value') and obj is not None and not args and name.startswith('casual::common::strong::Type<'):
            return [(obj, st)]
        if base in ('has_value',) and obj is not None:
            return [(('bool', self.read(obj, st)), st)]
        if base == 'value' and obj is not None and not args and n.get('cls') is not None and 'optional' in fr.F.S[n['cls']]:
            return [(self.deref(self.read(obj, st)), st)]
        if base == 'get' and obj is not None and not args and n.get('cls') is not None and 'reference_wrapper' in fr.F.S[n['cls']]:
            return [(self.read(obj, st), st)]
        if base in ('find', 'find_if', 'contains', 'boolean', 'any_of', 'none_of') or name.startswith('std::ranges::__'):
            r = self.search(n, fr, name, base, obj, args, st)
            if r is not None:
                return r
        G = self.P.funcs.get(n['f'])
        if op == '=' and obj is not None and len(args) == 1 and not (G is not None and not G.d.get('defaulted') and self.inlinable(G, n, fr)):
            v = self.rvalue(args[0], st)
            s = self.rule.on_assign(self, fr, n, obj, v, st)
            return [(obj, self.write(obj, v, s))]
        if op in ('==', '!=', '<', '>', '<=', '>=') and (G is None or not self.inlinable(G, n, fr) or G.d.get('defaulted') or True):
            xs = ([obj] if obj is not None else []) + list(args)
            if len(xs) == 2:
                return [(self.binop(op, self.read(xs[0], st), self.read(xs[1], st)), st)]
        if op == '!' and (obj is not None or args):
            return [(('un', '!', self.read(obj if obj is not None else args[0], st)), st)]
        if op == '|' and len(([obj] if obj else []) + list(args)) == 2:
            xs = ([obj] if obj is not None else []) + list(args)
            return [(('bin', '|', self.read(xs[0], st), self.read(xs[1], st)), st)]
        if G is not None and self.inlinable(G, n, fr):
            return self.enter(G, n, obj, args, fr, st)
        return self.opaque(n, fr, name, obj, args, st)

    BEGIN = re.compile(r'(^std::c?begin$|^std::.*::c?begin$)')

    def search(self, n, fr, name, base, obj, args, st):
        """one form for the ways to look something up in a range"""
        m = re.match(r'std::ranges::__(find|find_if|contains|any_of|none_of)_fn::operator\(\)$', name)
        if m:
            base, obj = m.group(1), None
        elif name == 'casual::common::predicate::boolean' and len(args) == 1:
            v = self.read(args[0], st)
            return [(('bool', v) if v[0] not in ('c', 'bool', 'un', 'bin') else v, st)]
        elif obj is not None:
            if base == 'find' and len(args) == 1 and re.match(r'std::(unordered_)?(multi)?(map|set)\b', name):
                return [(('call', 'casual::common::algorithm::find', (self.read(obj, st), self.rvalue(args[0], st)), None), st)]
            return None
        elif not re.match(r'(std|casual::common::algorithm)::\w+$', name):
            return None
        out = []
        vals = [self.read(a, st) for a in args]
        rng = vals[:1]
        if len(vals) == 3 and base in ('find', 'find_if', 'any_of', 'none_of'):
            a, b = vals[0], vals[1]
            if not (a[0] == 'call' and self.BEGIN.search(a[1]) and b[0] == 'call' and self.END.search(b[1]) and a[2] and b[2] and a[2][0] == b[2][0]):
                return None
            rng, vals = [a[2][0]], [a[2][0], vals[2]]
        if len(vals) != 2:
            return None
        for _, s in self.opaque(n, fr, 'casual::common::algorithm::' + ('find' if base == 'contains' else base), None, [vals[0], args[-1]], st):
            kind = 'find' if base in ('find', 'contains') else 'find_if'
            t = ('call', 'casual::common::algorithm::' + kind, (vals[0], self.read(args[-1], s) if kind == 'find_if' else self.rvalue(args[-1], s)), None)
            if base in ('contains', 'any_of'):
                t = ('bool', t)
            elif base == 'none_of':
                t = ('un', '!', ('bool', t))
            out.append((t, s))
        return dedupe(out)

    def inlinable(self, G, n, fr):
        if G.body is None or OPAQUE.search(G.file) and not self.rule.open(G):
            return False
        if n.get('virt') and not n.get('nv'):
            return False
        if self.relevant is not None and G.id not in self.relevant and not self.trivial(G):
            return False
        if any(x[0] == G.id for x in fr.stack):
            self.stats['recursion'] += 1
            return False
        if len(fr.stack) > self.L.depth:
            self.stats['recursion'] += 1
            return False
        return self.rule.inline(G, n)

    def trivial(self, G):
        """a single return expression: part of how a value is named"""
        r = self._trivial.get(G.id)
        if r is None:
            b = G.body
            r = bool(b and b['k'] == 'block' and len(b['c']) == 1 and b['c'][0]['k'] == 'return')
            self._trivial[G.id] = r
        return r

    def small(self, G):
        """a few straight line statements"""
        r = self._trivial.get((G.id, 's'))
        if r is None:
            from .facts import walk
            b = G.body
            r = bool(b and len(b.get('c', [])) <= 8 and not any(n['k'] in ('while', 'for', 'rfor', 'do', 'try', 'lambda') for n in walk(b)))
            self._trivial[(G.id, 's')] = r
        return r

    def bind_params(self, G, f2, args, st, fr):
        s = st
        for i, p in enumerate(G.params):
            if i >= len(args):
                break
            t = G.S[p['t']]
            a = args[i]
            if (t.endswith('&') or t.endswith('&&')) and not (a[0] == 'new' and 'const' not in t and not G.S[G.d['rt']].endswith('&')):
                f2.env[p['id']] = a
            else:
                loc = ('v', p['id'], f2.id)
                self.names[(p['id'], f2.id)] = p['n']
                f2.env[p['id']] = loc
                s = self.write(loc, self.rvalue(a, s), s)
        return s

    def enter(self, G, n, obj, args, fr, st, this=None, env=None, caps=None):
        self.stats['functions'].add(G.id)
        f2 = Frame(G, self.frame_id(fr.id if fr else None, n), dict(env or {}), obj if this is None else this, (fr.stack if fr else ()) + ((G.id,),))
        s = st
        if caps:
            for vid, v, isref, nm in caps:
                if isref:
                    f2.env[vid] = v
                else:
                    loc = ('v', vid, f2.id)
                    f2.env[vid] = loc
                    s = self.write(loc, v, s)
        s = self.bind_params(G, f2, args, s, fr)
        out = []
        for k, v, s2 in self.stmt(G.body, f2, s):
            s2 = self.drop_frame(s2, f2)
            if k == 'ret':
                out.append((v, s2))
            elif k == 'next':
                out.append((('c', None), s2))
            elif k == 'throw':
                self.thrown.append((v, s2))
        return self.limit(join(out))

    def drop_frame(self, st, f2):
        """forget locals of a finished frame (unless referenced by escaping values)"""
        fid = f2.id
        dead = [k for k in st.heap if self._local(k, fid)]
        dfacts = [k for k in st.facts if self._mentions_frame(k, fid)]
        if not dead and not dfacts:
            return st
        h = dict(st.heap)
        live = set()
        for k in dead:
            del h[k]
        f = {k: v for k, v in st.facts.items() if k not in set(dfacts)} if dfacts else st.facts
        return State(h, f, st.auto)

    def _local(self, t, fid):
        r = root(t)
        return (r[0] == 'v' or r[0] == 'ref') and self._in_frame(r[2], fid)

    def _in_frame(self, x, fid):
        while x is not None:
            if x == fid:
                return True
            x = self._parents.get(x)
        return False

    def _mentions_frame(self, t, fid):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'v':
                return self._in_frame(t[2], fid)
            return any(self._mentions_frame(x, fid) for x in t if isinstance(x, tuple))
        return False

    def call_lambda(self, lam, n, args, fr, st, fid=None):
        _, fids, caps, this, where = lam
        cands = [self.P.funcs[f] for f in fids if f in self.P.funcs]
        if fid is None and n is not None and n.get('f') in fids:
            cands = [self.P.funcs[n['f']]] if n['f'] in self.P.funcs else cands
        if not cands:
            return self.opaque(n, fr, 'lambda', None, args, st)
        G = cands[0]
        if self.relevant is not None and G.id not in self.relevant and not self.small(G):
            return self.opaque(n, fr, 'lambda', None, args, st)
        if any(x[0] == G.id for x in fr.stack) or len(fr.stack) > self.L.depth:
            self.stats['recursion'] += 1
            return self.opaque(n, fr, 'recursive-lambda', None, args, st)
        return self.enter(G, n if n is not None else {'l': where[1], 'k': 'call'}, None, args, fr, st, this=this, caps=caps)

    def element_type(self, fr, node):
        """element type of the range (first argument) of a call"""
        try:
            t = fr.F.t(node['a'][0])
        except (KeyError, IndexError, AttributeError, TypeError):
            return None
        m = re.search(r'\b(?:vector|deque|list|array|span)<([^<>,]*(?:<[^<>]*>)?)', t)
        return re.sub(r'\bconst\b|\s|&', '', m.group(1)) if m else None

    def invoke(self, v, args, fr, st, node, nargs=None):
        """call a callable value with given argument terms (pads unknown parameters)"""
        if v[0] == 'lam':
            cands = [self.P.funcs[f] for f in v[1] if f in self.P.funcs]
            if len(cands) > 1:
                et = self.element_type(fr, node)
                if et:
                    best = [G for G in cands if G.params and re.sub(r'\bconst\b|\s|&', '', G.S[G.params[-1]['t']]) == et]
                    cands = best or cands
            if not cands:
                return [(('call', 'lambda', tuple(args), None), st)]
            out = []
            for G in cands[:1]:
                a = list(args)
                while len(a) < len(G.params):
                    a.append(('sym', f'{G.S[G.params[len(a)]["t"]]}', 'arg'))
                fake = {'k': 'call', 'l': v[4][1], 'f': G.id, '_': id(node)}
                self._fid.setdefault((id(node), G.id), fake)
                fake = self._fid[(id(node), G.id)]
                if any(x[0] == G.id for x in fr.stack):
                    return [(('c', None), st)]
                out += self.enter(G, fake, None, a, fr, st, this=v[3], caps=v[2])
            return out
        if v[0] == 'fn':
            G = self.P.funcs.get(v[1])
            if G is not None and G.body is not None and not any(x[0] == G.id for x in fr.stack):
                a = list(args)
                while len(a) < len(G.params):
                    a.append(('sym', G.S[G.params[len(a)]['t']], 'arg'))
                fake = self._fid.setdefault((id(node), G.id), {'k': 'call', 'l': node.get('l'), 'f': G.id})
                return self.enter(G, fake, None, a, fr, st)
        return [(('call', 'invoke', (v,) + tuple(args), None), st)]

    def callables(self, vals):
        return [v for v in vals if v[0] == 'lam' or (v[0] == 'fn')]

    def opaque(self, n, fr, name, obj, args, st):
        """unknown source: lambdas handed over are called 0..n times, mutable arguments change, result is fresh unless pure"""
        self.stats['opaque'][name] = self.stats['opaque'].get(name, 0) + 1
        site = self.site(fr, n)
        vals = [self.read(a, st) for a in args]
        if name == 'std::exchange' and len(args) == 2:
            res = ('call', name, tuple(self.rvalue(a, st) for a in args), None)
            return [(res, self.write(args[0], self.rvalue(args[1], st), st))]
        if name and re.match(r'std::make_(shared|unique)\b', name) and len(args) == 1:
            inner = re.fullmatch(r'(?:const )?std::(?:shared|unique)_ptr<(.*?)>', fr.F.t(n) or '')
            if inner and inner.group(1) == re.sub(r'^const |&+$| $', '', fr.F.t(n['a'][0]) or '').strip():
                res = ('call', name, tuple(self.rvalue(a, st) for a in args), site)
                return [(res, self.write(('deref', res), self.rvalue(args[0], st), self.fresh_call(res, st)))]
        lams = [v for v in vals if v[0] == 'lam' and (self.relevant is None or any(f in self.relevant for f in v[1]))] if not (name or '').endswith('execute::scope') else []
        states = [st]
        results = None
        if lams and name and re.search(r'(for_each|container::erase_if)$', name) and args:
            exact = self.literal_loop(n, fr, name, args, lams, st)
            if exact is not None:
                return exact
        if lams:
            rng = None
            for a, v in zip(args, vals):
                if v[0] not in ('lam', 'fn'):
                    rng = v
                    break
            if rng is None and obj is not None:
                rng = self.read(obj, st)
            elem = ('elem', rng) if rng is not None else ('sym', 'arg')
            seen = {st.key()}
            frontier = [st]
            for _ in range(self.L.loop):
                nxt = []
                for s in frontier:
                    s0 = self.rule.on_element(self, fr, n, elem, self.fresh_call(elem, s))
                    for lam in lams:
                        G = next((self.P.funcs[f] for f in lam[1] if f in self.P.funcs), None)
                        k = len(G.params) if G else 1
                        for _v, s2 in self.invoke(lam, [elem] * min(k, 2), fr, s0, n):
                            if s2.key() not in seen:
                                seen.add(s2.key())
                                nxt.append(s2)
                if not nxt:
                    break
                states += nxt
                frontier = nxt
                if len(states) > self.L.states:
                    states = [s for _, s in self.coarsen([((), s) for s in states])]
                    self.stats['caps'] += 1
                    break
        pure_name = bool(NO_ARG_EFFECT.match(name or '')) and not MUTATING_ALGO.search((name or '').rsplit('::', 1)[-1])
        mut = [] if pure_name else n.get('mut', [])
        G = self.P.funcs.get(n.get('f')) if isinstance(n.get('f'), str) else None
        out = []
        for s in states:
            fresh = False
            if obj is not None and not n.get('cm') and not n.get('st') and not self.nonmutating(name, n, fr) and (G is None or self.effects.writes(G, 'this')):
                s = self.havoc(obj, site, s)
                fresh = True
            for i in mut:
                if G is not None and not self.effects.writes(G, i):
                    continue
                if i < len(args) and args[i][0] not in ('lam', 'fn', 'c', 'e', 'new'):
                    s = self.havoc(args[i] if args[i][0] != 'addr' else args[i][1], site, s)
                    fresh = True
            xs = (() if obj is None else (self.read(obj, st),)) + tuple(vals)
            if obj is not None and self.nonmutating(name, n, fr):
                term = ('call', name, xs, None)
            elif not fresh and (obj is not None or args):
                term = ('call', name, xs, None)
            else:
                term = ('call', name, xs, site)
                s = self.fresh_call(term, s)
            out.append((term, s))
        return dedupe(out)

    def items(self, v):
        """the elements of a container value that was written out in the source (list initialised, or default constructed)"""
        if not isinstance(v, tuple) or not v or v[0] != 'new' or not re.search(r'\b(vector|deque|list|array)<', v[1]):
            return None
        if not v[2]:
            return ()
        a = v[2][0]
        if isinstance(a, tuple) and a and a[0] == 'new' and (a[1].endswith(']') or 'initializer_list' in a[1]):
            if len(a[2]) == 1 and a[2][0] and a[2][0][0] == 'new' and a[2][0][1].endswith(']'):
                return a[2][0][2]
            return a[2]
        return None

    def literal_loop(self, n, fr, name, args, lams, st):
        v = self.read(args[0], st)
        items = self.items(v)
        if items is None:
            return None
        erase = name.endswith('erase_if')
        states = [((), st)]
        for x in items:
            nxt = []
            for keep, s in states:
                for lam in lams[:1]:
                    for r, s2 in self.invoke(lam, [x], fr, s, n):
                        if not erase:
                            nxt.append((keep, s2))
                            continue
                        for b, s3 in self.truth(self.read(r, s2), s2):
                            nxt.append((keep if b else keep + (x,), s3))
            states = dedupe(nxt)
        out = []
        for keep, s in states:
            if erase:
                s = self.write(args[0], ('new', v[1], (('new', 'initializer_list', keep, None),) if keep else (), None), s)
            out.append((args[0], s))
        return dedupe(out)

    NONMUT = re.compile(r'::(begin|end|front|back|at|data|get|operator\[\]|operator\*|operator->|find|rbegin|rend|range|c_str|value|lower_bound|upper_bound)$')

    def nonmutating(self, name, n, fr):
        return bool(self.NONMUT.search(name or '')) and (name or '').startswith(('std::', 'casual::common::'))

    # ------------------------------------------------------------ statements
    def limit(self, pairs):
        if len(pairs) > self.L.states:
            return self.coarsen(pairs)
        return pairs

    def coarsen(self, pairs, cap=None):
        cap = cap or self.L.states
        """too many states: keep the automaton state, drop facts, then heap contents"""
        self.stats['coarsened'] += 1
        out, seen = [], set()
        for p in pairs:
            s = p[-1]
            k = (p[:-1], s.auto, frozenset(s.heap.items()))
            if k not in seen:
                seen.add(k)
                # common facts only
                group = [q for q in pairs if q[:-1] == p[:-1] and q[-1].auto == s.auto and q[-1].heap == s.heap]
                f = dict(group[0][-1].facts)
                for q in group[1:]:
                    f = {a: b for a, b in f.items() if q[-1].facts.get(a) == b}
                out.append(p[:-1] + (State(s.heap, f, s.auto),))
        if len(out) <= cap:
            return out
        self.stats['lossy'] += 1
        out2, seen = [], {}
        for p in out:
            k = (p[:-1], p[-1].auto)
            if k not in seen:
                seen[k] = len(out2)
                out2.append(p)
            else:
                q = out2[seen[k]]
                h = {a: b for a, b in q[-1].heap.items() if p[-1].heap.get(a) == b}
                f = {a: b for a, b in q[-1].facts.items() if p[-1].facts.get(a) == b}
                out2[seen[k]] = q[:-1] + (State(h, f, q[-1].auto),)
        return out2

    def stmt(self, n, fr, st):
        """[(kind, value, state)], kind in next ret brk cont throw"""
        if n is None:
            return [('next', None, st)]
        saved, self.thrown = getattr(self, 'thrown', []), []
        try:
            m = getattr(self, 's_' + n['k'], None)
            if m is not None:
                out = m(n, fr, st)
            else:
                out = [('next', None, s) for _, s in self.ev(n, fr, st)]
            out = out + [('throw', v, s) for v, s in self.thrown]
        finally:
            self.thrown = saved
        return dedupe(out)

    def s_null(self, n, fr, st):
        return [('next', None, st)]

    def s_block(self, n, fr, st):
        cur = [('next', None, st)]
        done = []
        defers = []
        for c in n['c']:
            nxt = []
            for k, v, s in cur:
                for o in self.stmt(c, fr, s):
                    (nxt if o[0] == 'next' else done).append(o)
            cur = dedupe(nxt)
            if len(cur) > self.L.states:
                cur = self.coarsen(cur)
            # scope guards
            if c and c['k'] == 'decl':
                for v in c['c']:
                    i = v.get('init')
                    while i and i['k'] in ('ctor', 'init') and len(i.get('a', [])) == 1:
                        i = i['a'][0]
                    if i and i['k'] == 'call' and (fr.F.name(i) or '').endswith('execute::scope'):
                        defers.append((v['id'], i))
            if not cur:
                break
        out = dedupe(done + cur)
        for vid, node in reversed(defers):
            nxt = []
            loc = ('v', vid, fr.id)
            for k, v, s in out:
                val = s.heap.get(loc)
                lam = None
                if val is not None and val[0] == 'call' and val[1].endswith('execute::scope'):
                    lam = next((x for x in val[2] if x[0] == 'lam'), None)
                if lam is None:
                    nxt.append((k, v, s))
                    continue
                before, self.thrown = self.thrown, []
                for _, s2 in self.invoke(lam, [], fr, s, node):
                    nxt.append((k, v, s2))
                # the destructor of a guard lets nothing out
                nxt += [(k, v, s2) for _, s2 in self.thrown]
                self.thrown = before
            out = dedupe(nxt)
        ids = {v['id'] for c in n['c'] if c and c['k'] == 'decl' for v in c['c']}
        ids |= {b['id'] for c in n['c'] if c and c['k'] == 'decl' for v in c['c'] for b in v.get('binds', [])}
        if ids and n is not fr.F.body:
            out = dedupe([(k, v, self.drop_vars(s, ids, fr.id)) for k, v, s in out])
        return out

    def drop_vars(self, st, ids, fid):
        def local(t):
            r = root(t)
            return r[0] in ('v', 'ref') and r[1] in ids and r[2] == fid

        def mentions(t):
            if isinstance(t, tuple):
                if len(t) == 3 and t[0] == 'v' and t[1] in ids and t[2] == fid:
                    return True
                return any(mentions(x) for x in t if isinstance(x, tuple))
            return False
        h = {k: v for k, v in st.heap.items() if not local(k)}
        f = {k: v for k, v in st.facts.items() if not mentions(k)}
        if len(h) == len(st.heap) and len(f) == len(st.facts):
            return st
        return State(h, f, st.auto)

    def bind_ref(self, vid, val, fr, s):
        """a reference (or binding): alias of an lvalue; different paths may bind differently, so it lives in the heap"""
        h = dict(s.heap)
        h[('ref', vid, fr.id)] = val
        return State(h, s.facts, s.auto)

    def declare(self, v, fr, st):
        if v.get('binds'):
            out = []
            if v.get('init'):
                evs = self.ev(v['init'], fr, st)
            else:
                evs = [(('sym', 'uninit'), st)]
            for val, s in evs:
                isref = fr.F.S[v['t']].endswith('&')
                src = val if isref else self.read(val, s)
                if not isref and src[0] != 'new':
                    loc = ('v', v['id'], fr.id)
                    s = self.write(loc, src, s)
                    src = loc
                for i, b in enumerate(v['binds']):
                    e = b.get('e')
                    if src[0] == 'new' and i < len(src[2]):
                        tgt = src[2][i]
                    elif e and e['k'] == 'mem':
                        tgt = ('mem', src, e['n'])
                    else:
                        tgt = ('mem', src, f'#{i}')
                    s = self.bind_ref(b['id'], tgt, fr, s)
                out.append((('c', None), s))
            return out
        t = fr.F.S[v['t']]
        loc = ('v', v['id'], fr.id)
        self.names[(v['id'], fr.id)] = v['n']
        if not v.get('init'):
            return [(loc, self.write(loc, ('new', t, (), None), st))]
        out = []
        for val, s in self.ev(v['init'], fr, st):
            if t.endswith('&') and val[0] not in ('c', 'e', 'new'):
                # a reference: alias of the lvalue.  Different states may bind differently: keep it in the heap
                s = self.bind_ref(v['id'], val, fr, s)
                out.append((val, s))
            else:
                x = self.rvalue(val, s)
                s = self.write(loc, x, s)
                out.append((loc, s))
        return out

    def s_decl(self, n, fr, st):
        states = [st]
        for v in n['c']:
            nxt = []
            for s in states:
                for val, s2 in self.declare(v, fr, s):
                    nxt.append(((), s2))
            states = [s for _, s in dedupe(nxt)]
        return [('next', None, s) for s in states]

    def s_if(self, n, fr, st):
        states = [st]
        if n.get('init'):
            states = [s for k, v, s in self.stmt(n['init'], fr, st) if k == 'next']
        if n.get('constexpr') and 'cv' in n:
            br = n['then'] if n['cv'] else n.get('else')
            out = []
            for s in states:
                out += self.stmt(br, fr, s)
            return out
        out = []
        for s in states:
            if n.get('var'):
                for val, s2 in self.declare(n['var'], fr, s):
                    for b, s3 in self.cond(n['cond'], fr, s2):
                        out += self.stmt(n['then'] if b else n.get('else'), fr, s3)
            else:
                for b, s2 in self.cond(n['cond'], fr, s):
                    out += self.stmt(n['then'] if b else n.get('else'), fr, s2)
        return join(out)

    def loop(self, heads, body):
        """generic loop: heads(state)->[(enter?, state)], body(state)->outcomes; fixpoint over the set of states"""
        self.stats['loops'] += 1
        out, seen = [], set()

    def s_while(self, n, fr, st, first=None):
        return self.iterate(n, fr, [st], lambda s: self._while_head(n, fr, s), n['body'], None)

    def _while_head(self, n, fr, s):
        if n.get('var'):
            out = []
            for val, s2 in self.declare(n['var'], fr, s):
                out += self.cond(n['cond'], fr, s2)
            return out
        return self.cond(n['cond'], fr, s) if n.get('cond') else [(True, s)]

    def s_do(self, n, fr, st):
        out, nxt = [], []
        for k, v, s in self.stmt(n['body'], fr, st):
            if k in ('next', 'cont'):
                nxt.append(s)
            elif k == 'brk':
                out.append(('next', None, s))
            else:
                out.append((k, v, s))
        c = n.get('cond')
        if c and c['k'] in ('bool', 'int') and str(c.get('v')) in ('False', '0', 'false'):
            return dedupe(out + [('next', None, s) for s in nxt])
        return dedupe(out + self.iterate(n, fr, nxt, lambda s: self._while_head(n, fr, s), n['body'], None))

    def s_for(self, n, fr, st):
        states = [st]
        if n.get('init'):
            states = [s for k, v, s in self.stmt(n['init'], fr, st) if k == 'next']
        return self.iterate(n, fr, states, lambda s: self.cond(n['cond'], fr, s) if n.get('cond') else [(True, s)], n['body'], n.get('inc'))

    def s_rfor(self, n, fr, st):
        out = []
        states = [st]
        if n.get('init'):
            states = [s for k, v, s in self.stmt(n['init'], fr, st) if k == 'next']
        for s0 in states:
            for rng, s in self.ev(n['range'], fr, s0):
                rng = rng if rng[0] in ('mem', 'v', 'deref', 'elem', 'idx') else self.read(rng, s)
                if rng[0] == 'v':
                    r2 = self.read(rng, s)
                    rng = r2 if r2[0] not in ('new',) else rng
                elif rng[0] == 'mem' and root(rng)[0] == 'v':
                    # a piece of a local value (structured binding)
                    r2 = self.read(rng, s)
                    rng = r2 if r2[0] in ('mem', 'call') and root(r2)[0] != 'v' else rng
                known = self.items(self.read(rng, s))
                if known is not None:
                    out += self.unroll(n, fr, known, s)
                    continue
                elem = ('elem', rng)
                s = self.rule.on_walk(self, fr, n, rng, s)

                def head(x, elem=elem, node=n):
                    y = self.rule.on_element(self, fr, node, elem, self.fresh_call(elem, x))
                    fake = {'k': 'symval', 'val': elem}
                    outs = [(False, x)]
                    v = dict(node['var'])
                    v['init'] = {'k': 'symval', 'val': elem, 'l': node['l']}
                    for _, z in self.declare(v, fr, y):
                        outs.append((True, z))
                    return outs
                out += self.iterate(n, fr, [s], head, n['body'], None)
        return dedupe(out)

    def unroll(self, n, fr, known, st):
        """a range-for over a container whose content is known"""
        out, states = [], [st]
        for x in known:
            nxt = []
            for s in states:
                v = dict(n['var'])
                v['init'] = {'k': 'symval', 'val': x, 'l': n['l']}
                for _, z in self.declare(v, fr, s):
                    for k, val, s2 in self.stmt(n['body'], fr, z):
                        if k in ('next', 'cont'):
                            nxt.append(s2)
                        elif k == 'brk':
                            out.append(('next', None, self.rule.on_leave(self, fr, n, k, s2)))
                        else:
                            out.append((k, val, self.rule.on_leave(self, fr, n, k, s2)))
            states = [s for _, s in dedupe([((), s) for s in nxt])]
        return out + [('next', None, s) for s in states]

    def x_symval(self, n, fr, st):
        return [(n['val'], st)]

    def iterate(self, n, fr, states, head, body, inc):
        self.stats['loops'] += 1
        out, seen = [], set()
        frontier = list(states)
        rounds = 0
        while frontier:
            rounds += 1
            nxt = []
            for s in frontier:
                for b, s2 in head(s):
                    if not b:
                        out.append(('next', None, s2))
                        continue
                    if n['k'] != 'rfor':
                        s2 = self.rule.on_loop(self, fr, n, s2)
                    for k, v, s3 in self.stmt(body, fr, s2):
                        if k in ('next', 'cont'):
                            if inc:
                                for _, s4 in self.ev(inc, fr, s3):
                                    nxt.append(s4)
                            else:
                                nxt.append(s3)
                        elif k == 'brk':
                            out.append(('next', None, self.rule.on_leave(self, fr, n, k, s3)))
                        else:
                            out.append((k, v, self.rule.on_leave(self, fr, n, k, s3)))
            fresh = []
            if len(nxt) > 6:
                nxt = [s for _, s in self.coarsen([((), s) for s in nxt], 6)]
            for s in nxt:
                if s.key() not in seen:
                    seen.add(s.key())
                    fresh.append(s)
            if rounds >= self.L.loop or len(seen) > self.L.states:
                # cap: leave the loop from what is there
                self.stats['caps'] += 1
                for s in fresh:
                    for b, s2 in head(s):
                        if not b:
                            out.append(('next', None, s2))
                break
            frontier = fresh
        out = dedupe(out)
        return self.limit(out)

    def s_switch(self, n, fr, st):
        states = [st]
        if n.get('init'):
            states = [s for k, v, s in self.stmt(n['init'], fr, st) if k == 'next']
        if n.get('var'):
            states = [s2 for s in states for _, s2 in self.declare(n['var'], fr, s)]
        # flatten the body into a list of (labels, statement)
        flat = []

        def add(c, labels):
            while c and c['k'] in ('case', 'default'):
                labels = labels + [('default', None) if c['k'] == 'default' else ('case', c)]
                c = c['sub']
            flat.append((labels, c))
        body = n['body']
        for c in (body['c'] if body and body['k'] == 'block' else [body]):
            add(c, [])
        out = []
        for s in states:
            for v, s1 in self.rv(n['cond'], fr, s):
                remaining = [s1]
                entries = []
                default = None
                for i, (labels, c) in enumerate(flat):
                    for kind, lab in labels:
                        if kind == 'default':
                            default = i
                            continue
                        nr = []
                        for r in remaining:
                            for lv, r1 in self.rv(lab['e'], fr, r):
                                for b, r2 in self.truth(('bin', '==', v, lv), r1):
                                    if b:
                                        entries.append((i, r2))
                                    else:
                                        nr.append(r2)
                        remaining = nr
                for r in remaining:
                    if default is not None:
                        entries.append((default, r))
                    elif not (n.get('allenum')):
                        out.append(('next', None, r))
                    else:
                        # all enumerators handled: no other value
                        pass
                for i, e in entries:
                    cur = [('next', None, e)]
                    for labels, c in flat[i:]:
                        nx = []
                        for k, vv, s2 in cur:
                            for o in self.stmt(c, fr, s2):
                                if o[0] == 'next':
                                    nx.append(o)
                                elif o[0] == 'brk':
                                    out.append(('next', None, o[2]))
                                else:
                                    out.append(o)
                        cur = dedupe(nx)
                        if not cur:
                            break
                    out += cur
        return self.limit(join(out))

    def s_case(self, n, fr, st):
        return self.stmt(n['sub'], fr, st)

    s_default = s_case
    s_label = s_case

    def s_return(self, n, fr, st):
        if not n.get('e'):
            return [('ret', ('c', None), self.rule.on_return(self, fr, n, ('c', None), st))]
        out = []
        rt = fr.F.S[fr.F.d['rt']]
        for v, s in self.ev(n['e'], fr, st):
            if not rt.endswith('&'):
                v = self.rvalue(v, s)
            out.append(('ret', v, self.rule.on_return(self, fr, n, v, s)))
        return out

    def unref(self, v, s):
        return v

    def s_break(self, n, fr, st):
        return [('brk', None, st)]

    def s_continue(self, n, fr, st):
        return [('cont', None, st)]

    def s_try(self, n, fr, st):
        out = []
        outs = self.stmt(n['body'], fr, st)
        extra = []
        if getattr(self.rule, 'try_may_throw', True):
            # anything in the block may throw: the handlers are also entered from the start of the block
            extra = [('throw', ('throw', '?'), st)]
        for k, v, s in outs + extra:
            if k != 'throw':
                out.append((k, v, s))
                continue
            caught = False
            for h in n['h']:
                if self.rule_catches(h, v, fr):
                    for o in self.stmt(h['body'], fr, s):
                        out.append(o)
                    caught = True
                    break
            if not caught:
                out.append((k, v, s))
        return dedupe(out)

    def rule_catches(self, h, v, fr):
        if not h.get('var') and 'ct' not in h:
            return True
        t = fr.F.S[h['ct']] if 'ct' in h else ''
        if v[1] in ('?', 'rethrow'):
            return True
        clean = lambda x: re.sub(r'\b(const|class|struct)\b|[&\s]', '', x)
        if clean(t) == clean(v[1]):
            return True
        if 'std::exception' in t or t.endswith('system_error &'):
            return True
        return False


    # ------------------------------------------------------------ entry
    def run(self, F, auto, args=None, this=None, caps=None, env=None, start=None):
        """analyse function F with symbolic parameters; [(kind, value, state)]"""
        self.stats['functions'].add(F.id)
        node = self._fid.setdefault(('entry', F.id), {'k': 'call', 'l': F.line})
        fr = Frame(F, self.frame_id(None, node), dict(env or {}), this, ((F.id,),))
        st = State(start.heap, start.facts, auto) if start else State({}, {}, auto)
        for vid, v, isref, nm in (caps or ()):
            if isref:
                fr.env[vid] = v
            else:
                st = self.write(('v', vid, fr.id), v, st)
        for i, p in enumerate(F.params):
            if args is not None and i < len(args) and args[i] is not None:
                a = args[i]
            else:
                a = ('sym', sym_name(F.S[p['t']], p['n']))
            if F.S[p['t']].endswith('&'):
                fr.env[p['id']] = a
            else:
                st = self.write(('v', p['id'], fr.id), a, st)
        self.thrown = []
        return self.stmt(F.body, fr, st)


def sym_name(t, n):
    t = re.sub(r'\b(const|volatile)\b|[&*]', '', t).strip()
    t = re.sub(r'<.*', '', t).rsplit('::', 1)[-1]
    return f'{t}:{n}'
