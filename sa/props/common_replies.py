"""Shared: reply obligations of the request handlers of one component."""
import re
from .. import model, facts
from ..interp import Budget, path, contains
from ..rules import replies
from ..rules.replies import Replies
from ..facts import AnalysisError


def lookups_failed(st, what):
    """facts of the path that say: a lookup (in a path matching `what`) found nothing"""
    for k, v in st.facts.items():
        if k[0] == 't' and v is False and re.search(what, path(k[1])):
            yield k[1]


def fact(st, rx, value=True):
    for k, v in st.facts.items():
        if k[0] == 't' and v is value and re.search(rx, path(k[1])):
            return True
    return False


def eq(st, rx, rhs, value=True):
    for k, v in st.facts.items():
        if k[0] == 'eq' and v is value:
            a, b = path(k[1]), path(k[2])
            if (re.search(rx, a) and re.search(rhs, b)) or (re.search(rx, b) and re.search(rhs, a)):
                return True
    return False


def types_of(P):
    for en, e in P.enums.items():
        if en.endswith('message::Type'):
            return {c[0] for c in e['c']}
    raise AnalysisError('message::Type is gone')


def default_reply(t, all):
    r = re.sub(r'_request$', '_reply', t) if t.endswith('_request') else t + '_reply'
    return {r} if r in all else set()


def requests(ctx, file, all):
    for h in model.handlers(ctx.P, file):
        if not h.type or 'dispatch/handle' in h.F.file:
            continue
        rt = default_reply(h.type, all)
        if rt:
            yield h, rt


def run(ctx, file, *, minimum, skip=(), cls=Replies, interim=None, exempt=None, accept=None, limits=None, only=None, reply_types=None):
    """file: regex of the files that define the dispatch tables.
    exempt(h, kind, state, rule) -> reason | None   a path without reply that owes none
    """
    P = ctx.P
    all = types_of(P)
    ctx.rule('every path through a request handler (helpers inlined, stored continuations analysed after all component state has been forgotten) '
             'discharges the obligation exactly once: a reply of the right type to the address in the request, carrying its correlation, or the request is handed over whole')
    n = 0
    for h, rt in requests(ctx, file, all):
        if any(re.search(s, h.type) for s in skip) or (only and not re.search(only, h.type)):
            continue
        if reply_types and h.type in reply_types:
            rt = reply_types[h.type]
        n += 1
        try:
            out, rule, I = replies.analyse(P, h, rt, rule_cls=cls, interim=interim, limits=limits)
        except Budget:
            ctx.notes.append(f'{h.type}: too many paths, not decided')
            continue
        ctx.used(I)
        ctx.count('request_handlers')
        ctx.count('paths', len(out))
        if not any(k in ('reply', 'stored', 'continuation', 'forward', 'requeue', 'extra') for (_, _, k) in rule.sites):
            ctx.bad(f'{h.type}: no reply', f'the handler of {h.type} never answers', h.F.where())
            continue
        ok = True
        for kind, val, st in out:
            if kind == 'throw':
                continue
            a = st.auto
            total = a[0] + a[2]
            if total == 1:
                continue
            if exempt:
                why = exempt(h, kind, st, rule)
                if why and total == 0:
                    ctx.count('exempt_paths')
                    continue
            ok = False
            what = 'is not answered' if total == 0 else 'is answered more than once'
            ctx.bad(f'{h.type}: {what}', f'a {h.type} {what} on the path where {replies.describe(st) or "(no condition)"}', h.F.where(),
                    [f'{w} at {x}' for w, x in a[3]])
        for b in rule.bad:
            ok = False
            ctx.bad(f'{h.type}: {b[0]}', f'{h.type}: {b[3]}', b[1].where(b[2]))
        if ok:
            for (f, l, k) in sorted(rule.sites, key=str):
                ctx.sites.append({'site': f'{h.type}: {k}', 'where': f'{f}:{l}', 'ok': True})
            ctx.ok(h.type, h.F.where())
    ctx.need(n >= minimum, f'only {n} request handlers found (expected at least {minimum})')
