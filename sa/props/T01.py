from .common_replies import *
from ..interp import strip_hv


def interim(v, I, st):
    s = I.mem(v, 'stage') if v[0] in ('upd', 'new') else None
    s = I.read(s, st) if s else None
    return bool(s and s[0] == 'e' and s[1].endswith('::prepare'))


def exempt(h, kind, st, rule):
    if h.type.endswith('involved_request') and fact(st, r'^request\.reply$', False):
        return 'no reply asked for'
    if any(contains_hv(k) for k in lookups_failed(st, r'transactions')):
        return 'the transaction is gone when the resources have answered'
    if eq(st, r'request\.process', r'handle\(\)'):
        return 'instigated by the manager itself'
    return None


def contains_hv(t):
    if not isinstance(t, tuple) or not t:
        return False
    return t[0] == 'hv' or any(contains_hv(x) for x in t if isinstance(x, tuple))


def check(ctx):
    ctx.load('transaction/*')
    run(ctx, r'^transaction/source/manager/', minimum=8, interim=interim, exempt=exempt, skip=(r'^shutdown', r'^domain_'))
