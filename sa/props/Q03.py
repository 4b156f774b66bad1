"""transaction outcome of messages: commit, rollback, recovery"""
from .queue_common import *


def committed(row):
    if row['gtrid'] != 'G':
        return row
    if row['state'] == 1:
        return dict(row, state=2)
    if row['state'] == 3:
        return None
    return row


def rolled_back(delay, retry):
    def f(row):
        if row['gtrid'] != 'G' or row['state'] == 2:
            # a message that was committed by the same transaction has no redelivery
            return row if row['redelivered'] == 0 or row['gtrid'] != 'G' else ...
        if row['state'] == 1:
            return None
        r = dict(row, state=2, redelivered=row['redelivered'] + 1, available=0 if delay == 0 or row['queue'] == QE else NOW + delay)
        if row['queue'] != QE and r['redelivered'] > retry:
            r.update(queue=row['queue'] - 1, redelivered=0, available=0)
        return r
    return f


def outcome(ctx, h, st, events, commit, key, what):
    ok = True
    if commit:
        ok = check_effect(ctx, key, h, st, events, committed, variants(state=[1, 2, 3], gtrid=['G', 'H', None], queue=[Q, QE, QO], redelivered=[0, 2], available=[0, NOW + 9]), queue_table(0), what)
    else:
        for delay in (0, 500):
            for retry in (0, 1, 3):
                ok = ok and check_effect(ctx, key, h, st, events, rolled_back(delay, retry),
                                         variants(state=[1, 2, 3], gtrid=['G', 'H', None], queue=[Q, QE, QO], redelivered=[0, 1, 2, 3, 4], available=[0, NOW - 5]), queue_table(delay, retry),
                                         f'{what}with retry count {retry} and retry delay {delay}us, ')
    return ok


def check(ctx):
    load(ctx)
    ctx.rule('commit and rollback of a global transaction, as composed of the sql executed on each path that answers ok, is exactly the required function on abstract message rows '
             '(state x same/other/no transaction x queue kind x redelivered vs retry count x availability)')
    for t, rt, commit in (('transaction_resource_commit_request', 'transaction_resource_commit_reply', True), ('transaction_resource_rollback_request', 'transaction_resource_rollback_reply', False)):
        h, out = paths(ctx, t)
        n = 0
        for k, st in out:
            c = code_is(reply_value(st, rt, 'state'), 'ok')
            if c is False:
                continue
            n += 1
            events = sqls(st)
            if outcome(ctx, h, st, events, commit, t, 'after an ok ' + t.split('_')[2] + ' '):
                ctx.ok(f'{t}: path {n}', h.F.where())
        ctx.need(n, f'{t}: no path answers ok')
    # recovery of a list of transactions
    t = 'queue_group_message_recovery_request'
    h, out = paths(ctx, t)
    seen = set()
    for k, st in out:
        events = sqls(st)
        if not events:
            continue
        directive = None
        for f, v in st.facts.items():
            if f[0] == 'eq' and 'directive' in path(f[1]) + path(f[2]):
                is_commit = 'commit' in (path(f[2]) + path(f[1]).replace('request.directive', ''))
                directive = (v is True) == is_commit
        ctx.need(directive is not None, 'the recovery directive is not decided on a path')
        seen.add(directive)
        if outcome(ctx, h, st, events, directive, f'{t}: {"commit" if directive else "rollback"}', 'recovery: '):
            ctx.ok(f'{t}: {directive}', h.F.where())
    ctx.expect(seen == {True, False}, f'{t}: both directives', 'commit and rollback are both possible in a recovery', h.F.where())
    # prepare and forget do not touch messages
    h, out = paths(ctx, 'transaction_resource_prepare_request')
    ctx.expect(not any(sqls(s) for _, s in out), 'prepare', 'a prepare changes messages', h.F.where())
