from .common_replies import *


def exempt(h, kind, st, rule):
    if fact(st, r'^request\.reply$', False):
        return 'no reply asked for'
    return None


def check(ctx):
    ctx.load('service/*')
    # prepare shutdown is answered in several parts by design (S05)
    run(ctx, r'^service/source/manager/', minimum=5, exempt=exempt, skip=(r'^shutdown', r'prepare_shutdown'))
