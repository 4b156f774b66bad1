from .common_replies import *


class Domain(Replies):
    requester = ('process.ipc', 'process', 'information.handle', 'information.handle.ipc')


def exempt(h, kind, st, rule):
    if h.type == 'domain_process_lookup_request' and fact(st, r'^request\.identification$', False) and fact(st, r'^request\.pid$', False):
        return 'the lookup names nothing'
    return None


def check(ctx):
    ctx.load('domain/*')
    run(ctx, r'^domain/source/manager/', minimum=5, cls=Domain, exempt=exempt, skip=(r'^shutdown',))
