from .common_replies import *


def check(ctx):
    ctx.load('queue/*')
    run(ctx, r'^queue/source/group/', minimum=12, skip=(r'^shutdown',))
