from .common_replies import *


def check(ctx):
    ctx.load('domain/*')
    run(ctx, r'^domain/source/discovery/', minimum=4, skip=(r'^shutdown',))
