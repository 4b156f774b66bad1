from .common_replies import *


def check(ctx):
    ctx.load('queue/*')
    run(ctx, r'^queue/source/(manager|forward)/', minimum=8, skip=(r'^shutdown', r'dequeue_forget_request'))
