"""C08: the loopback transport."""
from . import transport as T

def check(ctx):
    ctx.rule = 'behaviours of Rpc replayed on a loopback server and three clients; distinct by event sequence'
    exe = T.harness()
    scripts = ctx.simulate('RpcGen', 'RpcGen_C08.cfg', 6000 if ctx.thorough else 500, 120)
    scens = [T.text(s, ctx.rng, 'plain', mode='loop', seps=('e1', 'e2', 'm1', 's1', 'z1')) for s in scripts]
    T.campaign(ctx, exe, scens, 'RpcTrace_C08.cfg')
