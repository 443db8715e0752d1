"""C04: dropped requests."""
from . import transport as T

def check(ctx):
    ctx.rule = 'behaviours of Rpc with futures dropped at every stage, replayed on a server process and two clients; distinct by event sequence'
    ctx.model_check('MCUnixTransport', 'UnixTransport_drop.cfg')
    ctx.model_refutes('MCUnixTransport', 'UnixTransport_drop_bad_late.cfg')
    exe = T.harness()
    scripts = ctx.simulate('RpcGen', 'RpcGen_C04.cfg', 6000 if ctx.thorough else 500, 120)
    profs = ['plain', 'slowsrv', 'jitter', 'slowclirecv', 'slowcli']
    scens = [T.text(s, ctx.rng, profs[i % len(profs)], seps=('e1', 'l1', 'm1', 'g1')) for i, s in enumerate(scripts)]
    T.campaign(ctx, exe, scens, 'RpcTrace_C04.cfg')
