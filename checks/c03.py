"""C03: broadcasts over unix sockets."""
from . import transport as T

def check(ctx):
    ctx.rule = 'behaviours of Rpc with bursts of broadcasts, replayed on a server process and three clients; distinct by event sequence'
    ctx.model_check('MCUnixTransport', 'UnixTransport_bcast.cfg')
    ctx.model_refutes('MCUnixTransport', 'UnixTransport_bcast_bad_lifo.cfg')
    ctx.model_refutes('MCUnixTransport', 'UnixTransport_drop_bad_late.cfg')
    if ctx.thorough:
        ctx.model_check('MCUnixTransport', 'UnixTransport_bcast_big.cfg', timeout=1500)
    exe = T.harness()
    scripts = ctx.simulate('RpcGen', 'RpcGen_C03.cfg', 6000 if ctx.thorough else 500, 110)
    profs = ['plain', 'jitter', 'slowclirecv', 'slowsrv', 'slowcli', 'frag']
    scens = [T.text(s, ctx.rng, profs[i % len(profs)], seps=('e1', 'm1', 'g1'), bsizes=(5, 17, 300, 9000)) for i, s in enumerate(scripts)]
    T.campaign(ctx, exe, scens, 'RpcTrace_C03.cfg')
