"""C01: requests and responses over unix sockets."""
from . import transport as T
SEPS = ('e1', 'e2', 'm1', 'g1', 'z1', 'l1')

def warm(text, n):
    out = []
    for line in text.splitlines():
        out.append(line)
        if line.startswith('conn '): out.append(f'warm {line.split()[1]} {n}')
    return '\n'.join(out) + '\n'

def check(ctx):
    ctx.rule = 'behaviours of Rpc simulated by TLC, replayed on a server process and two clients; distinct by their event sequence'
    ctx.model_check('MCUnixTransport', 'UnixTransport_rpc.cfg')
    ctx.model_check('MCUnixTransport', 'UnixTransport_rpc_close.cfg')
    ctx.model_check('MCUnixTransport', 'UnixTransport_live.cfg')
    ctx.model_refutes('MCUnixTransport', 'UnixTransport_rpc_bad_register.cfg')
    ctx.model_refutes('MCUnixTransport', 'UnixTransport_rpc_bad_key.cfg')
    if ctx.thorough:
        ctx.model_check('MCUnixTransport', 'UnixTransport_rpc_big.cfg', timeout=1500)
    exe = T.harness()
    n = 6000 if ctx.thorough else 500
    scripts = ctx.simulate('RpcGen', 'RpcGen_C01.cfg', n, 90)
    profs = ['plain', 'jitter', 'slowcli', 'slowclirecv', 'slowsrv', 'frag']
    scens = [T.text(s, ctx.rng, profs[i % len(profs)], seps=SEPS) for i, s in enumerate(scripts)]
    # the same after a long history on the connection: the request ids of a client exceed one byte, two bytes, ...
    for i, s in enumerate(ctx.rng.sample(scripts, 24 if ctx.thorough else 6)):
        scens.insert(i, warm(T.text(s, ctx.rng, 'plain', seps=SEPS), 66000 if i % 3 == 0 else 300))
    T.campaign(ctx, exe, scens, 'RpcTrace_C01.cfg')
