"""C05: the server goes away."""
from . import transport as T
SEPS = ('e1', 'm1', 'g1', 'l1')

# Conversations during which the server dies after each byte it sent or received.
TALKS = [
    ['conn 1 b1', 'sure 1', 'req 1 1 1 e1 10', 'req 2 1 2 e1 10', 'req 3 1 1 m1 5', 'bcast 1 b1 9', 'req 4 1 1 e1 3', 'pause 20000', 'waitdead'],
    ['conn 1 b1', 'conn 2 b1 b2', 'sure 1', 'sure 2', 'req 1 1 1 m1 4', 'req 2 2 1 e1 20', 'drop 1', 'bcast 1 b2 12', 'req 3 1 1 e1 1', 'req 4 2 2 m1 0', 'pause 20000', 'waitdead'],
]

def offsets(ctx):
    for k, talk in enumerate(TALKS):
        for way in ('send', 'recv'):
            top = 260
            step = 1 if ctx.thorough else 3
            for n in range(1 + (ctx.seed + k) % step, top, step):
                prof = 'plain' if n % 2 else 'frag'
                cli, srv = T.PROFILES[prof]
                # when the conversation ends before that many bytes passed the server is killed
                yield '\n'.join([f'mode unix', 'seps ' + ' '.join(SEPS), f'cli {n} ' + ' '.join(map(str, cli)), f'srv {n} ' + ' '.join(map(str, srv)),
                                 f'srvdie {way} {n}'] + talk[:-1] + ['kill', talk[-1]]) + '\n'

def check(ctx):
    ctx.level = 'model_checking'
    ctx.rule = 'behaviours of Rpc that end the server, and conversations cut off after every n-th byte sent or received by the server; distinct by event sequence'
    ctx.model_check('MCUnixTransport', 'UnixTransport_loss.cfg')
    ctx.model_check('MCUnixTransport', 'UnixTransport_live.cfg')
    ctx.model_refutes('MCUnixTransport', 'UnixTransport_loss_bad_nofail.cfg')
    if ctx.thorough:
        ctx.model_check('MCUnixTransport', 'UnixTransport_loss_big.cfg', timeout=2000)
    exe = T.harness()
    scripts = ctx.simulate('RpcGen', 'RpcGen_C05.cfg', 5000 if ctx.thorough else 400, 110)
    for s in scripts:       # every behaviour ends with the loss of the server
        if not any(x['op'] in ('kill', 'stop') for x in s):
            s.append({'op': ctx.rng.choice(['kill', 'stop'])})
    profs = ['plain', 'jitter', 'slowcli', 'slowsrv', 'frag', 'intr']
    scens = [T.text(s, ctx.rng, profs[i % len(profs)], seps=SEPS) for i, s in enumerate(scripts)]
    T.campaign(ctx, exe, scens, 'RpcTrace_C05.cfg')
    cut = list(offsets(ctx))
    ctx.extra['crash_points'] = len(cut)
    T.campaign(ctx, exe, cut, 'RpcTrace_C05.cfg')
