"""C06: misbehaving clients and handlers."""
from . import transport as T
SEPS = ('e1', 'e2', 'm1', 't1', 'x1')
BUILTIN = ('introspect', 'process_info', 'trace_configurator', 'scope_tracing')

def check(ctx):
    ctx.rule = ('behaviours of Rpc interleaved with misbehaving peers (random bytes, huge lengths, clients that die or stall in the middle of a message, '
                'almost valid requests to the built-in endpoints) and throwing handlers; distinct by event sequence')
    ctx.model_check('MCUnixTransport', 'UnixTransport_rpc_close.cfg')
    exe = T.harness('h_transport_builtin', flags=('-DWITH_BUILTIN',), libs=('interface', 'transport', 'general', 'tracing', 'nop'))
    scripts = ctx.simulate('RpcGen', 'RpcGen_C06.cfg', 3000 if ctx.thorough else 400, 100)
    profs = ['plain', 'jitter', 'frag', 'plain', 'intr']
    scens = []
    for i, s in enumerate(scripts):
        stalls = 0
        for x in s:
            if x['op'] == 'bad' and x['m'] == 7:
                stalls += 1
                if stalls > 1: x['m'] = 6
        scens.append(T.text(s, ctx.rng, profs[i % len(profs)], seps=SEPS, builtin=BUILTIN))
    # more visitors than a process may have descriptors, before and while the well-behaved clients are served
    for i, s in enumerate(ctx.rng.sample(scripts, 6 if ctx.thorough else 2)):
        out = T.text(s, ctx.rng, 'plain', seps=SEPS, builtin=BUILTIN).splitlines()
        first = next(k for k, x in enumerate(out) if x.startswith('conn '))
        out.insert(first + i % 2, 'visitors 1500')
        scens.insert(i, '\n'.join(out) + '\n')
    T.campaign(ctx, exe, scens, 'RpcTrace_C06.cfg')
