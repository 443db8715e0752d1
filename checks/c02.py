"""C02: messages on the byte stream."""
from . import transport as T
LONG = ['e*250', 'e*4090', 'e*33000', 'e*65534']
SEPS = ['e1', 'e2', 'z1', 'l1'] + LONG
SIZES = (0, 1, 2, 7, 255, 256, 4095, 4096, 4097, 8192, 12288, 65535, 65536, 65537, 200000, 212992, 1 << 20)
HUGE = ((1 << 24) + 5, 20 << 20, (1 << 23) + 4096, (1 << 22) - 1)

def names(script, rng):
    """Some requests and broadcasts go to endpoints with long names."""
    for x in script:
        if x['op'] == 'req' and x['ep'] == 'e2' and rng.random() < 0.6: x['ep'] = rng.choice(LONG)
        if x['op'] == 'conn': x['eps'] = list(x['eps']) + ['b*5000']
        if x['op'] == 'bcast' and x['ep'] == 'b2' and rng.random() < 0.5: x['ep'] = 'b*5000'
    return script

def talk(n, prof, seps, steps, extra=()):
    cli, srv = T.PROFILES[prof]
    return '\n'.join(['mode unix', 'seps ' + ' '.join(seps), f'cli {n + 1} ' + ' '.join(map(str, cli)),
                      f'srv {n + 1} ' + ' '.join(map(str, srv))] + list(extra) + steps) + '\n'

def huge(ctx):
    for k, h in enumerate(HUGE if not ctx.thorough else HUGE + ((64 << 20) + 3, 100 << 20)):
        for p in ('plain', 'intr') if ctx.thorough else (('plain', 'intr')[k % 2],):
            yield talk(ctx.seed + k, p, SEPS, ['conn 1 b1', 'sure 1', f'req 1 1 1 e1 {h}', f'req 2 1 2 e1 17', f'req 3 1 1 z1 {h}', 'awaitr 2',
                                               f'bcast 1 b1 {h}', 'bcast 2 b1 9', 'awaitu 1 2', 'req 4 1 1 e1 3'])

def deaths(ctx):
    """A client that dies after n bytes of its requests, a server that dies after n bytes of its responses, for many n."""
    step = 1 if ctx.thorough else 4
    for size in (0, 37):
        for n in range(1 + ctx.seed % step, 3 * (20 + size + 5), step):
            yield talk(n, 'frag' if n % 3 else 'plain', SEPS, ['conn 1 b1', 'sure 1', f'badproc {n} die {n} e1 {size}', 'req 1 1 1 e1 10', 'awaitr 1', 'bcast 1 b1 5'])
    big = [1, 4095, 4096, 4097, 8191, 65536, 131072, 299999, 300015]
    for n in big + [ctx.rng.randrange(1, 300000) for _ in range(60 if ctx.thorough else 6)]:
        yield talk(n, 'plain', SEPS, ['conn 1 b1', 'sure 1', f'badproc {n} die {n} e1 300000', 'req 1 1 1 e1 10', 'awaitr 1'])
        yield talk(n, 'plain', SEPS, ['conn 1 b1', 'conn 2 b1', 'req 1 1 1 l1 10', 'req 2 2 1 l1 3', 'pause 100000', 'kill', 'waitdead'], [f'srvdie send {n}'])
    for n in range(1 + ctx.seed % step, 150, step):
        yield talk(n, 'frag' if n % 3 else 'plain', SEPS, ['conn 1 b1', 'sure 1', 'req 1 1 1 e1 4', 'bcast 1 b1 7', 'req 2 1 2 e1 12', 'pause 20000', 'kill', 'waitdead'], [f'srvdie send {n}'])

def check(ctx):
    ctx.rule = ('behaviours of Rpc with payloads of 0 bytes to 20 MB (100 MB) and endpoint names of up to 65535 bytes, calls cut and interrupted at random, '
                'and peers that die after the n-th byte; distinct by event sequence and sizes')
    ctx.model_check('MCFraming', 'Framing_ok.cfg')
    ctx.model_check('MCFraming', 'Framing_big.cfg')
    for b in ('lock', 'send', 'recv', 'eof'):
        ctx.model_refutes('MCFraming', f'Framing_bad_{b}.cfg')
    exe = T.harness()
    scripts = ctx.simulate('RpcGen', 'RpcGen_C02.cfg', 3000 if ctx.thorough else 260, 90)
    profs = ['frag', 'intr', 'plain']
    scens = [T.text(names(s, ctx.rng), ctx.rng, profs[i % len(profs)], seps=SEPS, sizes=SIZES, bsizes=(5, 300, 4096, 65536, 150000)) for i, s in enumerate(scripts)]
    T.campaign(ctx, exe, scens, 'RpcTrace_C02.cfg')
    T.campaign(ctx, exe, list(huge(ctx)), 'RpcTrace_C02.cfg', workers=3)
    cut = list(deaths(ctx))
    ctx.extra['crash_points'] = len(cut)
    T.campaign(ctx, exe, cut, 'RpcTrace_C02.cfg')
