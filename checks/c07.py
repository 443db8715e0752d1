"""C07: discovery, serving, connecting."""
from vlib.build import build
from . import transport as T

CFG = ['0 0 0 0', '200 800 0 0', '50 300 100 0', '0 0 0 3000']

def text(ctx, script, cfg):
    out = [f'cfg {ctx.rng.randrange(1, 1 << 30)} {cfg}']
    born = 0
    for s in script:
        op = s['op']
        a = ' &' if s.get('a') else ''
        if op == 'born': out.append(f"born {s['p']}"); born += 1
        elif op in ('serve', 'stop'): out.append(f"{op} {s['p']}{a}")
        elif op in ('kill', 'exit', 'alien'): out.append(f"{op} {s['p']}")
        elif op in ('disc', 'use'): out.append(f"{op} {s['p']} {s['i']}{a}")
        elif op == 'conn':
            if not a: out.append(f"learn {s['p']}")
            out.append(f"conn {s['p']} {s['i']} {s['to']}{a}")
        elif op == 'drop': out.append(f"drop {s['p']} {s['i']}")
        elif op == 'swap': out += [f"learn {s['p']}", f"swap {s['p']} {s['i']} {s['j']} {s['to']}", f"use {s['p']} {s['j']}"]
        elif op == 'join': out.append('join')
    out.append('join')
    # at the end, everybody looks around and tries everything again
    alive = []
    for s in script:
        if s['op'] == 'born': alive.append(s['p'])
        if s['op'] in ('kill', 'exit'): alive.remove(s['p'])
    for p in alive:
        out.append(f'disc {p} {100 + p}')
    n = max([s.get('i', 0) for s in script if s['op'] in ('conn',)] + [s.get('j', 0) for s in script] + [0])
    for p in alive:
        for i in range(1, n + 1): out.append(f'use {p} {i}')
    for k, p in enumerate(alive):
        for q in range(1, born + 1): out.append(f'conn {p} {200 + 10 * k + q} {q}')
    for p in alive: out += [f'serve {p}', f'disc {p} {150 + p}', f'learn {p}', f'conn {p} {300 + p} {p}', f'use {p} {300 + p}']
    return '\n'.join(out) + '\n'

def check(ctx):
    ctx.rule = 'histories of up to six processes that serve, stop, die, discover and connect, with overlapping calls, among sockets with similar names; distinct by event sequence'
    ctx.model_check('Discovery', 'Discovery_big.cfg' if ctx.thorough else 'Discovery_ok.cfg')
    ctx.model_refutes('Discovery', 'Discovery_bad_dedup.cfg')
    ctx.model_refutes('Discovery', 'Discovery_bad_close.cfg')
    exe = build('h_discovery', ['h_discovery.cpp', 'interpose.cpp'], libs=('interface', 'transport'))
    scripts = ctx.simulate('DiscoveryGen', 'DiscoveryGen.cfg', 5000 if ctx.thorough else 400, 60)
    scens = [text(ctx, s, CFG[i % len(CFG)]) for i, s in enumerate(scripts)]
    T.campaign(ctx, exe, scens, 'DiscoveryTrace.cfg', module='DiscoveryTrace')
