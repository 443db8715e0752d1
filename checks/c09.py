"""C09: the endpoint manager."""
from vlib.build import build
from . import transport as T

def text(ctx, script, mode):
    out = [f'mode {mode}', f'seed {ctx.rng.randrange(1, 1 << 30)}']
    for s in script:
        op = s['op']
        if op == 'appear': out.append(f"appear {s['s']} " + ' '.join(sorted(s['eps'])))
        elif op == 'fact': out.append(f"fact {s['n']}")
        elif op == 'round':
            out.append('round ' + ' '.join(f"{h['pt']} {h['n']} {h['act']} {h['s']} {len(h['eps'])} " + ' '.join(sorted(h['eps'])) for h in s['hooks']))
        else: out.append(f"{op} {s['s']}")
    # everybody answers again, and two quiet rounds
    for k in (1, 2, 3): out.append(f'free {k}')
    out += ['round', 'round']
    return '\n'.join(out) + '\n'

def check(ctx):
    ctx.rule = ('histories of three servers that appear, vanish, restart and get busy, between rounds and at the n-th discovery, connect or question of a round, '
                'on a transport made for it and on unix sockets, managed by hand or by polling; distinct by event sequence')
    ctx.model_check('MCManager', 'Manager_big.cfg' if ctx.thorough else 'Manager_ok.cfg')
    for b in ('null', 'catch', 'retry', 'clean'): ctx.model_refutes('MCManager', f'Manager_bad_{b}.cfg')
    exe = build('h_manager', ['h_manager.cpp'], libs=('interface', 'transport', 'general'))
    fake = ctx.simulate('ManagerGen', 'ManagerGen_fake.cfg', 8000 if ctx.thorough else 600, 60)
    unix = ctx.simulate('ManagerGen', 'ManagerGen_unix.cfg', 1500 if ctx.thorough else 150, 40)
    modes = ['fake', 'fake', 'fake twice', 'fake poll', 'fake reader', 'fake poll reader']
    T.campaign(ctx, exe, [text(ctx, s, modes[i % len(modes)]) for i, s in enumerate(fake)], 'ManagerTrace.cfg', module='ManagerTrace')
    modes = ['unix', 'unix', 'unix poll']
    T.campaign(ctx, exe, [text(ctx, s, modes[i % len(modes)]) for i, s in enumerate(unix)], 'ManagerTrace.cfg', module='ManagerTrace')
