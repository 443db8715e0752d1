"""C13: names of processes and threads."""
from . import transport as T
from vlib.build import build

NAMES = ['main', 'main', 'worker', '', 'näme ☂', 'with "quotes" \\ and\nlines', 'x' * 300, '\x01\x7f', 'a\x00b']

def lines(script, rng):
    h = lambda i: 'x' + NAMES[i - 1].encode().hex()
    out = ['procs 3']
    for s in script:
        op = s['op']
        if op in ('par', 'seq'): out.append(op)
        elif op == 'q': out.append(f"q {s['s']}")
        elif op in ('info', 'kill'): out.append(f"{op} {s['p']}")
        elif op == 'link': out.append(f"link {s['p']} {s['i']} {s['m']}")
        elif op == 'unlink': out.append(f"unlink {s['p']} {s['i']}")
        elif op in ('start', 'exit'): out.append(f"p {s['p']} {op} {s['k']}")
        elif op == 'pname': out.append(f"p {s['p']} pname {h(s['n'])}")
        elif op == 'name': out.append(f"p {s['p']} name {s['k']} {s['how']} {h(s['n'])}")
    return '\n'.join(out) + '\n'

def check(ctx):
    ctx.rule = ('histories of three real processes with up to four threads each that start, name and rename themselves, exit and reuse ids, one at a time and in parallel with several '
                'clients; processes reachable over several links that answer, fail in six ways, stay silent or were killed; distinct by event sequence')
    ctx.model_check('ProcInfo', 'ProcInfo_big.cfg' if ctx.thorough else 'ProcInfo_ok.cfg', timeout=1500)
    ctx.refute_all('ProcInfo', [f'ProcInfo_bad_{b}.cfg' for b in ('no_erase', 'late_erase', 'once', 'stale', 'zero', 'abort')])
    exe = build('h_names', ['h_names.cpp'], libs=('interface', 'general'))
    scripts = ctx.simulate('ProcInfoGen', 'ProcInfoGen.cfg', 10000 if ctx.thorough else 800, 60)
    T.campaign(ctx, exe, [lines(s, ctx.rng) for s in scripts], 'ProcInfoTrace.cfg', module='ProcInfoTrace')
