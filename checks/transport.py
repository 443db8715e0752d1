"""Replays behaviours of Rpc.tla on the real transports and validates what was observed against RpcTrace.tla."""
import json, subprocess, os, concurrent.futures as cf
from vlib.build import build

# seed delay(per mille) max_delay_us short one_byte eintr after_send_us after_recv_us
PROFILES = {
    'plain':  ((0, 0, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, 0, 0)),
    'jitter': ((250, 1500, 0, 0, 0, 0, 0), (250, 1500, 0, 0, 0, 0, 0)),
    'slowcli': ((0, 0, 0, 0, 0, 400, 0), (0, 0, 0, 0, 0, 0, 0)),
    'slowclirecv': ((0, 0, 0, 0, 0, 0, 400), (0, 0, 0, 0, 0, 0, 0)),
    'slowsrv': ((0, 0, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, 400, 0)),
    'frag':   ((20, 300, 500, 150, 0, 0, 0), (20, 300, 500, 150, 0, 0, 0)),
    'intr':   ((20, 300, 200, 100, 150, 0, 0), (20, 300, 200, 100, 150, 0, 0)),
}

def text(script, rng, profile, mode='unix', sizes=(0, 1, 3, 17, 100, 1000), bsizes=(5, 17, 300), seps=(), die=None, builtin=()):
    """The scenario as the harness reads it."""
    cli, srv = PROFILES[profile]
    out = [f'mode {mode}', 'seps ' + ' '.join(seps),
           f'cli {rng.randrange(1, 1 << 30)} ' + ' '.join(map(str, cli)),
           f'srv {rng.randrange(1, 1 << 30)} ' + ' '.join(map(str, srv))]
    if die: out.append(f'srvdie {die[0]} {die[1]}')
    empties = 0
    for s in script:
        op = s['op']
        if op == 'conn': out.append(f"conn {s['c']} " + ' '.join(sorted(s['eps'])))
        elif op == 'req':
            n = rng.choice(sizes)
            if n == 0:
                empties += 1
                if empties > 3: n = 9
            out.append(f"req {s['r']} {s['c']} {s['t']} {s['ep']} {n}" + (' D' if s['now'] else ''))
        elif op == 'bcast': out.append(f"bcast {s['n']} {s['ep']} {rng.choice(bsizes)}")
        elif op == 'open': out.append('open 1')
        elif op in ('awaith',): out.append(f"awaith {s['n']}")
        elif op == 'awaitu': out.append(f"awaitu {s['c']} {s['n']}")
        elif op in ('awaitr', 'drop'): out.append(f"{op} {s['r']}")
        elif op in ('sure', 'close', 'poll', 'isup'): out.append(f"{op} {s['c']}")
        elif op in ('kill', 'stop'): out += [op, 'waitdead']
        elif op == 'calm': out.append(op)
        elif op == 'bad':
            m = s['m']; seed = rng.randrange(1, 1 << 30)
            if m <= 4: out.append(f'raw {seed} {m}')
            elif m == 5: out.append(f'badproc {seed} die {rng.randrange(0, 140)} {rng.choice(builtin or ["sync"])} {rng.choice([0, 3, 60])}')
            elif m == 6 and builtin: out.append(f'badproc {seed} fuzz 40 x 0')
            elif m == 6: out.append(f'badproc {seed} die 100000 {rng.choice(list(builtin) + ["sync", "nope"])} {rng.choice([0, 1, 3, 60, 3000])}')
            else: out.append(f'badproc {seed} stall {rng.randrange(0, 80)} {rng.choice(builtin or ["sync"])} {rng.choice([0, 3, 60])}')
        else: raise ValueError(op)
    return '\n'.join(out) + '\n'

def harness(name='h_transport', **kw):
    return build(name, ['h_transport.cpp', 'interpose.cpp'], libs=kw.pop('libs', ('interface', 'transport')), **kw)

def run(exe, scen, timeout=60, env=None):
    try:
        p = subprocess.run(exe if isinstance(exe, list) else [exe], env=dict(os.environ, **env) if env else None, input=scen, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
    tr = []
    for line in out.splitlines():
        try: tr.append(json.loads(line))
        except ValueError: pass
    if not tr or tr[-1]['e'] != 'Done':
        if rc == 3: raise RuntimeError('harness: ' + p.stderr[-500:])
        tr.append({'e': 'Crash', 'rc': str(rc)})
    return tr

def broken(tr):
    """Ended in a hang or a crash: no specification allows that, and it takes long."""
    return tr[-1]['e'] in ('Crash', 'Hang') or any(e['e'] in ('Hang', 'StillUp') for e in tr)

def batch(runner, items, workers, enough=3):
    """Run all items, but stop starting new ones when enough of them ended badly."""
    bad = [0]
    def one(x):
        if bad[0] >= enough: return None
        t = runner(x)
        if broken(t): bad[0] += 1
        return t
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, items))

def campaign(ctx, exe, scens, cfg, module='RpcTrace', workers=12, size=96, runner=None, describe=None, key=None):
    """Run the scenarios, validate the traces; a rejection has to repeat before it counts."""
    runner = runner or (lambda s: run(exe, s))
    lost = total = 0
    for o in range(0, len(scens), size):
        part = scens[o:o + size]
        res = batch(runner, part, workers)
        done = [(s, t) for s, t in zip(part, res) if t is not None]
        lost += sum(1 for _, t in done if any(e['e'] == 'ConnFail' for e in t)); total += len(done)
        if lost * 2 > total:
            raise RuntimeError('most clients could not connect: nothing can be decided')
        ctx.evaluations += len(done)
        for _, t in done: ctx.distinct.add(key(t) if key else json.dumps([e['e'] for e in t]))
        if o == 0: ctx.sample({'scenario': describe(done[0][0]) if describe else done[0][0].splitlines(), 'trace': done[0][1][:25]})
        rej = ctx.validate(module, cfg, [t for _, t in done])
        if not rej:
            if ctx.left() < 0: break
            continue
        confirm(ctx, runner, [(done[i][0], done[i][1], n) for i, n in rej], module, cfg, describe)

def confirm(ctx, runner, rejected, module, cfg, describe=None, tries=8):
    """Report a rejection if it repeats: in another scenario, or in the same one run again."""
    def report(s, t, n):
        ctx.violation(f'the implementation did what the specification does not allow: event {n + 1} of the trace, '
                      f'{json.dumps(t[n]) if n < len(t) else "end"}', scenario=describe(s) if describe else s.splitlines(), trace=t,
                      accepted_prefix=n, specification=f'{module}/{cfg}')
    if len(rejected) >= 3:
        report(*min(rejected, key=lambda x: len(x[1])))
    for s, t, n in rejected[:3]:
        ts = [x for x in batch(lambda _: runner(s), range(tries), 4, enough=2) if x is not None]
        r2 = ctx.validate(module, cfg, ts, count=False)
        if r2:
            report(s, ts[r2[0][0]], r2[0][1])
    ctx.extra['unrepeated_rejections'] = ctx.extra.get('unrepeated_rejections', 0) + len(rejected)
    s, t, n = rejected[0]
    os.makedirs(os.path.join(os.path.dirname(__file__), '..', 'evidence'), exist_ok=True)
    with open(os.path.join(os.path.dirname(__file__), '..', 'evidence', f'{ctx.pid}.unrepeated.json'), 'w') as f: json.dump({'scenario': describe(s) if describe else s.splitlines(), 'trace': t, 'n': n}, f)
    ctx.log(f'a rejection did not repeat: {json.dumps(t[n]) if n < len(t) else "end"}')
    if ctx.extra['unrepeated_rejections'] >= 3:
        report(s, t, n)
