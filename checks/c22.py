"""C22: tracker maps and endpoint registries as atomic maps."""
import json, subprocess, concurrent.futures as cf
from vlib.build import build

def explore(exe, lines, timeout):
    try:
        p = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           env={'MALLOC_PERTURB_': '165', 'PATH': '/usr/bin:/bin'})
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace'), 'timeout'
    res, n, cut, ok = [], 0, 0, False
    for l in out.splitlines():
        a, _, b = l.partition(' ')
        if a == 'done': n, cut = map(int, b.split()); ok = True
        else:
            try: res.append((int(a) - 1, json.loads(b)))
            except ValueError: pass
    return res, n, cut, None if ok else rc

def storm(ctx):
    exe = build('h_maps_storm', ['h_maps_storm.cpp'], libs=('interface', 'transport', 'general'), flags=('-fsanitize=thread',), link=('-fsanitize=thread',))
    base = ['setarch', '-R'] if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else []
    env = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1', 'PATH': '/usr/bin:/bin'}
    for what, n in (('map', 400), ('loop', 200), ('unix', 300)):
        try:
            p = subprocess.run(base + [exe, what, str(n * (10 if ctx.thorough and what != 'loop' else 1))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=200)
        except subprocess.TimeoutExpired:
            ctx.violation(f'threads on a shared {what}: does not end')
        if 'FATAL: ThreadSanitizer' in p.stderr or 'unexpected memory mapping' in p.stderr:
            ctx.extra['thread_sanitizer'] = 'unavailable'; return
        if p.returncode == 3: raise RuntimeError('could not serve and connect')
        if p.returncode == 66: ctx.violation(f'unordered accesses (a data race) on a shared {what}', report=p.stderr[:4000])
        if p.returncode != 0: ctx.violation(f'threads on a shared {what}: exit code {p.returncode}, {p.stderr[-300:]}')
        ctx.evaluations += 1

def check(ctx):
    ctx.rule = ('histories of all interleavings with up to two (thorough: three) preemptions of two or three threads with up to two operations each on the real tracker map and the '
                'real endpoint registry, preempted at locks, allocations, hashing, comparing and copying; distinct by observed history')
    ctx.model_check('AtomicMap', 'AtomicMap_big.cfg' if ctx.thorough else 'AtomicMap_ok.cfg')
    ctx.model_check('AtomicMap', 'AtomicMap_live.cfg')
    ctx.refute_all('AtomicMap', [f'AtomicMap_bad_{o}.cfg' for o in ('insert', 'erase', 'clear', 'map')])
    storm(ctx)
    exe = build('h_maps', ['h_maps.cpp'], libs=('interface',))
    lines = []
    for what in ('map', 'reg'):
        progs = ctx.simulate('MapGen', f'MapGen_{what}.cfg', (4000 if ctx.thorough else 260) * (2 if what == 'map' else 1), 12)
        seen = dict.fromkeys(';'.join(','.join(x) or '-' for x in p) for p in progs)
        lines += [f'{what} {3 if ctx.thorough else 2} {60000 if ctx.thorough else 4000} {p}' for p in seen]
    ctx.rng.shuffle(lines)
    parts = [lines[i::8] for i in range(8)]
    hist, runs, cut = [], 0, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for part, (h, n, k, bad) in zip(parts, ex.map(lambda p: explore(exe, p, 1500), parts)):
            if bad is not None:
                ctx.violation(f'operations on a shared map ended the process or never ended ({bad})', program=part[h[-1][0]] if h else part[0], after=h[-1:])
            hist += [(part[i], t) for i, t in h]
            runs += n; cut += k
    ctx.evaluations += runs
    uniq = {}
    for s, t in hist: uniq.setdefault(json.dumps(t), (s, t))
    ctx.distinct = set(uniq)
    items = sorted(uniq.values(), key=lambda x: json.dumps(x))
    ctx.log(f'{runs} executions of {len(lines)} programs ({cut} not exhausted), {len(items)} distinct histories')
    ctx.extra['programs'] = len(lines); ctx.extra['programs_not_exhausted'] = cut
    cap = 150000 if ctx.thorough else 15000
    if len(items) > cap:
        by = {}
        for x in items: by.setdefault(x[0], []).append(x)
        for v in by.values(): ctx.rng.shuffle(v)
        k = 1
        while sum(min(k, len(v)) for v in by.values()) < cap: k += 1
        items = [x for v in by.values() for x in v[:k]]
    ctx.sample({'program': items[0][0], 'history': items[0][1]})
    for o in range(0, len(items), 12000):
        part = items[o:o + 12000]
        rej = ctx.validate('MapTrace', 'MapTrace.cfg', [t for _, t in part], parallel=8)
        if rej:
            i, n = min(rej, key=lambda r: len(part[r[0]][1]))
            s, t = part[i]
            ctx.violation(f'the history has no sequential explanation: event {n + 1}, {json.dumps(t[n])}', program=s, history=t, accepted_prefix=n)
