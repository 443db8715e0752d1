"""C12: the ring buffer under all interleavings and reorderings."""
import json, subprocess, concurrent.futures as cf
from vlib.build import build

WRONG = ('relaxed_publish', 'relaxed_free', 'relaxed_see_publish', 'relaxed_see_free', 'publish_first', 'free_first', 'no_full_check')

def explore(exe, lines, timeout):
    p = subprocess.run([exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    out, n, cut = [], 0, 0
    ok = False
    for l in p.stdout.splitlines():
        a, _, b = l.partition(' ')
        if a == 'done': n, cut = map(int, b.split()); ok = True
        else: out.append((int(a) - 1, json.loads(b)))
    if p.returncode == 3: raise RuntimeError(p.stderr[-500:])
    return out, n, cut, None if ok else p.returncode

def real(ctx):
    """Two real threads under the thread sanitizer: also notices indices that are not atomic any more."""
    exe = build('h_ring_real', ['h_ring_real.cpp'], flags=('-fsanitize=thread',), link=('-fsanitize=thread',), opt='-O1')
    base = ['setarch', '-R'] if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else []
    env = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1', 'PATH': '/usr/bin:/bin'}
    for cap, how in ((2, 'p'), (3, 'b'), (8, 'b'), (64, 'p')):
        try:
            p = subprocess.run(base + [exe, str(cap), '200000' if ctx.thorough else '20000', how], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=200 if ctx.thorough else 40)
        except subprocess.TimeoutExpired:
            ctx.violation('elements pushed by one thread never arrive at the other', cap=cap, pops=how)
        if 'FATAL: ThreadSanitizer' in p.stderr or 'unexpected memory mapping' in p.stderr:
            ctx.notes.append('the thread sanitizer does not run here'); ctx.extra['thread_sanitizer'] = 'unavailable'; return
        if p.returncode == 66:
            ctx.violation('unordered accesses (a data race) between producer and consumer', report=p.stderr[:4000], cap=cap, pops=how)
        if p.returncode != 0:
            ctx.violation(f'two threads: exit code {p.returncode}, {p.stdout.strip()} (elements received, wrong)', cap=cap, pops=how)
        ctx.evaluations += 1

def check(ctx):
    ctx.rule = ('histories of all interleavings (sc) and all release/acquire reorderings (weak) of small producer and consumer programs '
                'run on the real ring buffer; distinct by observed history')
    for c in ('ok', 'three', 'one', 'big') + (('big4',) if ctx.thorough else ()):
        ctx.model_check('RingBuffer', f'RingBuffer_{c}.cfg')
    ctx.refute_all('RingBuffer', [f'RingBuffer_bad_{w}.cfg' for w in WRONG])
    real(ctx)
    exe = build('h_ring', ['h_ring.cpp'], opt='-O2')
    progs, seen = [], set()
    for g in ctx.simulate('RingGen', 'RingGen.cfg', 6000 if ctx.thorough else 1500, 5):
        k = (g['cap'], g['rot'], g['fill'], g['p'], g['c'])
        if k in seen: continue
        seen.add(k)
        progs.append(k)
    sc = progs[:2500 if ctx.thorough else 200]
    # size and emptiness are only promised to be right when they do not race, which weak executions have no notion of
    weak = [(c, r, f, ''.join(x for x in p if x == 'u') or '-', ''.join(x for x in q if x not in 'se') or '-') for c, r, f, p, q in progs]
    weak = [w for w in dict.fromkeys(weak) if w[3] != '-' and w[4] != '-'][:1200 if ctx.thorough else 100]
    lines = [f"sc {c} {r} {f} {p or '-'} {q or '-'} {60000 if ctx.thorough else 6000}" for c, r, f, p, q in sc]
    lines += [f"weak {c} {r} {f} {p} {q} {200000 if ctx.thorough else 10000}" for c, r, f, p, q in weak]
    ctx.rng.shuffle(lines)
    parts = [lines[i::8] for i in range(8)]
    hist, runs, cut = [], 0, 0
    with cf.ThreadPoolExecutor(8) as ex:
        for part, (h, n, k, bad) in zip(parts, ex.map(lambda p: explore(exe, p, 1500), parts)):
            if bad is not None:
                ctx.violation(f'the ring buffer ended the process ({bad})', programs=part, after=h[-1:])
            hist += [(part[i], t) for i, t in h]
            runs += n; cut += k
    ctx.evaluations += runs
    uniq = {}
    for s, t in hist: uniq.setdefault(json.dumps(t), (s, t))
    ctx.distinct = set(range(len(uniq)))
    items = sorted(uniq.values(), key=lambda x: json.dumps(x))
    ctx.log(f'{runs} executions of {len(lines)} programs ({cut} not exhausted), {len(items)} distinct histories')
    ctx.extra['programs'] = len(lines); ctx.extra['programs_not_exhausted'] = cut
    cap = 200000 if ctx.thorough else 12000
    if len(items) > cap:
        by = {}
        for x in items: by.setdefault(x[0], []).append(x)
        for v in by.values(): ctx.rng.shuffle(v)
        k = 1
        while sum(min(k, len(v)) for v in by.values()) < cap: k += 1
        items = [x for v in by.values() for x in v[:k]]
    ctx.sample({'program': items[0][0], 'history': items[0][1]})
    races = [x for x in items if any(e['e'] == 'Race' for e in x[1])]
    if races:
        s, t = min(races, key=lambda x: len(x[1]))
        ctx.violation('unordered accesses to an element (a data race)', program=s, history=t)
    for o in range(0, len(items), 12000):
        part = items[o:o + 12000]
        rej = ctx.validate('RingTrace', 'RingTrace.cfg', [t for _, t in part], parallel=8)
        if rej:
            i, n = min(rej, key=lambda r: len(part[r[0]][1]))
            s, t = part[i]
            ctx.violation(f'the history is not one of a FIFO: event {n + 1}, {json.dumps(t[n])}', program=s, history=t, accepted_prefix=n)
