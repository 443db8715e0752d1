"""C19: entries of native events."""
import json, os, subprocess
from . import transport as T
from .entries import Setup, SERIES, VALUES, TIDS, hx
from vlib.build import build, REPO

TYPES = {'entry': 1, 'exit': 2, 'global': 3, 'process': 4, 'thread': 5, 'count': 6}
def head(major, n):
    if n < 24: return bytes([major << 5 | n])
    for k, b in ((24, 1), (25, 2), (26, 4), (27, 8)):
        if n < 1 << 8 * b: return bytes([major << 5 | k]) + n.to_bytes(b, 'big')
def enc(v):
    """CBOR"""
    if isinstance(v, int): return head(0, v) if v >= 0 else head(1, -1 - v)
    if isinstance(v, bytes): return head(2, len(v)) + v
    if isinstance(v, str): return head(3, len(v.encode())) + v.encode()
    if isinstance(v, list): return head(4, len(v)) + b''.join(map(enc, v))
    return head(5, len(v)) + b''.join(enc(k) + enc(x) for k, x in v.items())

def threads(evs, st):
    out = {}
    for e in sorted(evs, key=lambda e: int(TIDS[e['tid'] - 1])):
        x = [st.ns[e['t']], st.ids[e['id']], TYPES[e['k']]]
        if e['k'] == 'count': x.append(enc(int(VALUES[e['v'] - 1])))
        out.setdefault(int(TIDS[e['tid'] - 1]), []).append(x)
    return out
def bad(s, st, rng):
    k, ev = s['k'], threads(s['evs'], st)
    raw = lambda b: 'raw %d ' + 'x' + b.hex()
    tid = next(iter(ev))
    if k == 'cut': return f"cut %d {s['p']} x{enc(ev).hex()} {rng.randrange(999)}"
    if k == 'empty': return raw(b'')
    if k == 'random': return raw(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 40))))
    if k == 'deep': return raw(b'\xa2' + enc('events') + rng.choice([b'\x81', b'\xa1\x01', b'\xc1']) * 5000)
    if k == 'long': return raw(b'\xa2' + rng.choice([b'', enc('events')]) + bytes([rng.choice([0x9b, 0xbb, 0x5b, 0x7b])]) + b'\x00\xff' * 4)
    if k == 'nopid': return raw(enc({'events': ev}))
    if k == 'noevents': return raw(enc({'pid': 4194999}))
    if k == 'badpid': return raw(enc({'events': ev, 'pid': 'x'}))
    if k == 'text': return f"chunk %d {s['p']} x{enc('text').hex()}"
    if k == 'badevents': e = [list(x) for x in ev.values()]
    if k == 'short': e = {tid: [[1, 2]]}
    if k == 'badtime': e = {tid: [['now', 2, 1]]}
    if k == 'type': e = {tid: [[st.ns[0], st.ids[1], rng.choice([0, 7, 255])]]}
    if k == 'novalue': e = {tid: [[st.ns[0], st.ids[3], TYPES['count']]]}
    return f"chunk %d {s['p']} x{enc(e).hex()}"

def scenario(script, rng):
    st = Setup(rng)
    evs, out = [], st.preamble()
    for s in script:
        w = 'wait ' if s.get('w') else ''
        if s['op'] == 'ev':
            evs.append([st.event(dict(e, p=s['p'])) for e in sorted(s['evs'], key=lambda e: int(TIDS[e['tid'] - 1]))])
            out.append(f"chunk {len(evs)} {s['p']} x{enc(threads(s['evs'], st)).hex()}")
        elif s['op'] == 'bad':
            evs.append([])
            out.append(w + bad(s, st, rng) % len(evs))
        else: out.append(f"{w}{s['op']} {s['s']} {s.get('m', '')}".strip())
    return {'sc': {'evs': evs, 'names': st.table(), 'series': hx(SERIES)}, 'text': '\n'.join(out) + '\n'}

def check(ctx):
    ctx.rule = ('messages of up to eight events of four threads of up to four processes in any order of time, and undecodable ones, fed while three sources start, stop and finish their intervals, '
                'processes lose their connection and the provider disappears; distinct by events and entries')
    ctx.model_check('Convert', 'Convert_big.cfg' if ctx.thorough else 'Convert_ok.cfg', timeout=1500)
    ctx.model_check('NativeSource', 'NativeSource_big.cfg' if ctx.thorough else 'NativeSource_ok.cfg', timeout=1500)
    ctx.refute_all('NativeSource', [f'NativeSource_bad_{b}.cfg' for b in ('first', 'nocheck', 'noclear', 'allstop', 'nostop', 'keep')])
    inc = (f'-I{REPO}/scalopus_tracing/src/native', f'-I{REPO}/scalopus_tracing/src')
    scripts = ctx.simulate('NativeSourceGen', 'NativeSourceGen.cfg', 8000 if ctx.thorough else 800, 90)
    scens = [scenario(s, ctx.rng) for s in scripts]
    def go(name, san, base, env, part):
        exe = build(name, ['h_native_source.cpp'], libs=('interface', 'general', 'tracing', 'native'), flags=san + inc, link=san)
        T.campaign(ctx, exe, part, 'NativeSourceTrace.cfg', module='NativeSourceTrace',
                   runner=lambda s: [{'e': 'Script', 'sc': s['sc']}] + T.run(base + [exe] if base else exe, s['text'], env=env), describe=lambda s: s['text'].splitlines(), key=json.dumps)
    n = len(scens)
    go('h_native_source', ('-fsanitize=address,undefined', '-fno-sanitize-recover=all'), None, {'ASAN_OPTIONS': 'detect_leaks=0'}, scens[:n * 3 // 4])
    base = ['setarch', '-R'] if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else []
    tsan = ('-fsanitize=thread',)
    exe = build('h_native_source_tsan', ['h_native_source.cpp'], libs=('interface', 'general', 'tracing', 'native'), flags=tsan + inc, link=tsan)
    if 'Done' in subprocess.run(base + [exe], input='procs 0\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60).stdout:
        go('h_native_source_tsan', tsan, base, {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1'}, scens[n * 3 // 4:])
    else: ctx.extra['thread_sanitizer'] = 'unavailable'
