"""C17: lines of babeltrace to the callbacks."""
import json, subprocess
from . import transport as T
from vlib.build import build

def text(script, rng, mode):
    out, complete, part, serial = [mode], 0, b'', 0
    last = b'the same line'
    def write(data):
        nonlocal complete, part
        complete += data.count(b'\n')
        part = (part + data).rpartition(b'\n')[2]
        out.append(f'w {complete} x{data.hex()}')
    for s in script:
        op = s['op']
        if op == 'stream':
            complete, part = 0, b''
            out.append(f"stream {s['a'] if mode == 'tool' and False else ''}".strip())
        elif op == 'lines':
            data = b''
            for _ in range(s['n']):
                serial += 1
                k = s['kind']
                l = (f'[15443616{serial:02d}.739021131] eagle scalopus_scope_id:exit: {{ cpu_id = 2 }}, {{ vpid = 1, pthread_id = {serial} }}, {{ id = 4 }}').encode()
                if k == 'long': l = l + b' ' * rng.choice([900, 1023, 1024, 4000, 4095, 4096, 4097, 9000])
                elif k == 'empty': l = b''
                elif k == 'same': l = last
                elif k == 'odd': l = rng.choice([b'\xff\x00\x01 %d', b'\r', b'[', b' {', b'\x00%d']).replace(b'%d', str(serial).encode())
                last = l
                data += l + b'\n'
            how = s['how']
            if how == 'joined': write(data)
            elif how == 'whole':
                for l in data.split(b'\n')[:-1]: write(l + b'\n')
            elif how == 'split' or how == 'part':
                cuts = sorted(rng.randrange(1, len(data)) for _ in range(rng.randrange(1, 5))) if len(data) > 1 else []
                for a, b in zip([0] + cuts, cuts + [len(data)]):
                    if a < b:
                        write(data[a:b])
                        if rng.random() < .3: out.append(f'nap {rng.choice([50, 500, 12000])}')
                if how == 'part': write(b'[incomplete %d' % serial)
            else:
                for i in range(max(0, len(data) - 150), len(data)): write(data[i:i + 1]) if i > max(0, len(data) - 150) else write(data[:i + 1])
        elif op == 'set': out.append(f"set {s['c']} {s['n']} {s.get('k', 0)}")
        elif op in ('dis', 'again'): out.append(f"{op} {s['c']}")
        elif op == 'nap': out.append(f"nap {s['n']}")
        elif op == 'eof': out.append(f'eof {1 if part else 0}')
        else: out.append(op)
    return '\n'.join(out) + '\n'

def check(ctx):
    ctx.rule = ('histories of output written in pieces of one byte to many lines, with three clients that add and disable (slow) callbacks at the same time, ends, halts and restarts, '
                'with the parser on a pipe and with the tool that runs babeltrace; distinct by event sequence')
    ctx.model_check('MCStream', 'Stream_ok.cfg')
    if ctx.thorough: ctx.model_check('MCStream', 'Stream_big.cfg', timeout=1500)
    ctx.refute_all('MCStream', [f'Stream_bad_{b}.cfg' for b in ('nowait', 'snapshot', 'buffered', 'eof', 'deaf')])
    scripts = ctx.simulate('StreamGen', 'StreamGen.cfg', 6000 if ctx.thorough else 900, 80)
    libs = ('interface', 'general', 'tracing', 'lttng', 'nop')
    def go(name, san, base, env, scens):
        exe = build(name, ['h_stream.cpp'], libs=libs, flags=san, link=san)
        T.campaign(ctx, exe, scens, 'StreamTrace.cfg', module='StreamTrace', runner=lambda s: T.run(base + [exe] if base else exe, s, env=env))
    n = len(scripts)
    asan = ('-fsanitize=address',)
    go('h_stream', asan, None, {'ASAN_OPTIONS': 'detect_leaks=0'}, [text(s, ctx.rng, 'parser') for s in scripts[:n // 2]])
    go('h_stream', asan, None, {'ASAN_OPTIONS': 'detect_leaks=0'}, [text(s, ctx.rng, 'tool') for s in scripts[n // 2:3 * n // 4]])
    base = ['setarch', '-R'] if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else []
    tsan = ('-fsanitize=thread',)
    exe = build('h_stream_tsan', ['h_stream.cpp'], libs=libs, flags=tsan, link=tsan)
    if 'Done' in subprocess.run(base + [exe], input='parser\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60).stdout:
        go('h_stream_tsan', tsan, base, {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1'}, [text(s, ctx.rng, 'parser') for s in scripts[3 * n // 4:]])
    else: ctx.extra['thread_sanitizer'] = 'unavailable'
