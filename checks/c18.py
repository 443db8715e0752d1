"""C18: native trace events reach the transport."""
import os, subprocess
from . import transport as T
from vlib.build import build, REPO

def text(script):
    return '\n'.join(' '.join(str(s[k]) for k in ('op', 's', 'k', 'n', 'v', 'g') if k in s) for s in script) + '\n'

def check(ctx):
    ctx.rule = ('histories of up to four threads at a time that start, record bursts of events, overflow their buffers and end (ids are used again), '
                'while the sender is created, attached, slowed, held and replaced; distinct by event sequence')
    ctx.model_check('MCNative', 'Native_ok.cfg')
    ctx.model_check('MCNative', 'Native_live.cfg')
    ctx.model_check('MCNative', 'Native_big.cfg')
    ctx.refute_all('MCNative', [f'Native_bad_{b}.cfg' for b in ('orphans', 'take', 'newest', 'merge', 'keep', 'batch')])
    scripts = ctx.simulate('NativeGen', 'NativeGen.cfg', 6000 if ctx.thorough else 800, 80)
    inc = (f'-I{REPO}/scalopus_tracing/src/native', f'-I{REPO}/scalopus_tracing/src')
    def go(name, san, base, env, part):
        exe = build(name, ['h_native.cpp'], libs=('interface', 'general', 'tracing', 'native'), flags=san + inc, link=san)
        T.campaign(ctx, exe, [text(s) for s in part], 'NativeTrace.cfg', module='NativeTrace', runner=lambda s: T.run(base + [exe] if base else exe, s, env=env))
    n = len(scripts)
    go('h_native', ('-fsanitize=address',), None, {'ASAN_OPTIONS': 'detect_leaks=0'}, scripts[:n * 3 // 4])
    base = ['setarch', '-R'] if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else []
    tsan = ('-fsanitize=thread',)
    exe = build('h_native_tsan', ['h_native.cpp'], libs=('interface', 'general', 'tracing', 'native'), flags=tsan + inc, link=tsan)
    if 'Done' in subprocess.run(base + [exe], input='start 1\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60).stdout:
        # that an endpoint is given its transport while its thread runs is how the library is made
        go('h_native_tsan', tsan, base, {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1 suppressions=' + os.path.join(os.path.dirname(__file__), '..', 'harness', 'tsan_native.supp')}, scripts[n * 3 // 4:])
    else: ctx.extra['thread_sanitizer'] = 'unavailable'
