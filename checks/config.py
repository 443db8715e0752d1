"""Replays programs of TraceConfigGen on the native and the LTTng back-end."""
from vlib.build import build

def lines(script):
    out = []
    b = lambda x: '1' if x else '0'
    for s in script:
        op = s['op']
        if op == 'tp': out.append(f"tp {s['k']} {s['kind']}")
        elif op in ('set', 'push'): out.append(f"{op} {s['k']} {b(s['p'])} {b(s['v'])}")
        elif op == 'get': out.append(f"get {s['k']} {b(s['p'])}")
        elif op in ('start', 'pop', 'throw', 'exit'): out.append(f"{op} {s['k']}")
        elif op == 'rget': out.append(f"rget {s['r']}")
        elif op == 'rset':
            l = [(k, 1) for k in sorted(s['on'])] + [(k, 0) for k in sorted(s['off'])]
            out.append(f"rset {s['r']} {b(s['sp'])} {b(s['v'])} {len(l)} " + ' '.join(f'{k} {v}' for k, v in l))
        else: out.append(op)
    return '\n'.join(out) + '\n'

def harness(backend):
    if backend == 'native':
        return build('h_config_native', ['h_config.cpp'], libs=('interface', 'general', 'tracing', 'native'), flags=('-DNATIVE',))
    return build('h_config_lttng', ['h_config.cpp'], libs=('interface', 'general', 'tracing', 'lttng-tp'), link=('-llttng-ust',))

def storm(ctx):
    """Under the thread sanitizer: unsynchronised access to the registry of threads."""
    import subprocess
    exe = build('h_config_storm', ['h_config_storm.cpp'], libs=('interface', 'general', 'tracing', 'nop'), flags=('-fsanitize=thread',), link=('-fsanitize=thread',))
    base = ['setarch', '-R'] if subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0 else []
    env = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1', 'PATH': '/usr/bin:/bin'}
    p = subprocess.run(base + [exe, '2000' if ctx.thorough else '200'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=150)
    if 'FATAL: ThreadSanitizer' in p.stderr or 'unexpected memory mapping' in p.stderr:
        ctx.extra['thread_sanitizer'] = 'unavailable'; return
    if p.returncode == 66: ctx.violation('unordered accesses (a data race) to the trace configuration', report=p.stderr[:4000])
    if p.returncode != 0: ctx.violation(f'threads come and go under remote configuration: exit code {p.returncode}, {p.stdout.strip()} (commands, failed ones, threads left over)')
    ctx.extra['remote_commands_under_thread_sanitizer'] = int(p.stdout.split()[0])
