"""C14: ids of trace macros and their names."""
import os, subprocess, zlib, json
from . import transport as T
from vlib.build import build

L200 = 'n' * 200
NAMES = ['a', 'b', 'ab', 'ba', 'Foo::bar', '', ' ', 'two words', 'n\u00e4me \u2602', 'quote " and \\ back', '%s %d {}', L200 + 'x', L200 + 'y', 'x' + L200, 'y' + L200, 'tab\tnew\nline', '0', '00', 'count', 'Unknown 0x1',
         'f(int, char)', '<T>', 'A', 'aa', 'n\u00e4', 'nC$']
SERIES = ['s', 't', 'x/y', 'count', 'n\u00e4me', 's']
FILES = ['/src/a.cpp', '/src/b.cpp', '/lib/a.cpp', '/src/a.h', '/src/' + 'd/' * 60 + 'a.cpp', '/src/' + 'd/' * 60 + 'b.cpp', 'a.cpp', '/src/a/b.cpp']
LINES = sorted({1, 2, 3, 10, 11, 100, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1000, 1024, 2048, 4096, 4097, 8192, 10000, 32767, 32768, 65535, 65536, 65537, 65792, 70000, 99999, 100000, 131072, 131073,
                196608, 262144, 524288, 1000000, 1048576, 1048577, 2097152})

def lit(s):
    # \u and \x escapes may swallow what follows: octal ones do not
    return '"' + ''.join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else f'\\{c:03o}' for c in s.encode()) + '"'

def program(no, sites):
    """The source of a program with these places; those whose id would collide with another name by the documented checksums are left out."""
    out, table, used = ['#include <scalopus_tracing/trace_macro.h>', '#include "sites.h"', 'namespace {'], [], {}
    for i, s in enumerate(sites):
        n, k = NAMES[s['name'] - 1], s['kind']
        f, line = FILES[s['file'] - 1], LINES[s['line'] - 1]
        ser = {'count': '', 'series': SERIES[s['series'] - 1], 'series2': SERIES[s['series'] - 1]}.get(k)
        full = n if ser is None else f'{n}/{ser}'
        if k == 'pretty': full = f'\0pretty{i}'
        at = lambda d=0: f'#line {line + d} "{f}"'
        crc = zlib.crc32(f.encode())
        ident = (crc + line if k in ('raii', 'pretty') else crc + zlib.crc32(full.encode())) & 0xffffffff
        if used.setdefault(ident, full) != full: continue
        e = f'expect({lit(n)}, {"nullptr" if ser is None else lit(ser)});'
        fn = f's{i}'
        if k == 'raii': body = [f'void {fn}(long v) {{', '(void)v;', e, at(), f'TRACE_SCOPE_RAII({lit(n)});', '}']
        elif k == 'pretty':
            body = [f'struct P{i} {{ template <typename X> static void of(X v) {{', '(void)v;', 'expect(__PRETTY_FUNCTION__, nullptr);', at(), 'TRACE_PRETTY_FUNCTION();', '} };', f'void {fn}(long v) {{ P{i}::of<long>(v); }}']
        elif k == 'pair': body = [f'void {fn}(long v) {{', '(void)v;', e, at(), f'TRACE_SCOPE_START({lit(n)});', at(7), f'TRACE_SCOPE_END({lit(n)});', '}']
        elif k == 'cross': body = [f'void {fn}b() {{', at(300), f'TRACE_SCOPE_END({lit(n)});', '}', f'void {fn}(long v) {{', '(void)v;', e, at(), f'TRACE_SCOPE_START({lit(n)});', f'{fn}b();', '}']
        elif k.startswith('mark'):
            lev = {'g': 'GLOBAL', 'p': 'PROCESS', 't': 'THREAD'}[k[4]]
            body = [f'void {fn}(long v) {{', '(void)v;', e, at(), f'TRACE_MARK_EVENT_{lev}({lit(n)});', '}']
        elif k == 'count': body = [f'void {fn}(long v) {{', e, at(), f'TRACE_COUNT({lit(n)}, v);', '}']
        elif k == 'series': body = [f'void {fn}(long v) {{', e, at(), f'TRACE_COUNT_SERIES({lit(n)}, {lit(ser)}, v);', '}']
        else:   # values of other types
            body = [f'void {fn}(long v) {{', e, 'struct { operator long() const { return x; } long x; } w{ v };', at(), f'TRACE_COUNT_SERIES({lit(n)}, {lit(ser)}, w);', '}']
        out += body
        table.append(f'{{ "{k}", {fn} }}')
    out += ['}', f'static const Site all[] = {{ {", ".join(table)} }};', f'extern const Program program{no};', f'const Program program{no} = {{ all, {len(table)} }};']
    return '\n'.join(out) + '\n'

VALUES = [0, 1, -1, 2**63 - 1, -2**63, 4294967296, 42]

def lines(script):
    out = ['procs 3']
    for s in script:
        op = s['op']
        if op in ('par', 'seq', 'q'): out.append(op)
        elif op in ('direct', 'kill'): out.append(f"{op} {s['p']}")
        elif op == 'link': out.append(f"link {s['p']} {s['i']} {s['m']}")
        elif op == 'unlink': out.append(f"unlink {s['p']} {s['i']}")
        elif op == 'x': out.append(f"p {s['p']} x {s['k']} {s['s']} {VALUES[s['v'] - 1]}")
        elif op == 'race': out.append(f"p {s['p']} race {s['s']}")
        elif op == 'unhold': out.append(f"p {s['p']} unhold")
    return '\n'.join(out) + '\n'

def check(ctx):
    ctx.rule = ('generated sources with trace macros of all kinds (names, files and lines that differ in one character or a power of two), executed by threads of three processes one at a time, in parallel and '
                'with one thread held in the middle of announcing a name; processes that answer, fail in six ways, stay silent or were killed; distinct by event sequence')
    ctx.model_check('Mapping', 'Mapping_big.cfg' if ctx.thorough else 'Mapping_ok.cfg', timeout=1500)
    ctx.refute_all('Mapping', [f'Mapping_bad_{b}.cfg' for b in ('flag_first', 'global', 'abort', 'wipe', 'any')])
    gen = ctx.dir('gen')
    rounds = 12 if ctx.thorough else 2
    progs = ctx.simulate('SiteGen', 'SiteGen.cfg', 2 * rounds, 150)
    scripts = ctx.simulate('MappingGen', 'MappingGen.cfg', 9000 if ctx.thorough else 600, 70)
    for r in range(rounds):
        srcs = []
        for no in (1, 2):
            path = os.path.join(gen, f'program{no}_{r}.cpp')
            with open(path, 'w') as f: f.write(program(no, progs[2 * r + no - 1]))
            srcs.append(path)
        exe = build('h_mapping', ['h_mapping.cpp'], libs=('interface', 'general', 'tracing'), extra_sources=tuple(srcs))
        T.campaign(ctx, exe, [lines(s) for s in scripts[r::rounds]], 'MappingTrace.cfg', module='MappingTrace')
        if ctx.left() < 0: break
    slash(ctx, exe)

def slash(ctx, exe):
    """A counter whose name contains the separator: recorded as a finding."""
    h = lambda s: 'x' + s.encode().hex()
    out = subprocess.run([exe], input=f"split {h('km/h/')}\n", stdout=subprocess.PIPE, text=True, timeout=30).stdout.split()
    got = tuple(bytes.fromhex(x[1:]).decode(errors='replace') for x in out)
    if got == ('km/h', 'count'): return
    if got == ('km', 'h/') and ctx.known_finding('slash-in-counter-name', 'TRACE_COUNT("km/h", v) is shown as counter "km" with series "h/"'): return
    ctx.violation(f'TRACE_COUNT("km/h", v) is shown as {got}')
