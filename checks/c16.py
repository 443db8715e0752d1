"""C16: entries of LTTng events."""
import json
from . import transport as T
from .entries import Setup, SERIES, hx
from vlib.build import build

def scenario(script, rng):
    st = Setup(rng)
    evs, out = [], st.preamble()
    for s in script:
        if s['op'] == 'ev':
            evs.append([st.event(s)])
            out.append(f'line {len(evs)} {hx(st.line(s))}')
        else: out.append(f"{s['op']} {s['s']} {s.get('m', '')}".strip())
    return {'sc': {'evs': evs, 'names': st.table(), 'series': hx(SERIES)}, 'text': '\n'.join(out) + '\n'}

def check(ctx):
    ctx.rule = ('sequences of up to 60 events of up to four processes in any order of time, with coinciding times, mixed counters and defective events, recorded by three sources with their own intervals, '
                'while processes lose their connection; distinct by events and entries')
    ctx.model_check('Convert', 'Convert_big.cfg' if ctx.thorough else 'Convert_ok.cfg', timeout=1500)
    ctx.refute_all('Convert', [f'Convert_bad_{b}.cfg' for b in ('mixed', 'abort', 'early', 'unstable', 'unsorted', 'nopast', 'nofuture')])
    san = ('-fsanitize=address',)
    exe = build('h_lttng', ['h_lttng.cpp'], libs=('interface', 'general', 'tracing', 'lttng', 'nop'), flags=san, link=san)
    scripts = ctx.simulate('LttngGen', 'LttngGen.cfg', 8000 if ctx.thorough else 800, 90)
    T.campaign(ctx, exe, [scenario(s, ctx.rng) for s in scripts], 'SourceTrace.cfg', module='SourceTrace',
               runner=lambda s: [{'e': 'Script', 'sc': s['sc']}] + T.run(exe, s['text']), describe=lambda s: s['text'].splitlines(), key=json.dumps)
