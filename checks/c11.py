"""C11: remote trace configuration."""
from . import transport as T
from . import config

def check(ctx):
    ctx.rule = ('programs of up to three threads (with reused ids) and two remote clients that set and get states, one at a time and in parallel, '
                'on the native and the LTTng back-end; distinct by event sequence')
    ctx.model_check('TraceConfig', 'TraceConfig_big.cfg' if ctx.thorough else 'TraceConfig_ok.cfg')
    ctx.refute_all('TraceConfig', [f'TraceConfig_bad_{b}.cfg' for b in ('always_p', 'creates', 'early_reply')])
    config.storm(ctx)
    scripts = ctx.simulate('TraceConfigGen', 'TraceConfigGen_C11.cfg', 12000 if ctx.thorough else 1600, 60)
    for i, be in enumerate(('native', 'lttng')):
        exe = config.harness(be)
        T.campaign(ctx, exe, [config.lines(s) for s in scripts[i::2]], 'TraceConfigTrace.cfg', module='TraceConfigTrace')
