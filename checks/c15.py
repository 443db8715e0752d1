"""C15: lines of babeltrace."""
import json
from . import transport as T
from vlib.build import build

ODD = ['', '\n', '[', ']', '][', '[]', '[1', '[1]', '[1] ', '[1] a', '[1] a ', '[1] a b', '[1] a b:', '[1] a b:c', '[1] a b: ', '[1]  :  ', '[1] a b: {', '[1] a b: {}', '[1] a b: {}, {}, {}', '[1] a b:c: {}{}{}',
       '[1] a b:c: { 12345 }, { }, { }', '[1] a b:c: { = }, { , }, { , , , }', '[1e999] a b:c: { }, { }, { }', '[nan] a b:c: { }, { }, { }', '[1] a b:c: { x = 99999999999999999999999 }, { }, { }',
       '[1] a b:c: {  }, {   }, { a = 1 }', '[1] a b:c: { a = 1', '[1] a b:c: { a = "', '[1] a b:c: { a = "\\', '{ }, { }, { }', '[1] a b:c: }, }, }', 'error: no such file', '[warning] Tracer discarded 12 events at [16:45:30.1]',
       '\x00\x00[\x00]', '[1] a b:c: { a = 1, , b = 2 }, {, }, { b}', '[1] ::: { :: = 1 }, { a = 1, a = 2 }, { \xff = 3 }', ' ' * 50, '[' * 50, '{' * 50, '[1] \n \n \n']

def check(ctx):
    ctx.rule = ('lines made of events with up to nine fields of all kinds in three contexts, whole, cut at every character, damaged at random, and fixed arbitrary texts; each also parsed on four threads at once; '
                'distinct by what was read')
    ctx.model_check('CtfLine', 'CtfLine_big.cfg' if ctx.thorough else 'CtfLine_ok.cfg', timeout=1500)
    ctx.model_check('CtfLine', 'CtfLine_subst.cfg')
    ctx.refute_all('CtfLine', [f'CtfLine_bad_{b}.cfg' for b in ('unquoted', 'prefix', 'short', 'nocheck')])
    san = ('-fsanitize=address,undefined', '-fno-sanitize-recover=all')
    exe = build('h_ctf', ['h_ctf.cpp'], libs=('interface', 'general', 'tracing', 'lttng', 'nop'), flags=san, link=san, opt='-O1')
    scripts = ctx.simulate('CtfGen', 'CtfGen.cfg', 12000 if ctx.thorough else 700, 120)
    hx = lambda s: s.replace('~', '\u00e9').encode('latin1' if ctx.rng.random() < .3 else 'utf8').hex() or '0'
    scens = [{'a': [x['a'] for x in s], 'text': '\n'.join([f'seed {ctx.rng.randrange(1 << 30)}'] + [f"ev {x['a']['ts'].encode().hex()} {x['hex']}" for x in s]
              + ([f'odd {o.encode("latin1").hex()}' for o in ODD] if i < 8 else [])) + '\n'}
             for i, s in enumerate([dict(x, hex=hx(x['line'])) for x in s] for s in scripts)]
    def tilde(v):
        if isinstance(v, str): return v.replace('\u00c3\u00a9', '~').replace('\u00e9', '~')
        if isinstance(v, list): return [tilde(x) for x in v]
        if isinstance(v, dict): return {k: tilde(x) for k, x in v.items()}
        return v
    def runner(s):
        r = T.run(exe, s['text'])
        return [{'e': 'Script', 'a': s['a']}] + tilde(r)
    T.campaign(ctx, exe, scens, 'CtfTrace.cfg', module='CtfTrace', runner=runner, describe=lambda s: s['text'].splitlines(),
               key=lambda t: json.dumps([[e.get(k) for k in ('e', 't', 'dom', 'name', 'c')] for e in t]))
    ctx.extra['lines'] = sum(len(s['a']) for s in scens)
