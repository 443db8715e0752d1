"""Running TLC: exhaustive model checking, simulation (behaviour generation) and trace validation."""
import json, os, re, shutil, subprocess, tempfile, concurrent.futures as cf
from .build import VERIF

SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ModelError(Exception):
    """The specification itself failed: an error of the check, never a violation."""

def _prep(workdir):
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(('.tla', '.cfg')):
            shutil.copy(os.path.join(SPEC, f), workdir)

def run(module, cfg, workdir, args=(), workers='auto', timeout=800, mem='4g', props=(), keep=False):
    _prep(workdir)
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{mem}', '-Xss64m'] + list(props) + ['-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', meta, '-workers', str(workers), '-config', cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise ModelError(f'TLC timed out after {timeout}s: {module} {cfg}')
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout

def stats(out):
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    if not m:
        return dict(generated=0, distinct=0)
    g, d = m[-1]
    return dict(generated=int(g.replace(',', '')), distinct=int(d.replace(',', '')))

def model_check(module, cfg, workdir, timeout=600, mem='8g', args=(), expect_ok=True):
    """Exhaustive check of a design specification. Returns statistics; raises ModelError if it isn't satisfied."""
    rc, out = run(module, cfg, workdir, timeout=timeout, mem=mem, args=args)
    ok = rc == 0 and 'No error has been found' in out
    if expect_ok and not ok:
        raise ModelError(f'{module}/{cfg}: TLC rc={rc}\n' + out[-6000:])
    s = stats(out)
    s['module'], s['config'], s['ok'] = module, cfg, ok
    s['violated'] = bool(re.search(r'(is|was|were) violated|Action property .* is violated', out))
    m = re.search(r'depth of the complete state graph search is (\d+)', out)
    s['depth'] = int(m.group(1)) if m else 0
    return s

def simulate(module, cfg, workdir, num, depth, seed, timeout=300, marker='@@'):
    """Random behaviours of a specification; every printed line that starts with the marker holds a JSON value."""
    rc, out = run(module, cfg, workdir, workers=1, timeout=timeout,
                  args=['-simulate', f'num={num}', '-depth', str(depth), '-seed', str(seed), '-deadlock'])
    res = parse_marked(out, marker)
    if not res:
        raise ModelError(f'{module}/{cfg}: no behaviours generated, rc={rc}\n' + out[-6000:])
    return res

def parse_marked(out, marker='@@'):
    res = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"' + marker) and l.endswith('"'):
            s = json.loads(l)   # TLC prints a quoted string with escapes that JSON shares
            res.append(json.loads(s[len(marker):]))
    return res

def generate(module, cfg, workdir, timeout=600, marker='@@', mem='8g', workers=1):
    """Exhaustive enumeration where the model prints each case with the marker."""
    rc, out = run(module, cfg, workdir, workers=workers, timeout=timeout, mem=mem)
    if 'No error has been found' not in out:
        raise ModelError(f'{module}/{cfg}: rc={rc}\n' + out[-6000:])
    return parse_marked(out, marker), stats(out)

def validate(module, cfg, traces, workdir, timeout=600, parallel=6, mem='3g', dfs=True, min_chunk=8):
    """Check that every trace (a list of event records) is a behaviour of the trace specification.

    The trace specification reads traces.json, takes the number of the trace as part of its initial state, and its
    POSTCONDITION prints <<"ACC", trace, longest prefix>> for each trace. Returns (list of rejected (index, prefix), stats).
    """
    n = len(traces)
    if n == 0:
        return [], dict(generated=0, distinct=0)
    parallel = max(1, min(parallel, (n + min_chunk - 1) // min_chunk))
    chunks = [list(range(i, n, parallel)) for i in range(parallel)]
    def one(ci):
        idx = chunks[ci]
        wd = os.path.join(workdir, f'v{ci}')
        os.makedirs(wd, exist_ok=True)
        with open(os.path.join(wd, 'traces.json'), 'w') as f:
            json.dump([traces[i] for i in idx], f)
        props = ['-Dtlc2.tool.queue.IStateQueue=StateDeque'] if dfs else []
        rc, out = run(module, cfg, wd, workers=1, timeout=timeout, mem=mem, props=props)
        acc = {int(a): int(b) for a, b in re.findall(r'<<\s*"ACC",\s*(\d+),\s*(\d+)\s*>>', out)}
        if len(acc) != len(idx):
            raise ModelError(f'{module}/{cfg}: validation gave no result, rc={rc}\n' + out[-6000:])
        rej = []
        for k, i in enumerate(idx):
            if acc[k + 1] < len(traces[i]):
                rej.append((i, acc[k + 1]))
        return rej, stats(out)
    rejected, tot = [], dict(generated=0, distinct=0)
    with cf.ThreadPoolExecutor(parallel) as ex:
        for rej, st in ex.map(one, range(parallel)):
            rejected += rej
            tot['generated'] += st['generated']; tot['distinct'] += st['distinct']
    return sorted(rejected), tot
