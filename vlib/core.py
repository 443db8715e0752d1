"""The frame every check runs in: tiers, seeds, evidence, verdicts."""
import importlib, json, os, random, shutil, subprocess, sys, time, traceback
from .build import VERIF, BuildError
from .tlc import ModelError
from . import tlc

KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.md')

class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random(f'{pid}/{seed}')
        self.work = os.path.join(VERIF, '.work', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.budget = float(os.environ.get('VERIF_BUDGET', 3000 if self.thorough else 600))
        self.states = self.transitions = self.traces = self.events = 0
        self.evaluations = 0
        self.distinct = set()
        self.models, self.samples, self.notes = [], [], []
        self.extra = {}
        self.assumptions = []
        self.findings = []
        self.level = 'model_checking'
        self.n = 0

    def left(self):
        return self.budget - (time.time() - self.t0)

    def log(self, *a):
        print(f'[{self.pid} {time.time()-self.t0:6.1f}s]', *a, flush=True)

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    # -- specification ------------------------------------------------------------------------------------------------
    def model_check(self, module, cfg, **kw):
        s = tlc.model_check(module, cfg, self.dir('mc_' + cfg.replace('.cfg', '')), **kw)
        self.states += s['distinct']; self.transitions += s['generated']
        self.models.append(s)
        self.log(f"model {module}/{cfg}: {s['distinct']} states, {s['generated']} transitions, depth {s['depth']}")
        return s

    def model_refutes(self, module, cfg, **kw):
        """The same design with a known mistake planted in it: TLC has to refute it, or the property is vacuous."""
        s = tlc.model_check(module, cfg, self.dir('mr_' + cfg.replace('.cfg', '')), expect_ok=False, **kw)
        if s['ok'] or not s['violated']:
            raise ModelError(f'{module}/{cfg}: the mistaken design was not refuted')
        self.extra.setdefault('mistaken_designs_refuted', []).append(cfg)
        self.log(f'model {module}/{cfg}: mistaken design refuted')

    def refute_all(self, module, cfgs, **kw):
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(6) as ex:
            list(ex.map(lambda c: self.model_refutes(module, c, **kw), cfgs))

    def simulate(self, module, cfg, num, depth, seed=None, **kw):
        self.n += 1
        r = tlc.simulate(module, cfg, self.dir(f'sim{self.n}'), num, depth, self.seed if seed is None else seed, **kw)
        return r

    def generate(self, module, cfg, **kw):
        self.n += 1
        r, s = tlc.generate(module, cfg, self.dir(f'gen{self.n}'), **kw)
        self.states += s['distinct']; self.transitions += s['generated']
        return r

    def validate(self, module, cfg, traces, count=True, **kw):
        self.n += 1
        rej, s = tlc.validate(module, cfg, traces, self.dir(f'val{self.n}'), **kw)
        if count:
            self.traces += len(traces)
            self.events += sum(len(t) for t in traces)
            self.extra['trace_spec_states'] = self.extra.get('trace_spec_states', 0) + s['distinct']
        return rej

    # -- verdict --------------------------------------------------------------------------------------------------------
    def violation(self, what, **replay):
        p = os.path.join(VERIF, 'evidence', f'{self.pid}.replay.json')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            json.dump(dict(property=self.pid, what=what, seed=self.seed, tier=self.tier, **replay), f, indent=1, default=str)
        raise Violation(what, p)

    def known_finding(self, key, text):
        """Only findings listed in KNOWN_FINDINGS.md are suppressed."""
        with open(KNOWN) as f:
            if f'KNOWN: property={self.pid} key={key} ' in f.read():
                print(f'KNOWN-FINDING: property={self.pid} {text}', flush=True)
                self.findings.append(key)
                return True
        return False

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def evidence(self, violations):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   trace_events=self.events, evaluations=self.evaluations, distinct_nontrivial=len(self.distinct),
                   models=[{k: m[k] for k in ('module', 'config', 'distinct', 'generated', 'depth')} for m in self.models],
                   samples=self.samples, rule=self.rule if hasattr(self, 'rule') else '')
        cov.update(self.extra)
        if self.findings:
            cov['known_findings'] = self.findings
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)

def main(argv):
    pid = argv[1]
    if pid == '--version':
        print('scalopus checks')
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    if '--quick' in argv: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        mod = importlib.import_module(f'checks.{pid.lower()}')
        mod.check(ctx)
        ctx.evidence(0)
        ctx.log(f'holds: {ctx.states} model states, {ctx.traces} traces of the implementation validated')
        rc = 0
    except Violation as v:
        ctx.evidence(1)
        ctx.log('violated:', v.what)
        print(f'VIOLATION property={pid} replay={v.replay}', flush=True)
        rc = 1
    except BuildError as e:
        print('BUILD ERROR', str(e)[-5000:], flush=True)
    except ModelError as e:
        print('MODEL ERROR', str(e)[-8000:], flush=True)
    except Exception:
        traceback.print_exc()
    finally:
        if rc == 0 and not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(ctx.work, ignore_errors=True)
    return rc
