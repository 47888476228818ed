"""Search driver: runs each facet of a property over generated cases, shrinks
any failure to a minimal case, writes replay and evidence files."""
import argparse
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

FAST = bool(os.environ.get('VERIF_FAST'))   # tools/mutate.py: first failure is enough
SHRINK_SECONDS = 0 if FAST else 20
CASE_SECONDS = 20


class Violation(Exception):
    """The property does not hold on this case"""


class CaseTimeout(Exception):
    """A case did not end within its time"""


class Stop(KeyboardInterrupt):
    """Ends a Hypothesis run early (passes through its exception handling)"""


class Ctx(object):
    """Collects what one case did"""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False
        self.info = {}

    def label(self, name):
        self.labels.add(name)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def fail(self, message):
        raise Violation(message)

    def check(self, cond, message, *args):
        if not cond:
            raise Violation(message % args if args else message)

    def raises(self, types, func, what):
        """func must raise one of types; returns the error"""
        try:
            out = func()
        except types as err:
            return err
        raise Violation('%s: no error, got %s' % (what, repr(out)[:200]))


class Facet(object):
    """One executable check of a property

    strategy: callable returning a Hypothesis strategy of plain-data cases, or
    cases: callable(tier) returning the full list of cases to run (enumeration).
    check(case, ctx) raises Violation (or any error) if the case breaks it.
    """

    def __init__(self, name, check, strategy=None, cases=None, quick=800,
                 shards=2, thorough=20, weight=1.0):
        self.name = name
        self.check = check
        self.strategy = strategy
        self.cases = cases
        self.quick = quick
        self.shards = shards
        self.thorough = thorough
        self.weight = weight


def facet(name, **kwargs):
    """Decorator: registers the function's module-level FACETS entry"""
    def deco(func):
        func.__globals__.setdefault('FACETS', []).append(
            Facet(name, func, **kwargs))
        return func
    return deco


def derive_seed(*parts):
    text = '|'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')


def _alarm(signum, frame):
    raise CaseTimeout('no answer within the time for one case')


def execute(fct, case, seconds=CASE_SECONDS):
    """Run one case; returns (ctx, error text or None)"""
    from . import isolate
    from .model import Unclaimed
    ctx = Ctx()
    isolate.reset()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        fct.check(case, ctx)
        return ctx, None
    except Violation as err:
        return ctx, str(err)
    except Unclaimed:
        ctx.label('unclaimed')
        ctx.is_nontrivial = False
        return ctx, None
    except CaseTimeout as err:
        return ctx, 'timeout: ' + str(err)
    except MemoryError:
        raise
    except Exception as err:                                    # pylint: disable=broad-except
        tail = traceback.extract_tb(err.__traceback__)
        where = ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.lineno)
                            for f in reversed(tail[-4:]))
        return ctx, 'unexpected %s: %s (%s)' % (
            type(err).__name__, str(err)[:300], where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        isolate.reset()


class Stats(object):

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.stopped_early = False
        self.known = {}

    def add(self, case, ctx):
        self.evaluations += 1
        for lab in ctx.labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if ctx.is_nontrivial:
            text = repr(case)
            digest = hashlib.md5(text.encode('utf-8', 'replace')).digest()[:8]
            if digest not in self.nontrivial:
                self.nontrivial.add(digest)
                count = len(self.nontrivial)
                if count in (2, 17, 101) or not self.samples:
                    self.samples.append(text if len(text) < 700
                                        else text[:680] + '...')


def run_search(fct, seed, count, budget):
    """Generate up to count cases; returns (stats, failure or None)"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    stats = Stats()
    state = {'best': None, 'first': None, 'n_fail': 0}
    start = time.time()

    @hypothesis.seed(seed)
    @settings(max_examples=count, database=None, deadline=None,
              phases=[Phase.generate, Phase.shrink], print_blob=False,
              suppress_health_check=list(HealthCheck),
              report_multiple_bugs=False)
    @hypothesis.given(fct.strategy())
    def test(case):
        now = time.time()
        if state['first'] is None:
            if now - start > budget:
                stats.stopped_early = True
                raise Stop()
        elif now - state['first'] > SHRINK_SECONDS:
            raise Stop()
        ctx, error = execute(fct, case)
        if state['first'] is None:
            stats.add(case, ctx)
        if error is not None:
            if state['first'] is None:
                state['first'] = time.time()
            state['n_fail'] += 1
            size = len(repr(case))
            if state['best'] is None or size <= state['best'][0]:
                state['best'] = (size, case, error)
            raise Violation('case fails')

    try:
        test()
    except Stop:
        pass
    except Exception as err:                                    # pylint: disable=broad-except
        if state['best'] is None:
            raise
        del err
    if state['best'] is None:
        return stats, None
    return stats, (state['best'][1], state['best'][2])


def run_cases(fct, cases, shard, shards, budget):
    """Run an enumerated facet's share of its cases"""
    stats = Stats()
    start = time.time()
    for i, case in enumerate(cases):
        if i % shards != shard:
            continue
        if time.time() - start > budget:
            stats.stopped_early = True
            break
        ctx, error = execute(fct, case)
        stats.add(case, ctx)
        if error is not None:
            return stats, (case, error)
    return stats, None


def run_job(module, fct, seed, tier, shard, shards):
    """One facet shard; returns a JSON-compatible result"""
    from . import values
    budget = 45 if tier == 'quick' else 1500
    began = time.time()
    if fct.cases is not None:
        stats, failure = run_cases(fct, fct.cases(tier), shard, shards, budget)
    else:
        count = fct.quick if tier == 'quick' else fct.quick * fct.thorough
        jobseed = derive_seed(seed, module.ID, fct.name, shard, tier)
        stats, failure = run_search(fct, jobseed, count, budget)
    return {
        'facet': fct.name, 'shard': shard, 'evaluations': stats.evaluations,
        'nontrivial': [d.hex() for d in stats.nontrivial],
        'labels': stats.labels, 'samples': stats.samples,
        'stopped_early': stats.stopped_early,
        'seconds': round(time.time() - began, 2),
        'failure': None if failure is None else {
            'case': values.encode(failure[0]), 'show': values.show(failure[0], 3000),
            'error': failure[1]},
    }


def run_jobs(module, jobs, seed, tier, workers):
    """Run jobs in forked children; returns results"""
    pending = list(jobs)
    running = {}
    results = []
    tmp = tempfile.mkdtemp(prefix='verif-')
    limit = 200 if tier == 'quick' else 2400
    try:
        while pending or running:
            while pending and len(running) < workers:
                fct, shard, shards = pending.pop(0)
                path = os.path.join(tmp, '%s.%d.json' % (fct.name, shard))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        os.setpgid(0, 0)
                        res = run_job(module, fct, seed, tier, shard, shards)
                        with open(path, 'w') as fid:
                            json.dump(res, fid)
                        code = 0
                    except BaseException:                       # pylint: disable=broad-except
                        with open(path + '.err', 'w') as fid:
                            fid.write(traceback.format_exc())
                    finally:
                        os._exit(code)
                running[pid] = (fct, shard, path, time.time())
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.02)
                for opid, (fct, shard, path, began) in list(running.items()):
                    if time.time() - began > limit:
                        os.kill(opid, signal.SIGKILL)
                continue
            if pid not in running:
                continue
            fct, shard, path, began = running.pop(pid)
            if os.path.exists(path):
                with open(path) as fid:
                    results.append(json.load(fid))
                if FAST and results[-1]['failure']:
                    break
            else:
                text = 'job ended with status %s' % status
                if os.path.exists(path + '.err'):
                    with open(path + '.err') as fid:
                        text = fid.read()
                results.append({'facet': fct.name, 'shard': shard,
                                'crash': text, 'evaluations': 0,
                                'nontrivial': [], 'labels': {}, 'samples': [],
                                'stopped_early': True, 'failure': None,
                                'seconds': round(time.time() - began, 2)})
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)
    return results


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fid:
        return json.load(fid)['findings']


def replay_file(module, path):
    """Re-run one recorded case; returns error text or None"""
    from . import values
    with open(path) as fid:
        data = json.load(fid)
    fct = [f for f in module.FACETS if f.name == data['facet']][0]
    if data.get('mode') == 'shard':
        res = run_job(module, fct, data['seed'], data['tier'], data['shard'],
                      data['shards'])
        return res['failure'] and res['failure']['error']
    _, error = execute(fct, values.decode(data['case']), seconds=60)
    return error


def confirm(module, path):
    """Does the replay file fail in a fresh process?"""
    cmd = [sys.executable, os.path.join(VERIF, 'run.py'), module.ID,
           '--replay', path]
    try:
        proc = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False
    return proc.returncode == 1


def write_replay(module, res, seed, tier, shards, mode):
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    data = {'property': module.ID, 'facet': res['facet'], 'mode': mode,
            'error': res['failure']['error'], 'case': res['failure']['case'],
            'show': res['failure']['show'], 'seed': seed, 'tier': tier,
            'shard': res['shard'], 'shards': shards}
    digest = hashlib.sha256(json.dumps(data['case'], sort_keys=True).encode()
                            ).hexdigest()[:10]
    path = os.path.join(OUT, 'replays', '%s-%s-%s.json' % (
        module.ID, res['facet'], digest))
    with open(path, 'w') as fid:
        json.dump(data, fid, indent=1)
    return path


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument('id', nargs='?')
    parser.add_argument('--selftest', action='store_true')
    parser.add_argument('--tier', default=None)
    parser.add_argument('--seed', type=int, default=None)
    parser.add_argument('--replay')
    parser.add_argument('--facet')
    parser.add_argument('--workers', type=int, default=8)
    parser.add_argument('--scale', type=float, default=1.0)
    args = parser.parse_args(argv)

    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = args.seed
    if seed is None:
        seed = int(os.environ.get('VERIF_SEED') or 1)

    import properties
    where = os.path.realpath(properties.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        print('ERROR: properties imported from %s, not %s' % (where, REPO))
        return 2
    if args.selftest:
        import hypothesis
        print('hypothesis %s, properties from %s' % (hypothesis.__version__, where))
        return 0
    module = importlib.import_module('checks.' + args.id.lower())

    if args.replay:
        error = replay_file(module, args.replay)
        if error:
            print('reproduced: ' + error)
            return 1
        print('not reproduced')
        return 0

    began = time.time()
    facets = [f for f in module.FACETS if not args.facet or f.name == args.facet]
    jobs = []
    for fct in facets:
        if args.scale != 1.0:
            fct.quick = max(1, int(fct.quick * args.scale))
        shards = fct.shards if tier == 'quick' else max(fct.shards, 4)
        for shard in range(shards):
            jobs.append((fct, shard, shards))
    jobs.sort(key=lambda j: -(j[0].quick if j[0].cases is None else 500) * j[0].weight)
    shards_of = {f.name: s for f, _, s in jobs}
    results = run_jobs(module, jobs, seed, tier, args.workers)

    crashes = [r for r in results if r.get('crash')]
    failures = [r for r in results if r['failure']]
    violations = []
    unreproduced = []
    seen = set()
    for res in sorted(failures, key=lambda r: len(r['failure']['show'])):
        if res['facet'] in seen:
            continue
        path = write_replay(module, res, seed, tier, shards_of[res['facet']], 'case')
        if not FAST and not confirm(module, path):
            path = write_replay(module, res, seed, tier,
                                shards_of[res['facet']], 'shard')
            if not confirm(module, path):
                unreproduced.append((res, path))
                continue
        seen.add(res['facet'])
        violations.append((res, path))

    # known findings: confirm that each listed one still fails
    known = []
    for item in load_known():
        if item['property'] != module.ID or item.get('status') != 'known':
            continue
        still = module.known_finding(item['case'])
        known.append((item, still))
        if still:
            print('KNOWN-FINDING: property=%s %s' % (module.ID, item['what']))
        else:
            print('NOTE: known finding %s no longer fails' % item['case'])

    distinct = set()
    labels = {}
    samples = []
    per_facet = {}
    for res in sorted(results, key=lambda r: (r['facet'], r['shard'])):
        distinct.update(res['facet'] + d for d in res['nontrivial'])
        info = per_facet.setdefault(res['facet'], {
            'evaluations': 0, 'distinct_nontrivial': 0, 'labels': {},
            'seconds': 0, 'stopped_early': False})
        info['evaluations'] += res['evaluations']
        info['seconds'] = round(info['seconds'] + res['seconds'], 2)
        info['stopped_early'] = info['stopped_early'] or res['stopped_early']
        for lab, num in res['labels'].items():
            info['labels'][lab] = info['labels'].get(lab, 0) + num
        if res['shard'] == 0:
            samples += ['%s: %s' % (res['facet'], s) for s in res['samples'][:2]]
    for name in per_facet:
        per_facet[name]['distinct_nontrivial'] = len(set(
            d for r in results if r['facet'] == name for d in r['nontrivial']))
    evidence = {
        'property': module.ID, 'tier': tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(distinct),
            'rule': module.RULE,
            'samples': samples[:24],
            'facets': per_facet,
            'known_findings_confirmed': [k[0]['case'] for k in known if k[1]],
            'unreproduced_failures': len(unreproduced),
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - began, 2),
        'violations': len(violations),
    }
    if not FAST:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', module.ID + '.json'), 'w') as fid:
            json.dump(evidence, fid, indent=1)

    print('%s: %d cases, %d distinct non-trivial, %d facets, %.1f s' % (
        module.ID, evidence['coverage']['evaluations'], len(distinct),
        len(facets), evidence['wall_s']))
    for res, path in unreproduced:
        print('NOTE: %s failed once but not again: %s' % (
            res['facet'], res['failure']['error'][:300]))
    for res, path in violations:
        print('%s/%s: %s' % (module.ID, res['facet'], res['failure']['error'][:1500]))
        print('  case: %s' % res['failure']['show'][:1500])
        print('VIOLATION property=%s replay=%s' % (module.ID, path))
    if violations:
        return 1
    if crashes:
        for res in crashes:
            print('ERROR in %s: %s' % (res['facet'], res['crash'][-1500:]))
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    'CPython 3.12 with the installed numpy, six, vectormath, traitlets and pypng',
    'only documented interfaces are used; the oracles are the models in /verif',
    'exploration: holds on the generated cases, not proved for all',
]
