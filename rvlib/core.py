"""Runner of the runtime-monitoring checks.

A check is a module in /verif/checks that defines

    PROPERTY   the id
    STREAMS    list of Stream(name, function, quick, thorough)
    REQUIRED   {event: minimal count} - the monitors must have seen at least this, else inconclusive
    RULE       text for the evidence
    ASSUMPTIONS list of text

Each stream function gets (rng, cx): it generates ONE case from rng, drives the real parsevasp through
its public interface, and reports what its monitors saw through cx.  Case i of stream s is a pure
function of (VERIF_SEED, property, s, i), so a violation is replayed from these four.

Verdicts: exit 0 held on what was observed; exit 1 + VIOLATION line; exit 3 inconclusive (a monitor was
not reached often enough); anything else is an error of the harness.
"""
import collections
import hashlib
import json
import logging
import multiprocessing
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
SCALE = float(os.environ.get('VERIF_SCALE', '1'))  # fewer cases for the survey of mutations
CPU_LIMIT = 60.0  # CPU seconds one case may use (ordinary cases use milliseconds)
PROC_ERROR = 4

Stream = collections.namedtuple('Stream', 'name func quick thorough')


class Violation(Exception):
    """The oracle saw the property broken."""

    def __init__(self, mech, detail):
        super().__init__(mech)
        self.mech = mech
        self.detail = detail


class CpuLimit(BaseException):
    """The case used more CPU time than the watchdog allows."""


class Outcome:
    """What one call into parsevasp did: returned, exited, or raised."""

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value
        self.trace = ''

    @property
    def ok(self):
        return self.kind == 'ok'

    def __repr__(self):
        text = repr(self.value)
        return f'{self.kind}:{text[:600]}'


def call(func, *args, **kwargs):
    """Run a call of the code under test and observe how it ended."""
    try:
        return Outcome('ok', func(*args, **kwargs))
    except SystemExit as exc:
        return Outcome('exit', exc.code)
    except (Violation, CpuLimit, KeyboardInterrupt):
        raise
    except BaseException as exc:  # pylint: disable=broad-except
        out = Outcome('exc', f'{type(exc).__name__}: {exc}')
        out.exc = exc
        out.trace = traceback.format_exc()
        return out


class Context:
    """Collects what the monitors of one worker observed."""

    def __init__(self, prop, seed, tier, known):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.known = known
        self.events = collections.Counter()
        self.shapes = set()
        self.samples = {}
        self.known_seen = {}
        self.evaluations = 0
        self.scratch = tempfile.mkdtemp(prefix=f'rv-{prop}-')
        self.stream = None
        self.index = None
        self.case = {}
        self._n = 0

    # --- observations
    def event(self, name, count=1):
        self.events[name] += count

    def shape(self, *parts):
        """Register the (non-trivial) shape of this case; distinct shapes are counted."""
        self.shapes.add(hashlib.md5(repr((self.stream,) + parts).encode()).hexdigest()[:16])

    def sample(self, **data):
        """Keep the case written out: used for the evidence, and for the replay of a violation."""
        self.case.update(data)

    # --- verdicts
    def fail(self, mech, detail='', **data):
        self.case.update(data)
        if (self.prop, mech) in self.known:
            self.known_seen[mech] = self.known_seen.get(mech, 0) + 1
            return
        raise Violation(mech, str(detail))

    def check(self, cond, mech, detail='', **data):
        self.event('oracle.comparisons')
        if not cond:
            self.fail(mech, detail() if callable(detail) else detail, **data)

    def must(self, outcome, mech, what=''):
        """The call must have returned normally."""
        self.event('oracle.comparisons')
        if not outcome.ok:
            self.fail(mech, f'{what}: expected a normal return, observed {outcome!r}\n{outcome.trace}')
        return outcome.value

    def must_exit(self, outcome, codes, mech, what=''):
        """The call must have been rejected with one of the documented codes."""
        self.event('oracle.comparisons')
        self.event('rejections.observed')
        if outcome.kind != 'exit' or (codes is not None and outcome.value not in codes) or not outcome.value:
            self.fail(mech, f'{what}: expected rejection with exit code {codes}, observed {outcome!r}\n{outcome.trace}')

    # --- files
    def path(self, name='f'):
        self._n += 1
        return os.path.join(self.scratch, f'{name}.{self._n}')

    def write(self, text, name='f', mode='w'):
        path = self.path(name)
        if isinstance(text, bytes):
            with open(path, 'wb') as handle:
                handle.write(text)
        else:
            with open(path, 'w', encoding='utf8', newline='') as handle:
                handle.write(text)
        return path

    def clean(self):
        for name in os.listdir(self.scratch):
            if name == 'keep':  # stays until the worker ends
                continue
            full = os.path.join(self.scratch, name)
            if os.path.isdir(full) and not os.path.islink(full):
                shutil.rmtree(full, ignore_errors=True)
            else:
                os.unlink(full)
        self._n = 0


def rng_for(seed, prop, stream, index):
    return random.Random(f'{seed}|{prop}|{stream}|{index}')


def load_known():
    """Open findings: lines 'finding: property=<id> mech=<key> <text>'. 'fixed:' lines suppress nothing."""
    known = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS, encoding='utf8') as handle:
            for line in handle:
                match = re.match(r'finding: property=(\S+) mech=(\S+) (.*)', line)
                if match:
                    known[(match.group(1), match.group(2))] = match.group(3).strip()
    return known


def _alarm(_sig, _frame):
    raise CpuLimit()


def run_case(mod, stream, index, cx):
    """Run one case. Returns None or a violation record."""
    cx.stream, cx.index, cx.case = stream.name, index, {}
    rng = rng_for(cx.seed, cx.prop, stream.name, index)
    signal.signal(signal.SIGPROF, _alarm)
    limit = getattr(mod, 'CPU_LIMIT', CPU_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, limit)
    record = None
    try:
        stream.func(rng, cx)
    except Violation as viol:
        record = {'mech': viol.mech, 'detail': viol.detail}
    except CpuLimit:
        record = {'mech': 'no-termination', 'detail': f'the case used more than {limit} s of CPU time\n'
                  + traceback.format_exc()}
    except (OSError, MemoryError):
        raise
    except Exception:  # pylint: disable=broad-except
        # parsevasp handed back something the oracle cannot even read (wrong type, missing key, ...)
        record = {'mech': 'unreadable-result', 'detail': traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    cx.evaluations += 1
    cx.clean()
    if record is not None:
        record.update(property=cx.prop, stream=stream.name, index=index, seed=cx.seed, tier=cx.tier, case=cx.case)
    return record


def _prepare():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(10000)


def _worker(mod, shard, nshards, seed, tier, known, deadline, queue):
    cx = None
    try:
        _prepare()
        cx = Context(mod.PROPERTY, seed, tier, known)
        violations = []
        complete = True
        for stream in mod.STREAMS:
            total = int((stream.quick if tier == 'quick' else stream.thorough) * SCALE)
            seen_samples = 0
            for index in range(shard, total, nshards):
                if time.monotonic() > deadline:
                    complete = False
                    break
                record = run_case(mod, stream, index, cx)
                if record is not None:
                    violations.append(record)
                    if len(violations) >= 3:
                        break
                elif cx.case and shard == 0 and seen_samples < 1:
                    cx.samples.setdefault(stream.name, dict(cx.case))
                    seen_samples += 1
            cx.event(f'stream.{stream.name}', 0)
            if violations:
                break
        queue.put({'shard': shard, 'events': cx.events, 'shapes': cx.shapes, 'samples': cx.samples,
                   'known_seen': cx.known_seen, 'evaluations': cx.evaluations, 'violations': violations,
                   'complete': complete, 'error': None})
    except BaseException:  # pylint: disable=broad-except
        where = f'{cx.stream}[{cx.index}]' if cx is not None else ''
        queue.put({'shard': shard, 'error': where + '\n' + traceback.format_exc()})
    finally:
        if cx is not None:
            shutil.rmtree(cx.scratch, ignore_errors=True)


def _jsonable(obj):
    return json.loads(json.dumps(obj, default=repr))


def _trim(obj, limit=1500):
    if isinstance(obj, str):
        return obj if len(obj) <= limit else obj[:limit] + f'...[{len(obj)} characters]'
    if isinstance(obj, dict):
        return {str(k): _trim(v, limit) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [_trim(v, limit) for v in list(obj)[:60]]
    return obj


def main(mod, tier, seed):
    start = time.monotonic()
    known = load_known()
    prop = mod.PROPERTY
    nshards = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    budget = 600.0 if tier == 'quick' else 3 * 3600.0
    ctx = multiprocessing.get_context('fork')
    queue = ctx.Queue()
    procs = [ctx.Process(target=_worker, args=(mod, s, nshards, seed, tier, known, start + budget, queue))
             for s in range(nshards)]
    for proc in procs:
        proc.start()
    results = []
    try:
        while len(results) < nshards:
            try:
                results.append(queue.get(timeout=5))
            except Exception:  # pylint: disable=broad-except
                dead = [p for p in procs if p.exitcode not in (None, 0)]
                if dead or time.monotonic() - start > budget + 120:
                    print(f'ERROR {prop}: worker died or stuck: {[p.exitcode for p in procs]}')
                    return PROC_ERROR
    finally:
        for proc in procs:
            proc.join(timeout=5)
            if proc.is_alive():
                proc.kill()
    errors = [r['error'] for r in results if r.get('error')]
    results = sorted((r for r in results if not r.get('error')), key=lambda r: r['shard'])
    events = collections.Counter()
    shapes, samples, known_seen, violations = set(), {}, {}, []
    evaluations = 0
    complete = True
    for res in results:
        events.update(res['events'])
        shapes |= res['shapes']
        for key, val in res['samples'].items():
            samples.setdefault(key, val)
        for key, val in res['known_seen'].items():
            known_seen[key] = known_seen.get(key, 0) + val
        violations += res['violations']
        evaluations += res['evaluations']
        complete = complete and res['complete']
    if errors and not violations:
        print(f'ERROR {prop}: the harness failed\n{errors[0]}')
        return PROC_ERROR
    violations.sort(key=lambda v: (v['stream'], v['index']))

    missing = {k: (events.get(k, 0), v) for k, v in getattr(mod, 'REQUIRED', {}).items() if events.get(k, 0) < v * min(1., SCALE) ** 2}
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(shapes),
            'rule': mod.RULE,
            'samples': [_trim({'stream': k, **_jsonable(v)}) for k, v in samples.items()],
            'monitor_events': {k: v for k, v in sorted(events.items()) if v},
            'streams': {s.name: (s.quick if tier == 'quick' else s.thorough) for s in mod.STREAMS},
            'workload_complete': complete,
            'known_findings_seen': known_seen,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - start, 3),
        'violations': len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w', encoding='utf8') as handle:
        json.dump(evidence, handle, indent=1, default=repr)

    for (fprop, mech), text in sorted(known.items()):
        if fprop == prop:
            print(f'KNOWN-FINDING: property={prop} {mech}: {text} (seen {known_seen.get(mech, 0)}x in this run)')
    if violations:
        os.makedirs(OUT, exist_ok=True)
        for record in violations[:5]:
            name = re.sub(r'[^A-Za-z0-9_.-]', '_', f"{prop}-{record['stream']}-{record['index']}-s{seed}")
            path = os.path.join(OUT, name + '.json')
            with open(path, 'w', encoding='utf8') as handle:
                json.dump(_jsonable(record), handle, indent=1, default=repr)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  mechanism={record['mech']} stream={record['stream']} index={record['index']} seed={seed}")
            for line in str(record['detail']).splitlines()[:12]:
                print('   ', line[:400])
        return 1
    if missing:
        print(f'INCONCLUSIVE {prop}: monitors saw too little (event: (seen, needed)): {missing}')
        return 3
    if not complete:
        print(f'INCONCLUSIVE {prop}: the workload was cut at the time budget')
        return 3
    print(f'HELD {prop}: {evaluations} cases, {len(shapes)} distinct shapes, '
          f"{events.get('oracle.comparisons', 0)} oracle comparisons, {evidence['wall_s']} s ({tier}, seed {seed})")
    return 0


def replay(mod, path):
    """Re-run the recorded case; exit 1 if it violates again."""
    with open(path, encoding='utf8') as handle:
        rec = json.load(handle)
    _prepare()
    cx = Context(mod.PROPERTY, rec['seed'], rec['tier'], load_known())
    try:
        stream = next(s for s in mod.STREAMS if s.name == rec['stream'])
        out = run_case(mod, stream, rec['index'], cx)
    finally:
        shutil.rmtree(cx.scratch, ignore_errors=True)
    if out is None:
        print(f"replay: no violation (recorded mechanism {rec['mech']})")
        return 0
    print(f"VIOLATION property={mod.PROPERTY} replay={path}")
    print(f"  mechanism={out['mech']}\n{out['detail']}")
    print(json.dumps(_trim(_jsonable(out['case']), 6000), indent=1))
    return 1
