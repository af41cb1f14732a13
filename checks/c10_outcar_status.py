"""C10: the run status read from OUTCAR is the documented verdict on the run, also for runs killed at any line."""
import io

from parsevasp.outcar import Outcar

from rvlib import cmp, outcar_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C10'
RULE = ('Random OUTCARs (NELM/NSW/IBRION, ionic and electronic step counts on both sides of the limits, up to thousands, decoy lines); whole files '
        'and copies killed after any line; the verdict is recomputed from the surviving lines. Also cuts of the fixture OUTCARs.')
ASSUMPTIONS = ['NELM and NSW are printed before the first electronic step, as VASP does']
REQUIRED = {'status.thousands': 10, 'status.whole': 300, 'status.killed': 300, 'exit.no-iterations': 50, 'verdict.ionic.True': 30, 'verdict.ionic.False': 30,
            'verdict.ionic.None': 30, 'verdict.electronic.True': 30, 'verdict.consistent.True': 30, 'verdict.contains.only': 30,
            'verdict.unfinished-breach': 10, 'verdict.unfinished-breach.long': 10,
            'status.ten-steps-or-more': 100, 'status.late-piece': 50}


def judge(cx, lines, how, killed):
    state = gen.fold(lines)
    text = ''.join(line.text + '\n' for line in lines)
    if killed and how == 'path':
        text = text[:-1]
    if how == 'path':
        out = call(Outcar, file_path=cx.write(text, 'OUTCAR'))
    else:
        out = call(Outcar, file_handler=io.StringIO(text))
    want = gen.run_status(state)
    if want is None:
        cx.must_exit(out, {600}, 'no-iterations', how)
        cx.event('exit.no-iterations')
        return
    outcar = cx.must(out, 'status-unavailable', f'{how} killed={killed} lines={len(lines)}')
    got = cx.must(call(outcar.get_run_status), 'status-unavailable')
    res = cmp.diff(want, got, where='run_status')
    cx.check(res is None, 'wrong-status', lambda: f'{res}\n want {want}\n got  {got}', text=text)
    cx.event('status.killed' if killed else 'status.whole')
    cx.event(f"verdict.ionic.{want['ionic_converged']}")
    cx.event(f"verdict.electronic.{want['electronic_converged']}")
    cx.event(f"verdict.consistent.{want['consistent_nelm_breach']}")
    if want['contains_nelm_breach'] and not want['consistent_nelm_breach']:
        cx.event('verdict.contains.only')
    if want['last_iteration_index'][0] > 9:
        cx.event('status.ten-steps-or-more')
        if want['consistent_nelm_breach'] and not want['finished']:
            cx.event('verdict.unfinished-breach.long')
    if want['consistent_nelm_breach'] and not want['finished']:
        cx.event('verdict.unfinished-breach')
    cx.shape(want['nelm'], want['nsw'], state['ibrion'], tuple(want['last_iteration_index']), want['finished'],
             tuple(c for _, c in state['steps']))


def runs(rng, cx):
    lines, feats = gen.build(rng)
    if 'late-piece' in feats:
        cx.event('status.late-piece')
    cx.sample(lines=len(lines), head='\n'.join(l.text for l in lines[:60]))
    judge(cx, lines, rng.choice(['path', 'memory']), False)
    for _ in range(4):
        judge(cx, lines[:rng.randint(1, len(lines))], rng.choice(['path', 'memory']), True)
    # killed right at the points that matter
    spots = [i for i, l in enumerate(lines) if 'Iteration' in l.text or 'timing and' in l.text]
    for i in rng.sample(spots, min(3, len(spots))):
        judge(cx, lines[:i + rng.choice([0, 1])] or lines[:1], 'memory', True)


def large(rng, cx):
    """Thousands of steps."""
    lines, _ = gen.build(rng, large=(1, rng.choice([1500, 4000])))
    cx.sample(lines=len(lines), head='\n'.join(l.text for l in lines[:60]))
    judge(cx, lines, 'path', False)
    judge(cx, lines[:rng.randint(len(lines) // 2, len(lines))], 'memory', True)
    cx.event('status.thousands')


STREAMS = [Stream('large', large, 16, 192), Stream('runs', runs, 10000, 120000)]
