"""C11: symmetry, elastic moduli, magnetization and run statistics read from OUTCAR are those printed in it."""
import io

import numpy as np
from parsevasp.outcar import Outcar

from rvlib import cmp, outcar_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C11'
RULE = ('Random OUTCARs with symmetry analyses (primitive cells and supercells), elastic tensors with decoy tables, collinear and '
        'non collinear magnetization for one, several and thousands of ions, totals without blanks between them, timing blocks; whole and killed at any line.')
ASSUMPTIONS = ['a table that the end of a killed run cuts is only held to: no value that is not printed in the file']
REQUIRED = {'feat.' + f: 40 for f in ('supercell', 'elastic.total', 'elastic.symmetrized', 'elastic.non_symmetrized', 'mag.single',
                                      'mag.many', 'mag.ncl', 'mag.f', 'stat.empty', 'finished', 'mag.run-together')}
REQUIRED['killed.in-table'] = 30
REQUIRED['quantities.large'] = 10


def judge(cx, lines, how):
    state = gen.fold(lines)
    if state['last'] is None:
        return
    text = ''.join(line.text + '\n' for line in lines)
    if how == 'path':
        outcar = cx.must(call(Outcar, file_path=cx.write(text, 'OUTCAR')), 'unreadable', how)
    else:
        outcar = cx.must(call(Outcar, file_handler=io.StringIO(text)), 'unreadable', how)
    got = cx.must(call(outcar.get_symmetry), 'unreadable')
    res = cmp.diff(state['symmetry'], got, where='symmetry')
    cx.check(res is None, 'wrong-symmetry', res, text=text)
    got = cx.must(call(outcar.get_elastic_moduli), 'unreadable')
    want = {k: None if v is None else np.array(v) for k, v in state['elastic'].items()}
    res = cmp.diff(want, got, where='elastic_moduli')
    cx.check(res is None, 'wrong-elastic', res, text=text)
    got = cx.must(call(outcar.get_run_stats), 'unreadable')
    res = cmp.diff(gen.run_stats(lines), got, where='run_stats')
    cx.check(res is None, 'wrong-run-stats', res, text=text)
    got = cx.must(call(outcar.get_magnetization), 'unreadable')
    res = cmp.diff(state['mag']['full_cell'], got['full_cell'], where='full_cell')
    cx.check(res is None, 'wrong-magnetization', res, text=text)
    if lines[-1].in_mag:
        cx.event('killed.in-table')
        printed = {float(tok) for line in lines if line.in_mag or line.text.startswith('tot')
                   for tok in line.text.replace('-', ' -').split()[1:] if _number(tok)}
        for proj in 'xyz':
            for table in list(got['sphere'][proj]['site_moment'].values()) + [got['sphere'][proj]['total_magnetization']]:
                for value in table.values():
                    cx.check(value in printed, 'fabricated-moment', f'{proj}: {value} is not in the file', text=text)
    else:
        res = cmp.diff(state['mag']['sphere'], got['sphere'], where='sphere')
        cx.check(res is None, 'wrong-magnetization', res, text=text)


def _number(tok):
    try:
        float(tok)
    except ValueError:
        return False
    return True


def quantities(rng, cx):
    lines, feats = gen.build(rng)
    for feat in feats:
        cx.event('feat.' + feat)
    cx.sample(lines=len(lines), tail='\n'.join(l.text for l in lines[-60:]))
    cx.shape(sorted(feats), len(lines))
    judge(cx, lines, rng.choice(['path', 'memory']))
    for _ in range(3):
        judge(cx, lines[:rng.randint(1, len(lines))], 'memory')
    spots = [i for i, l in enumerate(lines) if l.in_mag or l.effect is not None or l.stat is not None]
    for i in rng.sample(spots, min(4, len(spots))):
        judge(cx, lines[:i + 1], 'memory')


def large(rng, cx):
    """Thousands of ions, or steps."""
    lines, _ = gen.build(rng, large=rng.choice([(300, 3), (1000, 2), (2345, 1), (12345, 1), (2, 1500)]))
    cx.sample(lines=len(lines), tail='\n'.join(l.text for l in lines[-60:]))
    judge(cx, lines, 'path')
    judge(cx, lines[:rng.randint(1, len(lines))], 'memory')
    cx.event('quantities.large')


STREAMS = [Stream('large', large, 16, 192), Stream('quantities', quantities, 10000, 120000)]
