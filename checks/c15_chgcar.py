"""C15: the densities read from CHGCAR are the printed grids over the cell volume, each under its own component."""
import io

import numpy as np
from parsevasp.chgcar import Chgcar

from rvlib import chg_gen as gen, cmp
from rvlib.core import Stream, call

PROPERTY = 'C15'
RULE = ('Random CHGCARs: non polarized, collinear, non collinear; random cells (also skewed and left-handed) with scaling, anisotropic '
        'grids of up to 64000 points, with and without augmentation occupancies and ion moments, several number spellings; whole and truncated at any line.')
ASSUMPTIONS = ['densities compared to a relative 1e-9 (the order of operations for the volume is free)']
REQUIRED = {'feat.' + f: 60 for f in ('nospin', 'spin', 'ncl', 'left-handed', 'blanks-in-separator', 'grid-all-different',
                                      'augmentation', 'no-augmentation', 'moments', 'moments-alone')}
REQUIRED.update({'grid.large': 15, 'truncated.refused': 100, 'truncated.read': 20})


def read(cx, text, how):
    if how == 'path':
        return call(Chgcar, file_path=cx.write(text, 'CHGCAR'))
    return call(Chgcar, file_handler=io.StringIO(text))


def equal(want, got, where):
    if isinstance(want, dict):
        if not isinstance(got, dict) or set(got) != set(want):
            return f'{where}: expected components {sorted(want)}, observed {type(got)}'
        for key in want:
            res = equal(want[key], got[key], f'{where}[{key}]')
            if res:
                return res
        return None
    if want is None or got is None or isinstance(got, dict):
        return None if want is None and got is None else f'{where}: expected {type(want)}, observed {type(got)}'
    return cmp.diff(np.array(want), np.asarray(got), rtol=1e-9, where=where)


def whole(rng, cx, grid=None):
    lines, model, feats, _ = gen.chgcar(rng, grid)
    text = '\n'.join(lines) + '\n' * rng.choice([0, 1, 1, 1, 2])
    cx.sample(text=text[:3000])
    for feat in feats:
        cx.event('feat.' + feat)
    cx.shape(sorted(feats), np.shape(model['total']))
    chg = cx.must(read(cx, text, rng.choice(['path', 'memory'])), 'valid-rejected')
    res = equal(model['total'], chg.charge_density, 'charge_density')
    cx.check(res is None, 'wrong-charge', res)
    res = equal(model['magnetization'], chg.magnetization_density, 'magnetization_density')
    cx.check(res is None, 'wrong-magnetization', res)


def truncated(rng, cx):
    """Cut after any line: refused, or what is given is whole."""
    lines, model, feats, ends = gen.chgcar(rng)
    cut = rng.randint(0, len(lines) - 1)
    text = ''.join(line + '\n' for line in lines[:cut])
    cx.sample(text=text[-2000:], cut=cut, ends=ends)
    cx.shape(sorted(feats), cut, len(lines))
    out = read(cx, text, 'memory')
    if not out.ok:
        cx.event('truncated.refused')
        return
    cx.event('truncated.read')
    cx.check(cut >= ends[0], 'fabricated', f'cut after line {cut}, the total density ends at {ends[0]}')
    res = equal(model['total'], out.value.charge_density, 'charge_density')
    cx.check(res is None, 'fabricated', res)
    mag = out.value.magnetization_density
    if isinstance(mag, dict):
        cx.check(cut >= ends[-1], 'fabricated', f'cut after line {cut}, the magnetization ends at {ends[-1]}')
        res = equal(model['magnetization'], mag, 'magnetization_density')
        cx.check(res is None, 'fabricated', res)
    elif mag is not None:
        # two whole grids are a collinear file
        want = model['magnetization']
        cx.check(want is not None and cut >= ends[1], 'fabricated', f'cut after line {cut}, the grids end at {ends}')
        res = equal(want['x'] if isinstance(want, dict) else want, mag, 'magnetization_density')
        cx.check(res is None, 'fabricated', res)


def large(rng, cx):
    """Grids of production runs, also with one side of more than a hundred points."""
    whole(rng, cx, rng.sample(rng.choice([[24, 30, 36], [40, 40, 40], [10, 12, 256], [2, 3, 1000], [1, 4, 9999]]), 3))
    cx.event('grid.large')


STREAMS = [Stream('large', large, 24, 288), Stream('whole', whole, 36000, 432000), Stream('truncated', truncated, 24000, 288000)]
