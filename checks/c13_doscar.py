"""C13: the density of states read from DOSCAR is the printed one, every column under its own name."""
import io

import numpy as np
from parsevasp.doscar import Doscar

from rvlib import cmp, dos_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C13'
RULE = ('Random DOSCARs: without spin, spin polarized, non collinear; without projection, l and lm projections with and without f; '
        '1-7 ions, 1-99999 energies, Fortran number spellings; whole, and truncated at any line.')
ASSUMPTIONS = ['the caller says whether the run is non collinear, as the interface demands']
REQUIRED = {f'layout.{k}.{p}': 10 for k in ('nospin', 'spin', 'ncl') for p in (None, 'l', 'lf', 'lm', 'lmf')}
REQUIRED.update({'truncated.refused': 50, 'truncated.prefix': 20, 'feat.exponent3': 20, 'feat.points-run-together': 2, 'feat.ions-run-together': 20})


def table(cx, want, got, where, mech='wrong-dos'):
    names = got.dtype.names
    cx.check(names is not None and set(names) == set(want), mech, f'{where}: columns {names}, expected {sorted(want)}')
    for name, vals in want.items():
        res = cmp.diff(np.array(vals), got[name], where=f'{where}[{name}]')
        cx.check(res is None, mech, res)


def read(cx, text, ncl, how):
    kwargs = {'non_collinear': True} if ncl else {}
    if how == 'path':
        return call(Doscar, file_path=cx.write(text, 'DOSCAR'), **kwargs)
    return call(Doscar, file_handler=io.StringIO(text), **kwargs)


def whole(rng, cx):
    lines, model, ncl, feats, _ = gen.doscar(rng)
    text = '\n'.join(lines) + '\n' * rng.choice([0, 1, 1, 1, 2, 4])
    cx.sample(text=text[:3000])
    kind = [k for k in ('nospin', 'spin', 'ncl') if k in feats][0]
    proj = [f for f in feats if f.startswith('proj.')][0][5:]
    cx.event(f'layout.{kind}.{proj}')
    for feat in feats:
        cx.event('feat.' + feat)
    cx.shape(kind, proj, model['metadata']['n_ions'], model['metadata']['n_dos'])
    dos = cx.must(read(cx, text, ncl, rng.choice(['path', 'memory'])), 'valid-rejected')
    judge(cx, dos, model)


def judge(cx, dos, model):
    table(cx, model['dos'], cx.must(call(dos.get_dos), 'lookup'), 'dos')
    pdos = cx.must(call(dos.get_pdos), 'lookup')
    if model['pdos'] is None:
        cx.check(np.size(pdos) == 0, 'wrong-pdos', f'no projection in the file, got {np.shape(pdos)}')
    else:
        cx.check(len(pdos) == len(model['pdos']), 'wrong-pdos', f"{len(pdos)} ions, expected {len(model['pdos'])}")
        for i, ion in enumerate(model['pdos']):
            table(cx, ion, pdos[i], f'pdos ion {i}', 'wrong-pdos')
    res = cmp.diff(model['metadata'], cx.must(call(dos.get_metadata), 'lookup'), where='metadata')
    cx.check(res is None, 'wrong-metadata', res)


def truncated(rng, cx):
    """A copy cut after a line is refused, or gives only what it contains."""
    lines, model, ncl, feats, marks = gen.doscar(rng)
    cut = rng.randint(0, len(lines) - 1) if rng.random() < .7 else max(0, rng.choice(marks) - rng.choice([0, 1, 1]))
    text = ''.join(line + '\n' for line in lines[:cut])
    cx.sample(text=text[-3000:], cut=cut, lines=len(lines))
    cx.shape(sorted(feats), cut, len(lines))
    out = read(cx, text, ncl, 'memory')
    if not out.ok:
        cx.event('truncated.refused')
        return
    dos = out.value
    have = cut - 6
    ndos = model['metadata']['n_dos']
    got = dos.get_dos()
    cx.check(len(got) <= min(ndos, max(0, have)), 'fabricated', f'{len(got)} energies from {have} lines')
    table(cx, {k: v[:len(got)] for k, v in model['dos'].items()}, got, 'dos', 'fabricated')
    pdos = dos.get_pdos()
    if np.size(pdos):
        cx.check(model['pdos'] is not None and len(pdos) <= len(model['pdos']), 'fabricated', np.shape(pdos))
        for i, ion in enumerate(pdos):
            have = cut - 6 - ndos - 1 - i * (ndos + 1)
            cx.check(len(ion) <= max(0, have), 'fabricated', f'ion {i}: {len(ion)} energies from {have} lines')
            table(cx, {k: v[:len(ion)] for k, v in model['pdos'][i].items()}, ion, f'pdos ion {i}', 'fabricated')
    cx.event('truncated.prefix')


STREAMS = [Stream('whole', whole, 6000, 80000), Stream('truncated', truncated, 4000, 48000)]
