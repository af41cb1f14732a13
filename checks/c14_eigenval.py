"""C14: eigenvalues, k-points and metadata read from EIGENVAL are the printed ones."""
import io

import numpy as np
from parsevasp.eigenval import Eigenval

from rvlib import cmp, dos_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C14'
RULE = ('Random EIGENVALs: one and two spins, 1-40 (also 12345) k-points, 1-130 (also 12345) bands, with and without occupancies, blank lines between and after '
        'the blocks; whole, and truncated after any line.')
ASSUMPTIONS = []
REQUIRED = {'feat.spin1': 100, 'feat.spin2': 100, 'feat.no-occupancies': 50, 'feat.blank-end': 50, 'feat.blanks': 50,
            'large': 24, 'truncated.refused': 30, 'truncated.partial': 100}


def read(cx, text, how):
    if how == 'path':
        return call(Eigenval, file_path=cx.write(text, 'EIGENVAL'))
    return call(Eigenval, file_handler=io.StringIO(text))


def large(rng, cx):
    whole(rng, cx, True)
    cx.event('large')


def whole(rng, cx, big=False):
    lines, model, feats, _ = gen.eigenval(rng, big)
    text = '\n'.join(lines) + '\n' * rng.choice([0, 1, 1, 1])
    cx.sample(text=text[:3000])
    for feat in feats:
        cx.event('feat.' + feat)
    cx.shape(sorted(feats), model['metadata']['n_kp'], model['metadata']['n_bands'])
    eig = cx.must(read(cx, text, rng.choice(['path', 'memory'])), 'valid-rejected')
    res = cmp.diff(np.array(model['eigenvalues']), cx.must(call(eig.get_eigenvalues), 'lookup'), where='eigenvalues')
    cx.check(res is None, 'wrong-eigenvalues', res)
    res = cmp.diff(np.array(model['kpoints']), cx.must(call(eig.get_kpoints), 'lookup'), where='kpoints')
    cx.check(res is None, 'wrong-kpoints', res)
    res = cmp.diff(model['metadata'], cx.must(call(eig.get_metadata), 'lookup'), where='metadata')
    cx.check(res is None, 'wrong-metadata', res)


def truncated(rng, cx):
    lines, model, feats, marks = gen.eigenval(rng)
    cut = rng.randint(0, len(lines) - 1)
    if rng.random() < .3:
        cut = rng.choice(marks)
    text = ''.join(line + '\n' for line in lines[:cut])
    cx.sample(text=text[-2000:], cut=cut)
    out = read(cx, text, 'memory')
    if not out.ok:
        cx.event('truncated.refused')
        return
    nband = model['metadata']['n_bands']
    eig = np.asarray(out.value.get_eigenvalues(), dtype=float)
    want = np.full(np.shape(model['eigenvalues']), np.nan)
    wantk = np.full(np.shape(model['kpoints']), np.nan)
    for k, end in enumerate(marks):
        if cut >= end - nband:
            wantk[k] = model['kpoints'][k]
        have = min(nband, max(0, cut - (end - nband)))
        for s in range(want.shape[0]):
            want[s, k, :have] = model['eigenvalues'][s][k][:have]
    cx.check(eig.shape == want.shape, 'fabricated', f'{eig.shape} {want.shape}')
    known = ~np.isnan(eig)
    cx.check(np.array_equal(eig[known], want[known]), 'fabricated', lambda: f'cut after line {cut}: expected {want}, observed {eig}')
    kpt = np.asarray(out.value.get_kpoints(), dtype=float)
    known = ~np.isnan(kpt)
    cx.check(kpt.shape == wantk.shape and np.array_equal(kpt[known], wantk[known]), 'fabricated',
             lambda: f'cut after line {cut}: expected {wantk}, observed {kpt}')
    cx.event('truncated.partial')
    cx.shape('cut', cut, want.shape)


STREAMS = [Stream('large', large, 24, 288), Stream('whole', whole, 36000, 432000), Stream('truncated', truncated, 24000, 288000)]
