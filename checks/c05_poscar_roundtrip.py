"""C05: writing a POSCAR keeps every atom with its data, to the requested number of decimals."""
import io
import re

import numpy as np

from parsevasp.poscar import Poscar

from rvlib import cmp, poscar_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C05'
RULE = ('Random structures held by a Poscar (from text or dictionary), written in direct or Cartesian coordinates, order kept or grouped, '
        '3-18 decimals, through path/handle/string; decided by an independent reader of the written file and by reading back.')
ASSUMPTIONS = ['Velocities and predictors are given for all atoms or none.']
REQUIRED = {'written.direct': 100, 'written.cartesian': 100, 'written.conserve': 100, 'written.grouped': 100, 'kind.selective': 50,
            'kind.velocities': 50, 'kind.predictors': 50, 'written.path': 100}


def atom_tol(prec, icell, direct):
    half = 0.51 * 10.0 ** -prec
    return half + 1e-12 if direct else half * (1 + float(np.abs(icell).sum())) + 1e-12


def expected_sequence(cx, model, species, counts, conserve, how):
    """The order in which the atoms must appear, given the (acceptable) species line."""
    sites = model['sites']
    if conserve:
        runs = []
        for site in sites:
            if runs and runs[-1][0] == site['specie']:
                runs[-1][1] += 1
            else:
                runs.append([site['specie'], 1])
        cx.check([list(r) for r in zip(species, counts)] == runs, 'wrong-species-line', f'{how}: {species} {counts}, expected {runs}')
        return sites
    groups = gen.written_order(sites, False)
    cx.check(sorted(species) == sorted(groups) and all(len(groups[s]) == n for s, n in zip(species, counts)), 'wrong-species-line',
             f'{how}: {species} {counts}, expected groups { {k: len(v) for k, v in groups.items()} }')
    cx.check(list(counts) == sorted(counts), 'wrong-species-order', f'{how}: rarest species first expected: {species} {counts}')
    return [s for name in species for s in groups[name]]


def roundtrip(rng, cx, atoms=8):
    text, model, feats = gen.build(rng, atoms=atoms)
    for feat in feats:
        cx.event('kind.' + feat.split('-')[0])
    conserve, direct = rng.random() < .5, rng.random() < .5
    prec = rng.choice([None, None, 3, 5, 8, 14, 16, 18])
    kwargs = {'conserve_order': conserve, 'write_direct': direct}
    if prec is not None:
        kwargs['prec'] = prec
    if rng.random() < .6:
        poscar = cx.must(call(Poscar, poscar_string=text, **kwargs), 'valid-rejected')
    else:
        if rng.random() < .2:
            model['comment'] = None
        poscar = cx.must(call(Poscar, poscar_dict=gen.sites_for_dict(rng, model), **kwargs), 'valid-rejected')
    before = cmp.freeze(poscar.get_dict())
    cx.sample(text=text, kwargs=kwargs)
    cx.shape(sorted(feats), conserve, direct, prec, [s['specie'] for s in model['sites']])
    cx.event('written.' + ('direct' if direct else 'cartesian'))
    cx.event('written.' + ('conserve' if conserve else 'grouped'))
    decimals = 12 if prec is None else prec
    out = cx.must(call(poscar.get_string), 'write-failed', 'string')
    cx.sample(written=out)
    try:
        first, mat, species, counts, sites = gen.read_back(out)
    except (ValueError, IndexError) as exc:
        cx.fail('malformed-output', f'{exc}\n{out}')
        return
    cx.event('oracle.read-back')
    cx.check(all(len(tok.split('.')[1]) == decimals for tok in re.findall(r'-?\d+\.\d+', '\n'.join(out.split('\n')[1:]))),
             'wrong-decimals', f'expected {decimals} decimals\n{out}')
    compound = 'Compound: ' + ''.join(s + ('' if n == 1 else str(n)) for s, n in zip(species, counts)) + '.'
    cx.check(first.startswith('#') and compound in first and (model['comment'] or '') in first and 'None' not in first, 'wrong-comment',
             f'{first!r} should carry {compound!r} and {model["comment"]!r}')
    rest, old = first[1:].replace(compound, '', 1).split(), (model['comment'] or '')
    cx.check(rest in ([], ['Old', 'comment:'] + old.split(), old.replace(compound, '', 1).split()), 'wrong-comment', f'{first!r} carries more than {compound!r} and {old!r}')
    res = cmp.diff(model['unitcell'], mat, rtol=1e-13, atol=0.51 * 10.0 ** -decimals, where='unit cell')
    cx.check(res is None, 'wrong-cell', res)
    cx.check(('\nDirect\n' in out) == direct, 'wrong-coordinate-type', f'direct={direct}\n{out}')
    want = expected_sequence(cx, model, species, counts, conserve, 'string')
    icell = gen.inv(model['unitcell'])
    # the cell itself is rounded: fold that in
    slack = 1.0 + sum(float(np.abs(s['position']).max() + (0 if s['velocities'] is None else np.abs(s['velocities']).max()))
                      for s in model['sites'])
    tol = atom_tol(decimals, icell, direct) * (1.0 if direct else 1 + 3 * slack)
    res = cmp.diff(want, sites, rtol=1e-12, atol=tol, where='sites')
    cx.check(res is None, 'wrong-atom', f'{res}\n{out}')
    # and through the package's own reader
    again = cx.must(call(Poscar, poscar_string=out, **kwargs), 'own-output-rejected')
    got = again.get_dict()
    res = cmp.diff(want, got['sites'], rtol=1e-12, atol=tol, where='read back')
    cx.check(res is None, 'roundtrip-differs', res)
    res = cmp.diff(model['unitcell'], got['unitcell'], rtol=1e-13, atol=0.51 * 10.0 ** -decimals, where='read back cell')
    cx.check(res is None, 'roundtrip-differs', res)
    third = Poscar(poscar_string=again.get_string(), **kwargs).get_string()
    cx.check(third.split('\n')[0].strip() == first.strip(), 'not-stable', 'the comment keeps growing')
    cx.check(again.get_string().split('\n')[0].strip() == first.strip(), 'not-stable', f'comment {first!r} became {again.get_string().splitlines()[0]!r}')
    # all sinks agree
    handle = io.StringIO()
    cx.must(call(poscar.write, file_handler=handle), 'write-failed', 'handle')
    cx.check(handle.getvalue() == out, 'sinks-differ', 'handle and string differ')
    path = cx.path('POSCAR')
    if rng.random() < .5:
        with open(path, 'w', encoding='utf8') as old:
            old.write('old content\n' * 300)
    cx.must(call(poscar.write, file_path=path), 'write-failed', 'path')
    with open(path, encoding='utf8') as handle:
        cx.check(handle.read() == out, 'sinks-differ', 'path and string differ')
    cx.event('written.path')
    cx.check(cmp.same(before, poscar.get_dict()), 'write-changed-object', 'writing changed the structure held')


def large(rng, cx):
    """Thousands of atoms."""
    roundtrip(rng, cx, rng.choice([3000, 12000, 45000]))


STREAMS = [Stream('large', large, 16, 192), Stream('roundtrip', roundtrip, 8000, 96000)]
