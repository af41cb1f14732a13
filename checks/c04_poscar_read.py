"""C04: reading a POSCAR yields the structure that is in it, from every kind of source."""
import io

import numpy as np

from parsevasp.poscar import Poscar

from rvlib import cmp, poscar_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C04'
RULE = ('Random VASP 5 POSCAR texts (cells of both handedness, scaling, several and repeated species, selective dynamics, direct and '
        'Cartesian positions, direct and Cartesian velocities, predictors, blank lines at the end, many number spellings) and caller '
        'dictionaries; read through path, handle, string, dictionary; reported in direct and Cartesian. Distinct by features and species runs.')
ASSUMPTIONS = ['Cells have condition number below 100; real numbers are compared to 1e-11 relative to the cell size.']
REQUIRED = {'read.path': 50, 'read.handler': 50, 'read.string': 50, 'read.dict': 50, 'kind.cartesian': 50, 'kind.selective': 50,
            'kind.velocities-unlike-positions': 20, 'kind.predictors': 20, 'kind.blank-lines-at-end': 20, 'kind.split-species': 20,
            'kind.odd-header': 50, 'kind.comments-behind': 20}


def compare(cx, poscar, model, how):
    cart = gen.to_cart(model)
    for direct, want in ((True, model), (False, cart)):
        got = cx.must(call(poscar.get_dict) if direct else call(poscar.get_dict, direct=False), 'read-result', how)
        res = cmp.diff(want, got, rtol=1e-11, atol=1e-11, where=f'{how} direct={direct}')
        cx.check(res is None, 'wrong-structure', res)
    for key in ('comment', 'unitcell'):
        res = cmp.diff(model[key], cx.must(call(poscar.get, key), 'lookup-failed', how), rtol=1e-13, atol=1e-13, where=f'{how} get({key})')
        cx.check(res is None, 'wrong-structure', res)
    sites = cx.must(call(poscar.get, 'sites'), 'lookup-failed', how)
    res = cmp.diff(model['sites'], [gen.view_site(s) for s in sites], rtol=1e-11, atol=1e-11, where=f'{how} get(sites)')
    cx.check(res is None, 'wrong-structure', res)


def read(rng, cx):
    text, model, feats = gen.build(rng)
    cx.sample(text=text)
    for feat in feats:
        cx.event('kind.' + feat)
    cx.shape(sorted(feats), [s['specie'] for s in model['sites']])
    eol = '\r\n' if rng.random() < .1 else '\n'
    path = cx.write(text.replace('\n', eol), 'POSCAR')
    compare(cx, cx.must(call(Poscar, file_path=path), 'valid-rejected', 'path'), model, 'path')
    cx.event('read.path')
    with open(path, encoding='utf8') as handle:
        poscar = cx.must(call(Poscar, file_handler=handle), 'valid-rejected', 'handle')
    compare(cx, poscar, model, 'handle')
    cx.event('read.handler')
    compare(cx, cx.must(call(Poscar, file_handler=io.StringIO(text)), 'valid-rejected', 'memory'), model, 'memory handle')
    compare(cx, cx.must(call(Poscar, poscar_string=text), 'valid-rejected', 'string'), model, 'string')
    cx.event('read.string')


def from_dict(rng, cx):
    _, model, feats = gen.build(rng)
    source = gen.sites_for_dict(rng, model)
    if rng.random() < .1:
        source['comment'] = model['comment'] = None
    sites_before = [cmp.freeze(gen.view_site(s)) for s in source['sites']]
    kinds = [type(s).__name__ for s in source['sites']]
    cx.sample(source=repr({**source, 'sites': [gen.view_site(s) for s in source['sites']]}))
    cx.shape(sorted(feats), kinds)
    poscar = cx.must(call(Poscar, poscar_dict=source), 'valid-rejected', 'dictionary')
    compare(cx, poscar, model, 'dictionary')
    cx.check([type(s).__name__ for s in source['sites']] == kinds and
             cmp.same(sites_before, [gen.view_site(s) for s in source['sites']]), 'source-modified', 'the dictionary given was changed')
    cx.event('read.dict')
    # what one object reports is a valid source for the next
    for direct in (True, False):
        report = poscar.get_dict(direct=direct)
        again = cx.must(call(Poscar, poscar_dict=report), 'valid-rejected', 'reported dictionary')
        compare(cx, again, model, f'reported dictionary direct={direct}')


def large(rng, cx):
    """Thousands of atoms."""
    text, model, feats = gen.build(rng, atoms=rng.choice([3000, 12000]))
    cx.sample(atoms=len(model['sites']), head=text[:600])
    cx.event('large.atoms', len(model['sites']))
    cx.shape('large', sorted(feats), len(model['sites']))
    compare(cx, cx.must(call(Poscar, file_path=cx.write(text, 'POSCAR')), 'valid-rejected', 'path'), model, 'path')


STREAMS = [Stream('large', large, 16, 192), Stream('read', read, 12000, 144000), Stream('from_dict', from_dict, 9000, 108000)]
