"""C08: writing a KPOINTS keeps the sampling, to the requested number of decimals."""
import io
import re

from parsevasp.kpoints import Kpoints

from rvlib import cmp, kpoints_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C08'
RULE = ('Random samplings of every mode (from text or dictionary), 5-14 decimals, written through path/handle/string; decided by an '
        'independent reader of the written file and by reading back.')
ASSUMPTIONS = ['Line mode has complete segments (an even number of points).']
REQUIRED = {'mode.' + m: 40 for m in gen.MODES}
REQUIRED.update({'written.path': 100, 'oracle.read-back': 100})


def roundtrip(rng, cx, size=9):
    text, model, feats = gen.build(rng, size=size)
    for feat in feats:
        cx.event('mode.' + feat)
    prec = rng.choice([None, None, 5, 8, 14])
    kwargs = {} if prec is None else {'prec': prec}
    decimals = 9 if prec is None else prec
    if rng.random() < .5:
        kpoints = cx.must(call(Kpoints, kpoints_string=text, **kwargs), 'valid-rejected')
    else:
        if rng.random() < .2:
            model['comment'] = None
        given = gen.dict_source(model)
        if model['mode'] == 'explicit' and rng.random() < .3:
            # what counts is what is listed
            before_count = model['num_kpoints']
            given['num_kpoints'] = rng.choice([0, 1, before_count + 3, 2 * before_count])
            cx.event('count.differs')
        kpoints = cx.must(call(Kpoints, kpoints_dict=given, **kwargs), 'valid-rejected')
    cx.shape(sorted(feats), prec, text.count('\n'))
    cx.sample(text=text, prec=prec)
    before = cmp.freeze(kpoints.get_dict())
    out = cx.must(call(kpoints.get_string), 'write-failed', 'string')
    cx.sample(written=out)
    tol = 0.51 * 10.0 ** -decimals
    gen.check_written(cx, out, model, tol, 'string')
    body = '\n'.join(out.split('\n')[1:])
    cx.check(all(len(tok.split('.')[1]) == decimals for tok in re.findall(r'-?\d+\.\d+', body)), 'wrong-decimals', out)
    want = dict(model)
    if model['comment'] is None:
        want['comment'] = 'No comment'
    if model['mode'] == 'automatic':
        want['num_kpoints'] = 0
        if model['shifts'] is None:
            want['shifts'] = [0.0, 0.0, 0.0]
    if model['points'] is not None:
        want['points'] = [[p, 1.0 if w is None else w, d] for p, w, d in model['points']]
    for how, source in (('string', {'kpoints_string': out}), ('handle', {'file_handler': io.StringIO(out)})):
        again = cx.must(call(Kpoints, **source, **kwargs), 'own-output-rejected', out)
        res = cmp.diff(want, again.get_dict(), rtol=1e-13, atol=tol, where=f'read back from {how}')
        cx.check(res is None, 'roundtrip-differs', f'{res}\n{out}')
        second = again.get_string()
        cx.check(second == out or model['comment'] is None, 'not-stable', f'{out}\n{second}')
    handle = io.StringIO()
    cx.must(call(kpoints.write, file_handler=handle), 'write-failed', 'handle')
    cx.check(handle.getvalue() == out, 'sinks-differ', 'handle and string differ')
    path = cx.path('KPOINTS')
    if rng.random() < .5:
        with open(path, 'w', encoding='utf8') as old:
            old.write('old content\n' * 300)
    cx.must(call(kpoints.write, file_path=path), 'write-failed', 'path')
    with open(path, encoding='utf8') as handle:
        cx.check(handle.read() == out, 'sinks-differ', 'path and string differ')
    again = cx.must(call(Kpoints, file_path=path), 'own-output-rejected')
    res = cmp.diff(want, again.get_dict(), rtol=1e-13, atol=tol, where='read back from path')
    cx.check(res is None, 'roundtrip-differs', f'{res}\n{out}')
    cx.event('written.path')
    cx.check(cmp.same(before, kpoints.get_dict()), 'write-changed-object', 'writing changed the sampling held')


def large(rng, cx):
    """Thousands of points."""
    roundtrip(rng, cx, rng.choice([300, 2500, 12000]))


STREAMS = [Stream('large', large, 24, 288), Stream('roundtrip', roundtrip, 40000, 480000)]
