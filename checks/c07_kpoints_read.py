"""C07: reading a KPOINTS yields the sampling that is in it, for every mode and every kind of source."""
import io

from parsevasp.kpoints import Kpoints

from rvlib import cmp, kpoints_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C07'
RULE = ('Random KPOINTS of every supported mode (Gamma, Monkhorst-Pack, generating vectors, explicit with and without weights, '
        'tetrahedra, line mode) in many spellings, blank lines included; read through path, handle, string, dictionary.')
ASSUMPTIONS = []
REQUIRED = {'mode.' + m: 40 for m in gen.MODES}
REQUIRED.update({'read.path': 50, 'read.handler': 50, 'read.string': 50, 'read.dict': 50, 'mode.odd-separator': 20,
                 'mode.blank-lines-at-end': 20, 'mode.shift': 20, 'mode.comments-behind': 40})


def compare(cx, kpoints, model, how):
    got = cx.must(call(kpoints.get_dict), 'read-result', how)
    res = cmp.diff(model, got, where=how)
    cx.check(res is None, 'wrong-sampling', res)
    for key in ('comment', 'divisions', 'shifts', 'mode', 'centering', 'num_kpoints', 'tetra', 'tetra_volume', 'generating_vectors'):
        res = cmp.diff(model[key], cx.must(call(kpoints.get, key), 'lookup-failed', key), where=f'{how} get({key})')
        cx.check(res is None, 'wrong-sampling', res)
    cx.check(kpoints.get('nothing') is None, 'wrong-sampling', 'an unknown entry should give None')
    points = cx.must(call(kpoints.get, 'points'), 'lookup-failed')
    if model['points'] is None:
        cx.check(points is None, 'wrong-sampling', f'{how}: points {points!r}')
    else:
        res = cmp.diff(model['points'], [[p.get_point(), p.get_weight(), p.get_direct()] for p in points], where=f'{how} get(points)')
        cx.check(res is None, 'wrong-sampling', res)


def read(rng, cx, size=9):
    text, model, feats = gen.build(rng, size=size)
    cx.sample(text=text)
    for feat in feats:
        cx.event('mode.' + feat)
    cx.shape(sorted(feats), text.count('\n'), None if model['points'] is None else len(model['points']))
    eol = '\r\n' if rng.random() < .1 else '\n'
    path = cx.write(text.replace('\n', eol), 'KPOINTS')
    compare(cx, cx.must(call(Kpoints, file_path=path), 'valid-rejected', 'path'), model, 'path')
    cx.event('read.path')
    with open(path, encoding='utf8') as handle:
        kpoints = cx.must(call(Kpoints, file_handler=handle), 'valid-rejected', 'handle')
    compare(cx, kpoints, model, 'handle')
    cx.event('read.handler')
    compare(cx, cx.must(call(Kpoints, file_handler=io.StringIO(text)), 'valid-rejected', 'memory'), model, 'memory handle')
    compare(cx, cx.must(call(Kpoints, kpoints_string=text), 'valid-rejected', 'string'), model, 'string')
    cx.event('read.string')
    source = gen.dict_source(model)
    points = None if source['points'] is None else list(source['points'])
    keep = {k: cmp.freeze(v) for k, v in source.items() if k != 'points'}
    compare(cx, cx.must(call(Kpoints, kpoints_dict=source), 'valid-rejected', 'dictionary'), model, 'dictionary')
    cx.check(cmp.same(keep, {k: v for k, v in source.items() if k != 'points'}) and source['points'] == points,
             'source-modified', 'the dictionary given was changed')
    cx.event('read.dict')


def large(rng, cx):
    """Thousands of points."""
    read(rng, cx, rng.choice([300, 2500, 12000]))


STREAMS = [Stream('large', large, 24, 288), Stream('read', read, 30000, 360000)]
