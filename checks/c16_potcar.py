"""C16: metadata read from POTCAR is what the control section says, with the right types and units."""
import copy
import io

from parsevasp.potcar import Potcar

from rvlib import chg_gen as gen, cmp
from rvlib.core import Stream, call

PROPERTY = 'C16'
RULE = ('Random POTCAR control sections: all functionals, fractional and decorated symbols, several titles, optional keys, two values '
        'on a line, decoys and further potentials after the section; attributes compared in any letter case, unknown ones refused.')
ASSUMPTIONS = []
REQUIRED = {'functional.' + f: 20 for f in gen.FUNCTIONALS}
REQUIRED.update({'feat.hash': 100, 'feat.lower-functional': 50, 'feat.exponents': 50, 'feat.wide-title': 50, 'feat.several': 200, 'unknown-attribute': 500})


def metadata(rng, cx):
    text, meta, props, feats, lexch = gen.potcar(rng)
    if rng.random() < .15:
        # those of the other species of the structure follow in the same file; the first one is the one described
        text += ''.join(gen.potcar(rng)[0] for _ in range(rng.choice([1, 1, 2])))
        feats.add('several')
    cx.sample(text=text)
    cx.event('functional.' + lexch)
    for feat in feats:
        cx.event('feat.' + feat)
    cx.shape(sorted(feats), props, lexch, sorted(meta))
    how = rng.choice(['path', 'memory', 'crlf'])
    if how == 'memory':
        out = call(Potcar, file_handler=io.StringIO(text))
    else:
        out = call(Potcar, file_path=cx.write(text.replace('\n', '\r\n') if how == 'crlf' else text, 'POTCAR'))
    pot = cx.must(out, 'valid-rejected', how)
    res = cmp.diff(meta, pot.metadata, where='metadata')
    cx.check(res is None, 'wrong-metadata', res)
    for key, val in meta.items():
        for name in (key.lower(), key, key.capitalize()):
            got = cx.must(call(getattr, pot, name), 'lookup', name)
            res = cmp.diff(val, got, where=name)
            cx.check(res is None, 'wrong-metadata', res)
    for key, val in props.items():
        got = cx.must(call(getattr, pot, key), 'lookup', key)
        if key == 'functional' and lexch == 'WI':
            cx.check(isinstance(got, str) and got.startswith('Wigner'), 'wrong-property', got)
            continue
        cx.check(got == val, 'wrong-property', f'{key}: expected {val!r}, observed {got!r}')
    for name in ('nothing', 'enmaxx', 'SHA256' if 'hash' not in feats else 'xyz'):
        cx.check(not hasattr(pot, name), 'unknown-attribute', name)
        cx.event('unknown-attribute')
    if rng.random() < .03:
        other = copy.deepcopy(pot)
        cx.check(cmp.same(other.metadata, pot.metadata) and other.symbol == pot.symbol, 'copy', 'a copy is not the same')


STREAMS = [Stream('metadata', metadata, 20000, 240000)]
