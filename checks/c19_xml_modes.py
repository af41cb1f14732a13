"""C19: parsing a vasprun.xml in events gives what parsing it whole gives, however the file is handed over and buffered."""
import glob
import importlib.util
import io
import os
import re
import sys

from parsevasp.vasprun import Xml

from rvlib import cmp, core, xml_gen as gen, xml_oracle as oracle
from rvlib.core import Stream, call

PROPERTY = 'C19'
CHUNK = 32768  # lxml hands the file to its parser in pieces of this size
RULE = ('Random vasprun.xml files, and the real ones that come with the repository, shifted so that a chosen number, tag or line end falls on '
        'or next to a multiple of the 32 KB read buffer; each parsed whole and in events, from path, memory, binary and text file, and '
        'twice from the same handler; with letters beyond ASCII in the encodings a file can declare; and with lxml unavailable; results compared entry by entry.')
ASSUMPTIONS = ['For a single ionic step, the whole parse gives that step as both the first and the second entry; events give it once.']
WANT = ('spin', 'ncl', 'partial', 'projectors', 'interpolated', 'velocities', 'dielectrics', 'born', 'dynmat', 'epsilon', 'kpoints-opt')
REQUIRED = {'modes.compared': 200, 'boundary.inside-number': 50, 'boundary.number-edge': 50, 'boundary.tag': 50, 'fixture.compared': 10,
            'handlers.compared': 50, 'fallback.compared': 200, 'encodings.compared': 200, 'encoding.utf-8': 50,
            'encoding.iso-8859-1': 50}


def normal(xml):
    """What the instance holds, with the documented differences of representation between the modes removed."""
    out = cmp.freeze(xml.get_dict())
    data = out['data']
    for group, name in ((out['lattice'], 'unitcell'), (out['lattice'], 'positions'), (data, 'forces'), (data, 'stress')):
        entries = group[name]
        if entries is not None:
            if all(val is None for val in entries.values()):
                group[name] = None
            elif set(entries) == {1, 2} and cmp.same(entries[1], entries[2]):
                group[name] = {1: entries[1]}
    if data['dielectrics'] is not None and all(val is None for val in data['dielectrics'].values()):
        data['dielectrics'] = None
    out['version'] = call(xml.get_version).value
    return out


def compare(cx, data, label, **kwargs):
    """data: bytes of the file."""
    results = {}
    for event in (False, True):
        xml = cx.must(call(Xml, file_handler=io.BytesIO(data), event=event, **kwargs), 'valid-rejected', f'{label} event={event}')
        results[event] = normal(xml)
    res = cmp.diff(results[False], results[True])
    cx.check(res is None, 'modes-differ', f'{label}: whole (expected) and events (observed): {res}')
    cx.event('modes.compared')


def shift_to(rng, data, target):
    """Lengthen the subversion entry so that the byte at `target` falls at or next to a multiple of the buffer."""
    tag = b'name="subversion" type="string">'
    at = data.find(tag)
    if at < 0 or at > target:
        return data
    at += len(tag)
    pad = (CHUNK - target) % CHUNK + rng.choice([-2, -1, 0, 0, 1, 2])
    if pad < 0:
        pad += CHUNK
    return data[:at] + b'x' * pad + data[at:]


def pick(rng, data, cx):
    """A position of interest in the second half of the file."""
    start = rng.randrange(len(data) // 4, len(data))
    kind = rng.choice(['inside-number', 'number-edge', 'tag'])
    pattern = {'inside-number': rb'\d\.\d', 'number-edge': rb' -?\d', 'tag': rb'</?[a-z]+'}[kind]
    found = re.compile(pattern).search(data, start)
    if found is None:
        return start
    cx.event('boundary.' + kind)
    return rng.randint(found.start(), found.end() - 1)


def wanted(rng):
    """Some of the less common entries, more often than they come by themselves."""
    return set(rng.sample(WANT, rng.choice([0, 1, 2, 3]))) | {'eigenvalues', 'dos'} if rng.random() < .5 else None


def boundary(rng, cx):
    text, model, feats = gen.build(rng, small=rng.random() < .5, want=wanted(rng))
    kwargs = {'k_before_band': rng.random() < .5}
    for _ in range(3):
        data = text.encode('latin-1')
        data = shift_to(rng, data, pick(rng, data, cx))
        cx.sample(text=data[:200].decode('latin-1'), size=len(data))
        cx.case['text'] = data.decode('latin-1')
        compare(cx, data, 'generated', **kwargs)
        xml = cx.must(call(Xml, file_handler=io.BytesIO(data), event=True, **kwargs), 'valid-rejected')
        oracle.structures(cx, xml, model)
        oracle.parameters(cx, xml, model)
        oracle.electronic(cx, xml, model, kwargs['k_before_band'])
        oracle.response(cx, xml, model)
        oracle.energies(cx, xml, model, rng)
        cx.shape(len(data) // CHUNK, sorted(feats))


def handlers(rng, cx):
    text, _, feats = gen.build(rng, small=True, want=wanted(rng))
    event = rng.random() < .5
    data = text.encode('latin-1')
    base = normal(cx.must(call(Xml, file_handler=io.BytesIO(data), event=event), 'valid-rejected'))
    for how in oracle.WAYS:
        other = normal(cx.must(oracle.read(cx, text, how, event=event), 'valid-rejected', how))
        res = cmp.diff(base, other, where=how)
        cx.check(res is None, 'sources-differ', res)
    path = cx.write(data, 'vasprun.xml')
    with open(path, 'rb') as handle:
        handle.seek(rng.randrange(len(data)))
        for turn in range(2):
            other = normal(cx.must(call(Xml, file_handler=handle, event=event), 'valid-rejected', f'used handler, turn {turn}'))
            res = cmp.diff(base, other, where=f'used handler {turn}')
            cx.check(res is None, 'sources-differ', res)
    cx.event('handlers.compared')
    cx.shape(event, sorted(feats), len(data))


def fixture(rng, cx):
    names = sorted(glob.glob(os.path.join(core.REPO, 'tests', '*.xml')))
    if not names:
        return
    name = rng.choice(names)
    with open(name, 'rb') as handle:
        data = handle.read()
    if b'****' in data or b'</modeling>' not in data[-200:]:
        outs = [call(Xml, file_handler=io.BytesIO(data), event=event) for event in (False, True)]
        if not outs[0].ok or not outs[1].ok:
            cx.check(outs[0].kind == outs[1].kind == 'exit' and outs[0].value == outs[1].value, 'modes-differ', f'{name} {outs}')
            cx.event('fixture.rejected')
            return
    data = shift_to(rng, data, pick(rng, data, cx))
    cx.sample(name=os.path.basename(name), size=len(data))
    compare(cx, data, os.path.basename(name), k_before_band=rng.random() < .5)
    cx.event('fixture.compared')
    cx.shape(name, len(data) % CHUNK)


def without_lxml():
    """The module as it is where lxml is not installed."""
    saved = {name: mod for name, mod in sys.modules.items() if name == 'lxml' or name.startswith('lxml.')}
    for name in saved:
        del sys.modules[name]
    sys.modules['lxml'] = None
    try:
        spec = importlib.util.find_spec('parsevasp.vasprun')
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        return module
    finally:
        del sys.modules['lxml']
        sys.modules.update(saved)


FALLBACK = []


def fallback(rng, cx):
    """Without lxml the standard library parses the file, to the same result."""
    if not FALLBACK:
        FALLBACK.append(cx.must(call(without_lxml), 'not-usable-without-lxml'))
    text, model, feats = gen.build(rng, small=rng.random() < .5, want=wanted(rng))
    data = text.encode('latin-1')
    event, kwargs = rng.random() < .5, {'k_before_band': rng.random() < .5, 'extract_all': rng.random() < .7}
    cx.sample(text=text, event=event, kwargs=kwargs)
    base = normal(cx.must(call(Xml, file_handler=io.BytesIO(data), event=event, **kwargs), 'valid-rejected'))
    other = normal(cx.must(call(FALLBACK[0].Xml, file_handler=io.BytesIO(data), event=event, **kwargs), 'valid-rejected', 'without lxml'))
    res = cmp.diff(base, other)
    cx.check(res is None, 'fallback-differs', f'with (expected) and without lxml (observed): {res}')
    if not event:
        other = normal(cx.must(call(FALLBACK[0].Xml, file_path=cx.write(data, 'vasprun.xml'), **kwargs), 'valid-rejected', 'without lxml'))
        res = cmp.diff(base, other)
        cx.check(res is None, 'fallback-differs', f'with (expected) and without lxml (observed), path: {res}')
    cx.event('fallback.compared')
    cx.shape(event, sorted(feats), sorted(kwargs.items()))


LETTERS = 'éÅµ°ßñÿ¿'


def encodings(rng, cx):
    """Names and comments with letters beyond ASCII, in the encoding the file declares, all of it, or only what was written before the run ended."""
    text, model, feats = gen.build(rng, small=True, want=wanted(rng))
    name = model['parameters']['system']
    encoding = rng.choice(['ISO-8859-1', 'UTF-8', 'utf-8', 'us-ascii'])
    letters = LETTERS if encoding != 'us-ascii' else 'xyz'
    if name is not None:
        other = ''.join(rng.choice(letters + 'ab ') for _ in range(rng.randint(1, 30))) + rng.choice(letters)
        other = rng.choice(letters) + other
        at = text.index('name="SYSTEM">', text.index('<parameters'))
        head, tail = text[:at], text[at:]
        start, end = tail.index('>') + 1, tail.index('</i>')
        text = head + tail[:start] + other + tail[end:]
    text = text.replace('ISO-8859-1', encoding, 1)
    # Anywhere in what is looked at to find whether the file is complete
    remark = '<!-- ' + ''.join(rng.choice(letters) for _ in range(rng.choice([5, 500, 700, 1200]))) + rng.choice(['', ' ']) + '-->\n'
    text = text.replace('</modeling>', remark + '</modeling>')
    event = rng.random() < .5
    cut = not event and rng.random() < .3
    if cut:
        text = text[:text.rindex(remark) + len(remark) - rng.choice([0, 1, 3, 4])]
    data = text.encode(encoding)
    cx.sample(text=text, encoding=encoding, event=event)
    path = cx.write(data, 'vasprun.xml')
    base = cx.must(call(Xml, file_path=path, event=event), 'valid-rejected')
    cx.check(base.truncated is cut, 'wrong-truncation', base.truncated)
    if name is not None and not cut:
        cx.check(base.get_parameters()['system'] == other, 'wrong-system', f'{base.get_parameters()["system"]!r}, not {other!r}')
    base = normal(base)
    for how in ('text', 'binary', 'bytes', 'wrapped'):
        if how == 'bytes':
            handle = io.BytesIO(data)
        elif how == 'wrapped':
            handle = io.TextIOWrapper(io.BytesIO(data), encoding=encoding)
        else:
            handle = open(path, 'rb' if how == 'binary' else 'r', encoding=None if how == 'binary' else encoding)  # pylint: disable=consider-using-with
        with handle:
            got = cx.must(call(Xml, file_handler=handle, event=event), 'valid-rejected', f'{how} {encoding}')
            cx.check(got.truncated is cut, 'wrong-truncation', f'{how} {encoding}: {got.truncated}')
            res = cmp.diff(base, normal(got), where=f'{how} {encoding}')
            cx.check(res is None, 'sources-differ', res)
    cx.event('encodings.compared')
    cx.event('encoding.' + encoding.lower())
    cx.shape(encoding, event, cut, name is None, sorted(feats))


STREAMS = [Stream('encodings', encodings, 600, 7200), Stream('boundary', boundary, 2250, 27000), Stream('handlers', handlers, 1200, 14400), Stream('fixture', fixture, 96, 1200),
           Stream('fallback', fallback, 450, 5400)]
