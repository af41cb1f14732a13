"""C20: a truncated or overflowed vasprun.xml is recognised, and what is still reported from it is what the file held."""
import io
import re

import numpy as np
from parsevasp.vasprun import Xml

from rvlib import cmp, xml_gen as gen, xml_oracle as oracle
from rvlib.core import Stream, call

PROPERTY = 'C20'
RULE = ('Random vasprun.xml files cut at a random byte, line, inside a number or right before a spin, ion or step, parsed whole (all steps, or '
        'first and last) and in events; and whole files in which one number is overflowed (asterisks) or blanked, in and outside of what is '
        'extracted. Everything reported is compared with the undamaged content.')
ASSUMPTIONS = ['An entry of a truncated file may be missing, or hold the first of its rows; events may refuse the file.']
REQUIRED = {'cut.reported': 300, 'cut.refused': 50, 'cut.inside-number': 100, 'cut.before-set': 100, 'cut.in-steps': 100, 'overflow.rejected': 100,
            'overflow.unaffected': 50, 'cut.event-refused': 50, 'cut.text-handler': 50,
            'row.glued': 50, 'row.blank': 50, 'row.softened': 100, 'wide.reported': 50}
CODES = {500, 501, 502, 503, 504, 505, 506, 509}


def prefix(cx, got, want, what, codes=None):
    """`got` is missing, or the first rows of the truth."""
    if got is None:
        return
    cx.event('cut.entries')
    if want is None:
        cx.fail('fabricated', f'{what}: the file has none, observed {got}')
    got = np.asarray(got)
    want = np.asarray(want)
    ok = got.ndim == want.ndim and got.shape[1:] == want.shape[1:] and len(got) <= len(want)
    cx.check(ok and np.array_equal(got, want[:len(got)]), 'fabricated', lambda: f'{what}: truth {want}, observed {got}')


def whole(cx, got, want, what):
    """`got` is missing, or all of the truth."""
    if got is None:
        return
    cx.event('cut.entries')
    res = cmp.diff(want, got, where=what)
    cx.check(res is None, 'fabricated', res)


def judge_steps(cx, got, truth, nsteps, every, what):
    if got is None:
        return
    if all(val is None for val in got.values()):
        return
    if every:
        keys = sorted(got)
        known = sorted(truth)
        cx.event('cut.steps')
        if keys == [1, 2] and cmp.same(got[1], got[2]):
            # one step only is given as both the first and the last
            whole(cx, got[1], truth.get(1), what)
            if cmp.diff(truth.get(2), got[2]) is not None:
                whole(cx, got[2], truth.get(1), what)
            return
        cx.check(keys == known[:len(keys)], 'fabricated', f'{what}: steps {keys} of {known}')
        for key in keys:
            res = cmp.diff(truth[key], got[key], where=f'{what}[{key}]')
            cx.check(res is None, 'fabricated', res)
    else:
        res = cmp.diff(truth.get(1), got[1], where=f'{what}[1]')
        cx.check(got[1] is None or res is None, 'fabricated', res)
        cx.check(got[2] is None or any(cmp.same(got[2], val) for val in truth.values()), 'fabricated', f'{what} last {got[2]}')


def judge(cx, xml, model, every, kfirst, have):
    """have: the last step whose closing structure tag is in the file."""
    got = xml.get_dict()
    par, lat, dat = got['parameters'], got['lattice'], got['data']
    for key, val in par.items():
        if val is not None:
            res = cmp.diff(model['parameters'][key], val, where=key)
            cx.check(res is None, 'fabricated', res)
    out = call(xml.get_version)
    version = cx.must(out, 'getter-failed')
    cx.check(version in (None, model['version']), 'fabricated', f'version {version}')
    num = model['steps']
    mlat, mdat = model['lattice'], model['data']
    for name in ('species', 'kpoints', 'kpointsw'):
        prefix(cx, lat[name], mlat[name], name)
    whole(cx, lat['kpointdiv'], mlat['kpointdiv'], 'kpointdiv')
    judge_steps(cx, lat['unitcell'], mlat['unitcell'], num, every, 'unitcell')
    judge_steps(cx, lat['positions'], mlat['positions'], num, every, 'positions')
    judge_steps(cx, dat['forces'], mdat['forces'], num, every, 'forces')
    judge_steps(cx, dat['stress'], mdat['stress'], num, every, 'stress')
    # the last structure reported is the last one that the file holds completely
    last = cx.must(call(xml.get_positions, 'last'), 'getter-failed')
    if last is not None:
        good = [val for key, val in mlat['positions'].items() if key >= have - 1]
        cx.check(any(cmp.same(last, val) for val in good), 'stale-last', lambda: f'positions of step {have} are in the file, observed {last}')
    if dat['totens'] is not None:
        for key, val in dat['totens'].items():
            res = cmp.diff(mdat['totens'].get(key), val, where=f'totens[{key}]', strict=False)
            cx.check(res is None, 'fabricated', res)
    for name in ('eigenvalues', 'occupancies', 'eigenvalues_specific', 'eigenvelocities'):
        whole(cx, dat[name], gen.oriented(mdat[name], kfirst), name)
    whole(cx, dat['projectors'], gen.oriented_projectors(mdat['projectors'], kfirst), 'projectors')
    prefix(cx, dat['kpoints'], mdat['kpoints'], 'kpoints') if dat['kpoints'] is not None else None
    prefix(cx, dat['hessian'], mdat['hessian'], 'hessian')
    whole(cx, dat['born'], mdat['born'], 'born')
    if dat['dynmat'] is not None:
        whole(cx, dat['dynmat']['eigenvalues'], mdat['dynmat']['eigenvalues'], 'dynmat')
        prefix(cx, dat['dynmat']['eigenvectors'], mdat['dynmat']['eigenvectors'], 'eigenvectors')
    for name in ('dos', 'dos_specific'):
        if dat[name] is None:
            continue
        truth = mdat[name]
        cx.check(truth is not None and set(truth) == set(dat[name]), 'fabricated', f'{name}: {sorted(dat[name])} of {truth and sorted(truth)}')
        for chan, entries in dat[name].items():
            for key, val in entries.items():
                if key == 'fermi_level':
                    cx.check(val in (None, truth[chan][key]), 'fabricated', f'{name} {key}')
                elif key == 'partial':
                    whole(cx, val, truth[chan][key], f'{name} partial')
                else:
                    prefix(cx, val, truth[chan][key], f'{name} {chan} {key}')
    if dat['dielectrics'] is not None:
        truth = mdat['dielectrics'] or {}
        for key, val in dat['dielectrics'].items():
            prefix(cx, val, truth.get(key), key)


def cut_at(rng, text, cx):
    """Where the file ends, always before the end of the document."""
    end = text.rfind('</modeling>')
    kind = rng.choice(['byte', 'line', 'inside-number', 'before-set', 'in-steps', 'late'])
    start = rng.randrange(end)
    if kind == 'byte':
        pos = start
    elif kind == 'line':
        pos = text.find('\n', start) + 1
    elif kind == 'late':
        pos = rng.randint(max(0, end - 400), end)
    else:
        if kind == 'in-steps':
            first = text.find('<calculation>')
            last = text.rfind('</structure>', 0, text.rfind('<structure name="finalpos"'))
            pos = rng.randint(first, max(first, last))
        elif kind == 'inside-number':
            found = re.compile(r'\d\.\d\d\d').search(text, start)
            pos = found.start() + rng.randint(0, 5) if found else start
        else:
            found = re.compile(r' *<(set comment|varray|array|r>|v>|energy|structure|dos|partial|projected)').search(text, start)
            pos = found.start() if found else start
    pos = min(pos, end)
    cx.event('cut.' + kind)
    return pos


def truncated(rng, cx):
    want = set(rng.sample(('spin', 'ncl', 'partial', 'projectors', 'interpolated', 'velocities', 'dielectrics', 'born', 'dynmat'), rng.choice([0, 1, 2])))
    text, model, feats = gen.build(rng, small=True, want=want)
    kfirst = rng.random() < .5
    for _ in range(3):
        pos = cut_at(rng, text, cx)
        part = text[:pos]
        if part.endswith('\n') or not part:
            part += rng.choice(['', '', '\n', '\n\n'])
        cx.case.update(text=part, full=text)
        every = rng.random() < .6
        how = rng.choice(['path', 'bytes', 'bytes', 'text-file'])
        out = oracle.read(cx, part, how, extract_all=every, k_before_band=kfirst)
        if how == 'text-file':
            cx.event('cut.text-handler')
        cx.shape(pos, every, how)
        if not out.ok:
            if out.kind == 'exit':
                cx.check(out.value in CODES, 'undocumented-exit', f'{out!r}')
            else:
                # only a file in which nothing is left to be read may be refused by the XML library
                cx.check(pos < text.find('<modeling>') + len('<modeling>') + 1, 'truncated-crashed', f'{out!r}\n{out.trace}')
            cx.event('cut.refused')
        else:
            xml = out.value
            cx.check(xml.truncated is True, 'truncation-missed')
            inside = part[part.find('<calculation>'):] if '<calculation>' in part else ''
            have = len(re.findall(r'</structure>', inside)) if inside else 0
            judge(cx, xml, model, every, kfirst, min(have, model['steps']))
            cx.event('cut.reported')
        # in events, the file is refused, as it is not well-formed
        out = oracle.read(cx, part, 'bytes', event=True)
        cx.check(not out.ok, 'truncation-missed', 'events accepted a truncated file')
        cx.event('cut.event-refused')


STARS = re.compile(r'(?<=[ >])-?\d+\.\d+(E[-+]\d+)?')


def overflow(rng, cx):
    want = set(rng.sample(('spin', 'ncl', 'partial', 'projectors', 'interpolated', 'velocities', 'dielectrics', 'born', 'dynmat', 'epsilon', 'dos'),
                          rng.choice([1, 2, 3])))
    text, model, feats = gen.build(rng, small=True, want=want)
    found = [hit for hit in STARS.finditer(text, text.find('<kpoints>')) if not text.endswith('SYSTEM">', 0, hit.start())]
    for _ in range(3):
        hit = rng.choice(found)
        damage = '*' * len(hit.group()) if len(hit.group()) >= 4 else '****'
        part = text[:hit.start()] + damage + text[hit.end():]
        cx.case.update(text=part, full=text, damaged=text[max(0, hit.start() - 200):hit.end() + 40])
        event = rng.random() < .5
        every = rng.random() < .7
        kfirst = rng.random() < .5
        out = call(Xml, file_handler=io.BytesIO(part.encode('latin-1')), event=event, extract_all=every, k_before_band=kfirst)
        cx.shape(hit.start(), event)
        if out.kind == 'exit':
            cx.check(out.value == 509, 'wrong-exit', f'{out!r}')
            cx.event('overflow.rejected')
            continue
        xml = cx.must(out, 'overflow-crashed')
        # nothing that is extracted was overflowed: all of it has to be there
        oracle.structures(cx, xml, model, every=every or event)
        oracle.parameters(cx, xml, model)
        oracle.energies(cx, xml, model, rng)
        oracle.electronic(cx, xml, model, kfirst)
        oracle.response(cx, xml, model)
        cx.event('overflow.unaffected')


def softened(cx, got, want, what):
    """`got` equals the truth but for entries that are missing, or not numbers."""
    if got is None:
        return
    if isinstance(want, dict):
        for key, val in got.items():
            softened(cx, val, want.get(key), f'{what}[{key}]')
        return
    if isinstance(want, np.ndarray) and isinstance(got, np.ndarray):
        if want.ndim == 1 and len(got) < len(want) and np.array_equal(got, want[:len(got)]):
            return
        if got.ndim == want.ndim and got.shape[:-1] == want.shape[:-1]:
            want = want[..., :got.shape[-1]]
        cx.check(got.shape == want.shape and bool(np.all((got == want) | np.isnan(got.astype(float)))), 'fabricated',
                 lambda: f'{what}: truth {want}, observed {got}')
        return
    res = cmp.diff(want, got, where=what)
    cx.check(res is None or (isinstance(got, float) and np.isnan(got)), 'fabricated', res)


ROW = re.compile(r'<[rv]> +-?\d+\.\d+ (?:.*\d )?</[rv]>')


def incomplete(rng, cx):
    """A row in which numbers run into each other, as they do when they fill their field, or with the only number missing."""
    want = set(rng.sample(('spin', 'ncl', 'partial', 'projectors', 'interpolated', 'velocities', 'dielectrics', 'born', 'dynmat', 'epsilon', 'dos'),
                          rng.choice([1, 2, 3])))
    text, model, feats = gen.build(rng, small=True, want=want)
    event = rng.random() < .5
    truth = call(Xml, file_handler=io.BytesIO(text.encode('latin-1')), event=event)
    truth = cx.must(truth, 'valid-rejected').get_dict()
    found = list(ROW.finditer(text))
    single = [hit for hit in found if len(hit.group().split()) == 3]
    for _ in range(3):
        hit = rng.choice(single if single and rng.random() < .2 else found)
        words = hit.group().split()
        if len(words) == 3:
            del words[1]
            cx.event('row.blank')
        else:
            which = rng.randrange(1, len(words) - 2)
            words[which:which + 2] = [words[which] + '-' + words[which + 1].lstrip('-')]
            cx.event('row.glued')
        part = text[:hit.start()] + ' '.join(words) + text[hit.end():]
        cx.case.update(text=part, full=text, damaged=' '.join(words), was=hit.group())
        out = call(Xml, file_handler=io.BytesIO(part.encode('latin-1')), event=event)
        cx.shape(hit.start(), event)
        if not out.ok:
            cx.event('row.refused')
            continue
        softened(cx, out.value.get_dict(), truth, '')
        cx.event('row.softened')


def wide(rng, cx):
    """Files cut in rows longer than any fixed look-back."""
    text, model, feats = gen.build(rng, small=True, want={'dynmat'}, natoms=rng.choice([22, 25, 40]))
    start = text.find('<dynmat>')
    pos = rng.randint(start, text.find('</dynmat>'))
    part = text[:pos]
    cx.sample(text=part[-3000:], pos=pos)
    out = oracle.read(cx, part, rng.choice(['path', 'bytes', 'text-file']))
    xml = cx.must(out, 'truncated-rejected')
    cx.check(xml.truncated is True, 'truncation-missed')
    judge(cx, xml, model, True, False, model['steps'])
    cx.event('wide.reported')
    cx.shape(pos)


STREAMS = [Stream('truncated', truncated, 5000, 60000), Stream('overflow', overflow, 3000, 36000),
           Stream('incomplete', incomplete, 1500, 18000), Stream('wide', wide, 300, 3600)]
