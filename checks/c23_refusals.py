"""C23: what can not be used is refused with the documented error, which is reported once, to the logger in charge; valid content reports none."""
import io
import logging
import os
import re
import sys

import numpy as np

from parsevasp.base import BaseParser
from parsevasp.doscar import Doscar
from parsevasp.incar import Incar
from parsevasp.kpoints import Kpoint, Kpoints
from parsevasp.outcar import Outcar
from parsevasp.poscar import Poscar, Site
from parsevasp.potcar import Potcar
from parsevasp.stream import Stream as VaspOutput, VaspStream
from parsevasp.vasprun import Xml

from rvlib import dos_gen, formats, incar_gen, kpoints_gen, outcar_gen, poscar_gen, stream_gen, xml_gen
from rvlib.core import Stream, call

PROPERTY = 'C23'
RULE = ('Random valid content in which exactly one documented mistake is made, at a random place, for every documented error; the content without the mistake is the control. '
        'A recording logger, the root logger and standard error are watched: the message of the error has to arrive once, and where it belongs.')
ASSUMPTIONS = ['Where the documentation only says that something is not supported, any refusal counts.']

NAMES = {}


class Recorder(logging.Logger):
    """A logger that keeps what it is told, whatever the process wide settings."""

    def __init__(self):
        super().__init__('recorder')
        self.records = []

    def isEnabledFor(self, level):  # noqa: N802
        return True

    def handle(self, record):
        self.records.append(record)


class Bystander(logging.Handler):
    """Sits at the root logger."""

    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append(record)


def scenario(func):
    """Register: func(rng, cx) gives (call of **logging, expected, call of the control or None)."""
    NAMES[func.__name__] = func
    return func


def own_loggers():
    return [log for name, log in logging.root.manager.loggerDict.items() if name.startswith('parsevasp') and isinstance(log, logging.Logger)]


def judged(rng, cx, thunk, expected, what):
    """Make the faulty call with a logger of the caller, or with the standard one, and judge what becomes of it."""
    supplied = rng.random() < .7
    bystander = Bystander()
    stderr, stdout = sys.stderr, sys.stdout
    # the standard loggers write to the standard error there is when they are made
    for log in own_loggers():
        for handler in list(log.handlers):
            log.removeHandler(handler)
    sys.stderr, sys.stdout = io.StringIO(), io.StringIO()
    disabled = logging.root.manager.disable
    level = logging.root.level
    logging.root.addHandler(bystander)
    logging.root.setLevel(1)
    logging.disable(logging.NOTSET)
    recorder = Recorder()
    try:
        out = call(thunk, **({'logger': recorder} if supplied else {}))
        err, printed = sys.stderr.getvalue(), sys.stdout.getvalue()
    finally:
        logging.disable(disabled)
        logging.root.setLevel(level)
        logging.root.removeHandler(bystander)
        sys.stderr, sys.stdout = stderr, stdout
        for log in own_loggers():
            for handler in list(log.handlers):
                log.removeHandler(handler)
    cx.check(not printed, 'printed', f'{what}: {printed[:300]}')
    if isinstance(expected, type):
        cx.event('oracle.raised')
        cx.check(out.kind == 'exc' and isinstance(out.exc, expected), 'refused-differently', f'{what}: expected {expected.__name__}, observed {out!r}\n{out.trace}')
        cx.check(str(out.exc).strip(), 'says-nothing', f'{what}: {out!r}')
        return
    cx.must_exit(out, [expected], 'refused-differently', what)
    text = BaseParser.ERROR_MESSAGES.get(expected) if expected not in (104, 105) else 'INCAR tag'
    if not text:
        return
    cx.event('oracle.logged')
    if supplied:
        told = [r for r in recorder.records if text in r.getMessage()]
        cx.check(len(told) == 1, 'not-reported', f'{what}: {text!r} reached the logger supplied {len(told)} times: {[r.getMessage() for r in recorder.records]}')
        cx.check(not bystander.records and not err, 'reported-elsewhere', f'{what}: {[r.getMessage() for r in bystander.records]} {err[:300]!r}')
        if expected not in (103, 506):
            cx.check(told[0].levelno >= logging.ERROR, 'reported-as-harmless', f'{what}: {told[0].levelname}')
    else:
        cx.event('oracle.standard-error')
        cx.check(err.count(text) == 1, 'not-reported', f'{what}: {text!r} is {err.count(text)} times on the standard error: {err[:600]!r}')


def refused(rng, cx):
    name = rng.choice(sorted(NAMES))
    cx.event('mistake.' + name)
    cx.sample(mistake=name)
    thunk, expected, control = NAMES[name](rng, cx)
    if control is not None:
        recorder = Recorder()
        cx.must(call(control, logger=recorder), 'control-rejected', name)
        told = [r.getMessage() for r in recorder.records if r.levelno >= logging.ERROR]
        cx.check(not told, 'error-for-valid', f'{name}: {told}')
        cx.event('control')
    judged(rng, cx, thunk, expected, name)
    cx.shape(name, repr(expected))


def quiet(rng, cx):
    """Valid content of any format, and every question: no error is reported."""
    one = formats.case(rng)
    cx.sample(format=one.name, text=one.text[:4000])
    recorder = Recorder()
    obj = cx.must(call(one.cls, file_path=cx.write(formats.data(one), one.name), logger=recorder, **one.kwargs), 'valid-rejected')
    formats.observe(cx, one, obj)
    told = [r.getMessage() for r in recorder.records if r.levelno >= logging.ERROR]
    cx.check(not told, 'error-for-valid', f'{one.name}: {told}')
    cx.event('quiet.' + one.name)
    cx.shape(one.name, len(one.text) // 50)


# --- any format

@scenario
def no_source(rng, cx):
    name = rng.choice(sorted(formats.FORMATS))
    cls = formats.FORMATS[name][0]
    expected = {'vasprun.xml': 510, 'POTCAR': ValueError}.get(name, 10)
    return cls, expected, None


@scenario
def two_sources(rng, cx):
    one = formats.case(rng, rng.choice(formats.WRITABLE))
    path = cx.write(one.text)
    obj = one.cls(file_path=path)
    given = dict(obj.get_dict()) if one.name == 'INCAR' else obj.entries
    ways = {'file_path': path, 'file_handler': io.StringIO(one.text), formats.STRING[one.name]: rng.choice([one.text, '']),
            formats.DICT[one.name]: rng.choice([given, {}])}
    pick = rng.sample(sorted(ways), rng.choice([2, 2, 3, 4]))
    if set(pick) == {'file_path', 'file_handler'}:
        pick.append(formats.DICT[one.name])
    cx.sample(sources=pick)
    return lambda **kw: one.cls(**{p: ways[p] for p in pick}, **kw), 10, lambda **kw: one.cls(file_path=path, **kw)


@scenario
def no_file(rng, cx):
    one = formats.case(rng)
    return lambda **kw: one.cls(file_path=cx.path('gone'), **one.kwargs, **kw), 14, None


@scenario
def bad_write(rng, cx):
    one = formats.case(rng, rng.choice(formats.WRITABLE))
    path, other = cx.write(one.text), cx.path('written')
    folder = cx.path('folder')
    os.mkdir(folder)
    wish, expected = rng.choice([({}, 10), ({'file_path': other, 'file_handler': io.StringIO()}, 10), ({'path': other}, 10), ({'file_path': ''}, 16), ({'file_path': None}, 16),
                                 ({'file_handler': None}, 15), ({'file_path': os.path.join(folder, 'no', 'file')}, 14), ({'file_path': folder}, 14)])
    cx.sample(format=one.name, wish=repr(wish))
    return lambda **kw: one.cls(file_path=path, **kw).write(**wish), expected, lambda **kw: one.cls(file_path=path, **kw).write(file_path=other)


# --- INCAR

def _incar(rng, cx, expected, bad, **kwargs):
    """One bad line among good ones."""
    lines, _, _, _ = incar_gen.build(rng)
    wrong = list(lines)
    where = rng.randint(0, len(wrong))
    if rng.random() < .3:
        bad = f'{rng.choice(incar_gen.plain_tags())} = 1; {bad}' if rng.random() < .5 else f'{bad}; ENCUT = 1'
    wrong.insert(where, bad)
    text, good = '\n'.join(wrong) + '\n', '\n'.join(lines) + '\n'
    cx.sample(text=text)
    how = rng.choice(['file_path', 'file_handler', 'incar_string'])

    def make(content):
        def run(**kw):
            if how == 'file_path':
                return Incar(file_path=cx.write(content), **kwargs, **kw)
            if how == 'file_handler':
                return Incar(file_handler=io.StringIO(content), **kwargs, **kw)
            return Incar(incar_string=content, **kwargs, **kw)
        return run
    return make(text), expected, make(good)


@scenario
def incar_unknown_tag(rng, cx):
    tag = rng.choice(incar_gen.tags())
    tag = rng.choice([tag + 'x', 'x' + tag, tag[:-1] + '_', 'nosuchtag', tag + '1', 'en-cut'])
    while tag in incar_gen.tags():
        tag += 'q'
    return _incar(rng, cx, 100, f'{incar_gen.random_case(rng, tag)} = {rng.randint(0, 9)}')


@scenario
def incar_unknown_tag_in_dict(rng, cx):
    _, model, _, _ = incar_gen.build(rng, raw=False)
    model = {k: v for k, v in model.items() if v != []}
    wrong = dict(model)
    wrong[rng.choice(['nosuchtag', 'ENCUTT', 'encu'])] = 1
    items = list(wrong.items())
    rng.shuffle(items)
    return lambda **kw: Incar(incar_dict=dict(items), **kw), 100, lambda **kw: Incar(incar_dict=dict(items), validate_tags=False, **kw)


@scenario
def incar_two_equals(rng, cx):
    tag = rng.choice(incar_gen.tags())
    return _incar(rng, cx, 101, rng.choice([f'{tag} = 1 = 2', f'{tag} == 1', f'{tag} = a=b', f'{tag}=1 ISMEAR=2']))


@scenario
def incar_no_equals(rng, cx):
    tag = rng.choice(incar_gen.tags())
    return _incar(rng, cx, 102, rng.choice([f'{tag} 1', f'{tag}', f'! {tag} 2', 'some text', f'{tag} : 3', '%']))


@scenario
def incar_mixed_types(rng, cx):
    tag = rng.choice(incar_gen.plain_tags())
    return _incar(rng, cx, 104, f'{tag} = ' + rng.choice(['1 2.0', '1.0 2', '1 abc', '0.5 none here', '1 .TRUE.', 'a 3', '1 2 3 4 5 6.0', '1 ! comment', '2 4 8*1']))


@scenario
def incar_two_comments(rng, cx):
    tag = rng.choice(incar_gen.tags())
    given = {'ismear': 0, tag: rng.choice(['1 # a # b', '#1#', 'x # # y'])}
    return lambda **kw: Incar(incar_dict=given, **kw), 103, lambda **kw: Incar(incar_dict={'ismear': 0, tag: '1 # a'}, **kw)


@scenario
def incar_bad_type(rng, cx):
    tag = rng.choice(incar_gen.plain_tags())
    bad = rng.choice([(1, 2), None, {'a': 1}, np.zeros(3), b'1', 1 + 2j, {1}, object()])
    if rng.random() < .5:
        return lambda **kw: Incar(incar_dict={'ismear': 0, tag: bad}, **kw), 105, lambda **kw: Incar(incar_dict={'ismear': 0, tag: 1}, **kw)
    return lambda **kw: Incar(incar_dict={'ismear': 0}, **kw).modify(tag, bad), 105, lambda **kw: Incar(incar_dict={'ismear': 0}, **kw).modify(tag, 1)


# --- POSCAR

def _poscar(rng, cx, text, good, expected):
    cx.sample(text=text)
    how = rng.choice(['file_path', 'file_handler', 'poscar_string'])
    kwargs = {'write_direct': rng.random() < .5, 'conserve_order': rng.random() < .5}

    def make(content):
        def run(**kw):
            if how == 'file_path':
                return Poscar(file_path=cx.write(content), **kwargs, **kw)
            if how == 'file_handler':
                return Poscar(file_handler=io.StringIO(content), **kwargs, **kw)
            return Poscar(poscar_string=content, **kwargs, **kw)
        return run
    return make(text), expected, make(good)


@scenario
def poscar_vasp_four(rng, cx):
    text = poscar_gen.build(rng)[0]
    lines = text.split('\n')
    wrong = lines[:5] + lines[6:]
    return _poscar(rng, cx, '\n'.join(wrong), text, 301)


@scenario
def poscar_negative_scaling(rng, cx):
    text = poscar_gen.build(rng)[0]
    lines = text.split('\n')
    lines[1] = rng.choice(['-1.0', '  -100.0', '-0.5 volume', '-1E-3', '-42'])
    return _poscar(rng, cx, '\n'.join(lines), text, 307)


@scenario
def poscar_velocities_broken(rng, cx):
    text, model, _ = poscar_gen.build(rng, velocities=True)
    lines = text.split('\n')
    at = 9 + (lines[7].strip()[:1].lower() == 's') + len(model['sites'])
    lines[at] = rng.choice(['x', 'Direct', '1.0.0 0 0', 'velocities 0 0 0'])
    return _poscar(rng, cx, '\n'.join(lines), text, 302)


def _poscar_given(rng):
    return poscar_gen.sites_for_dict(rng, poscar_gen.build(rng)[1])


@scenario
def poscar_key_missing(rng, cx):
    given = _poscar_given(rng)
    wrong = dict(given)
    key = rng.choice(['comment', 'sites', 'unitcell'])
    del wrong[key]
    if rng.random() < .4:
        # one of the sites is incomplete
        key = rng.choice(['specie', 'position', 'selective', 'velocities', 'predictors', 'direct'])
        site = poscar_gen.view_site(given['sites'][0])
        del site[key]
        wrong = {**given, 'sites': given['sites'] + [site]}
        rng.shuffle(wrong['sites'])
    cx.sample(key=key)
    return lambda **kw: Poscar(poscar_dict=wrong, **kw), 12, lambda **kw: Poscar(poscar_dict=given, **kw)


@scenario
def poscar_wrong_type(rng, cx):
    given = _poscar_given(rng)
    key, bad = rng.choice([('comment', 3), ('comment', ['x']), ('comment', b'x'), ('unitcell', given['unitcell'].tolist()), ('unitcell', 'cubic'),
                           ('unitcell', None), ('unitcell', np.ones(9)), ('unitcell', np.ones((1, 3, 3))), ('unitcell', np.eye(4)), ('unitcell', np.eye(3)[:2]),
                           ('sites', tuple(given['sites'])), ('sites', None), ('sites', {}), ('sites', given['sites'][0]),
                           ('sites', given['sites'] + [1]), ('sites', ['H'] + given['sites']), ('sites', [None])])
    cx.sample(key=key, bad=repr(bad))
    return lambda **kw: Poscar(poscar_dict={**given, key: bad}, **kw), 13, lambda **kw: Poscar(poscar_dict=given, **kw)


@scenario
def poscar_wrong_edit(rng, cx):
    given = _poscar_given(rng)
    number = len(given['sites'])
    args, kwargs, code = rng.choice([
        (('nothing', 1), {}, 305), (('site', Site('H', np.zeros(3))), {}, 305), (('comment', 5), {}, 13), (('unitcell', [[1, 0, 0]]), {}, 13), (('unitcell', np.ones(9)), {}, 13), (('unitcell', np.ones((9, 1))), {}, 13),
        (('unitcell', np.eye(3)[:2]), {}, 13),
        (('sites', Site('H', np.zeros(3))), {'site_number': number}, 304), (('sites', [1.0]), {}, 13), (('sites', 'H'), {'site_number': 0}, 13)])
    cx.sample(edit=repr((args, kwargs)))
    return lambda **kw: Poscar(poscar_dict=given, **kw).modify(*args, **kwargs), code, lambda **kw: Poscar(poscar_dict=given, **kw).modify('comment', 'fine')


@scenario
def poscar_wrong_delete(rng, cx):
    given = _poscar_given(rng)
    number, code = rng.choice([(len(given['sites']), 304), (10 ** 6, 304), ('0', 13), (0.5, 13), (None, 13)])
    return lambda **kw: Poscar(poscar_dict=given, **kw).delete_site(number), code, lambda **kw: Poscar(poscar_dict=given, **kw).delete_site(0)


# --- KPOINTS

def _kpoints(rng, cx, text, good, expected):
    cx.sample(text=text)
    how = rng.choice(['file_path', 'file_handler', 'kpoints_string'])

    def make(content):
        def run(**kw):
            if how == 'file_path':
                return Kpoints(file_path=cx.write(content), **kw)
            if how == 'file_handler':
                return Kpoints(file_handler=io.StringIO(content), **kw)
            return Kpoints(kpoints_string=content, **kw)
        return run
    return make(text), expected, make(good)


@scenario
def kpoints_cartesian(rng, cx):
    mode = rng.choice(['explicit', 'tetra', 'line'])
    text = kpoints_gen.build(rng, mode)[0]
    lines = text.split('\n')
    lines[3 if mode == 'line' else 2] = rng.choice(['Cartesian', 'c', 'K', 'cart', 'kartesisch'])
    return _kpoints(rng, cx, '\n'.join(lines), text, 200)


@scenario
def kpoints_tetra(rng, cx):
    text, model, _ = kpoints_gen.build(rng, 'tetra')
    lines = text.split('\n')
    at = 5 + len(model['points']) + rng.randrange(len(model['tetra']))
    toks = lines[at].split()
    lines[at] = ' '.join(rng.choice([toks[:4], toks + ['1'], toks[:1], toks + toks]))
    return _kpoints(rng, cx, '\n'.join(lines), text, 201)


@scenario
def kpoints_automatic(rng, cx):
    text = kpoints_gen.build(rng, rng.choice(['gamma', 'monkhorst']))[0]
    lines = text.split('\n')
    lines[2] = rng.choice(['Auto', 'A', 'a', 'automatic'])
    lines[3] = '10'
    return _kpoints(rng, cx, '\n'.join(lines[:4]), text, 202)


@scenario
def kpoints_expert(rng, cx):
    text = kpoints_gen.build(rng, 'generating')[0]
    lines = text.split('\n')
    lines[2] = rng.choice(['Cartesian', 'c', 'Direct', 'd', 'D'])
    return _kpoints(rng, cx, '\n'.join(lines), text, 203)


@scenario
def kpoints_key_missing(rng, cx):
    given = kpoints_gen.dict_source(kpoints_gen.build(rng)[1])
    key = rng.choice(['comment', 'shifts', 'tetra', 'tetra_volume', 'mode', 'centering', 'num_kpoints', 'points', 'divisions', 'generating_vectors'])
    wrong = {k: v for k, v in given.items() if k != key}
    cx.sample(key=key)
    left = any(wrong.get(k) is not None for k in ('points', 'divisions', 'generating_vectors'))
    return lambda **kw: Kpoints(kpoints_dict=wrong, **kw), 12 if left else 206, lambda **kw: Kpoints(kpoints_dict=given, **kw)


@scenario
def kpoints_nothing(rng, cx):
    given = kpoints_gen.dict_source(kpoints_gen.build(rng)[1])
    wrong = {**given, 'points': None, 'divisions': None, 'generating_vectors': None}
    return lambda **kw: Kpoints(kpoints_dict=wrong, **kw), 206, lambda **kw: Kpoints(kpoints_dict=given, **kw)


@scenario
def kpoints_wrong_type(rng, cx):
    given = kpoints_gen.dict_source(kpoints_gen.build(rng)[1])
    key, bad, code = rng.choice([('comment', 3, 13), ('divisions', (4, 4, 4), 13), ('divisions', [4, 4], 13), ('divisions', [4, 4, 4.0], 13), ('shifts', [0, 0, 0], 13), ('generating_vectors', [[1.0, 0.0, 0.0]] * 2 + [[0, 0, 1]], 13), ('generating_vectors', 1.0, 13),
                                 ('shifts', [0.0], 13), ('generating_vectors', [[1.0, 0.0, 0.0]], 13), ('tetra', [[1, 2, 3]], 201), ('tetra', [[1] * 6], 201), ('tetra', 'x', 13),
                                 ('tetra_volume', '1', 13), ('mode', 'grid', 213), ('centering', 'body', 212), ('num_kpoints', '3', 13), ('points', [1], 210),
                                 ('points', (1,), 13), ('points', [Kpoint(np.zeros(3), 1.0), None], 210)])
    cx.sample(key=key, bad=repr(bad))
    return lambda **kw: Kpoints(kpoints_dict={**given, key: bad}, **kw), code, lambda **kw: Kpoints(kpoints_dict=given, **kw)


@scenario
def kpoints_wrong_edit(rng, cx):
    given = kpoints_gen.dict_source(kpoints_gen.build(rng)[1])
    point = Kpoint(np.zeros(3), 1.0)
    edits = [(('nothing', 1), {}, 207), (('comments', 'x'), {}, 207), (('comment', 5), {}, 13), (('divisions', [1, 2]), {}, 13), (('shifts', [0, 0, 0]), {}, 13),
             (('centering', 'Body'), {}, 212), (('mode', 'grid'), {}, 213), (('mode', None), {}, 13), (('num_kpoints', None), {}, 13), (('num_kpoints', 1.0), {}, 13),
             (('tetra', [[1, 2, 3]]), {}, 201), (('tetra', [[1] * 5, [1] * 6]), {}, 201), (('tetra', 'x'), {}, 13), (('tetra_volume', 1), {}, 13), (('generating_vectors', [[1.0, 0.0]] * 3), {}, 13), (('generating_vectors', [[1.0, 0.0, 0.0]] * 2 + [[0, 0, 1]]), {}, 13),
             (('points', (point,)), {}, 13), (('points', [point, None]), {}, 210), (('points', [Kpoint(np.zeros(3), 1.0, direct=False)]), {}, 205),
             (('points', None), {'point_number': 0}, 210), (('points', point), {'point_number': '0'}, 13), (('points', point), {'point_number': 10 ** 6}, 211)]
    if given.get('points') is not None:
        edits += [(('points', point), {'point_number': len(given['points'])}, 211), (('points', Kpoint(np.zeros(3), 1.0, direct=False)), {'point_number': 0}, 205)]
    args, kwargs, code = rng.choice(edits)
    cx.sample(edit=repr((args, kwargs)))
    return lambda **kw: Kpoints(kpoints_dict=given, **kw).modify(*args, **kwargs), code, lambda **kw: Kpoints(kpoints_dict=given, **kw).modify('comment', 'fine')


@scenario
def kpoints_wrong_delete(rng, cx):
    given = kpoints_gen.dict_source(kpoints_gen.build(rng)[1])
    number, code = rng.choice([(len(given.get('points') or []), 211), (10 ** 6, 211), ('0', 13), (0.5, 13), (None, 13)])
    return lambda **kw: Kpoints(kpoints_dict=given, **kw).delete_point(number), code, lambda **kw: Kpoints(kpoints_dict=given, **kw)


# --- the outputs

@scenario
def outcar_no_iterations(rng, cx):
    one = formats.case(rng, 'OUTCAR')
    text = '\n'.join(line for line in one.text.split('\n') if 'Iteration' not in line)
    return lambda **kw: Outcar(file_handler=io.StringIO(text), **kw), 600, lambda **kw: Outcar(file_handler=io.StringIO(one.text), **kw)


@scenario
def doscar_unknown_columns(rng, cx):
    while True:
        lines, want, ncl, cut, _ = dos_gen.doscar(rng)
        if len(lines) > 7:
            break
    count = len(lines[-1].split())
    known = {True: (13, 17, 37, 65), False: (7, 9, 19, 33, 4, 5, 10, 17)}[ncl]
    block = want['metadata']['n_dos'] + 1
    if len(lines) <= 6 + block:
        # no projections: a column too many in the totals
        wrong = lines[:6] + [line + ' 0.1' for line in lines[6:]]
        return lambda **kw: Doscar(file_handler=io.StringIO('\n'.join(wrong) + '\n'), non_collinear=ncl, **kw), Exception, None
    extra = rng.randint(1, 3)
    while count + extra in known:
        extra += 1
    wrong = list(lines)
    for i in range(5 + block, len(lines)):
        if (i - 5) % block:
            wrong[i] += ' 0.1' * extra
    return (lambda **kw: Doscar(file_handler=io.StringIO('\n'.join(wrong) + '\n'), non_collinear=ncl, **kw), ValueError,
            lambda **kw: Doscar(file_handler=io.StringIO('\n'.join(lines) + '\n'), non_collinear=ncl, **kw))


@scenario
def potcar_unknown_attribute(rng, cx):
    one = formats.case(rng, 'POTCAR')
    name = rng.choice(['nosuch', 'enmaxx', 'Titels', 'x'])
    return lambda **kw: getattr(Potcar(file_handler=io.StringIO(one.text), **kw), name), AttributeError, lambda **kw: Potcar(file_handler=io.StringIO(one.text), **kw).titel


@scenario
def stream_configuration(rng, cx):
    good = stream_gen.entry(rng)
    key, bad = rng.choice([('kind', 'NOTE'), ('kind', 3), ('kind', None), ('message', 4), ('message', None), ('suggestion', 5), ('location', 'FILE'), ('location', None),
                           ('recover', 'yes'), ('recover', None), ('recover', 1), ('inverse', 'no'), ('inverse', 0)])
    name = 'own'
    cx.sample(key=key, bad=bad)
    if key == 'kind' and bad == 'NOTE' or rng.random() < .4:
        full = {'kind': 'ERROR', 'regex': 'x', 'message': 'y', 'suggestion': None, 'location': 'STDOUT', 'recover': True, 'inverse': False}
        if rng.random() < .15:
            return lambda **_: VaspStream(rng.choice([3, None]), **full), ValueError, None
        return lambda **_: VaspStream(name, **{**full, key: bad}), ValueError, lambda **_: VaspStream(name, **full)
    lines = '\n'.join(stream_gen.lines(rng))
    return (lambda **kw: VaspOutput(file_handler=io.StringIO(lines), config={name: {**good, key: bad}}, **kw), ValueError,
            lambda **kw: VaspOutput(file_handler=io.StringIO(lines), config={name: good}, **kw))


# --- vasprun.xml

def _xml(rng, text, **kwargs):
    source = io.BytesIO(text.encode('latin-1'))
    return lambda **kw: Xml(file_handler=source, **kwargs, **kw)


@scenario
def xml_status(rng, cx):
    text, _, feats = xml_gen.build(rng, small=True)
    status = rng.choice(['final', 'first', 'ALL', '', None, 1, 'al', 'initial '])
    what = rng.choice(['unitcell', 'positions', 'forces', 'stress', 'energies'])
    if 'no-' + what in feats or 'step.no-final' in feats and what == 'energies':
        what = 'positions'  # what the file does not have is None, whatever is asked for
    cx.sample(status=status, what=what)
    event = rng.random() < .5
    return (lambda **kw: getattr(_xml(rng, text, event=event)(**kw), 'get_' + what)(status), 507,
            lambda **kw: getattr(_xml(rng, text, event=event)(**kw), 'get_' + what)('all'))


@scenario
def xml_energy_type(rng, cx):
    text = xml_gen.build(rng, small=True)[0]
    bad = rng.choice(['energy_free', ('energy_free',), ['energy'], ['energy_free', 'x'], ['ENERGY_FREE'], [None], 3, {'energy_free': 1}])
    return (lambda **kw: _xml(rng, text)(**kw).get_energies('all', etype=bad), ValueError,
            lambda **kw: _xml(rng, text)(**kw).get_energies('all', etype=['energy_free', 'energy_no_entropy']))


@scenario
def xml_unknown_element(rng, cx):
    text, _, _ = xml_gen.build(rng, small=True)
    spots = list(re.finditer(r'<rc><c>(..)</c>', text))
    spot = rng.choice(spots)
    wrong = text[:spot.start(1)] + rng.choice(['Xx', 'D ', '1 ', 'Qq', 'hH']) + text[spot.end(1):]
    event = rng.random() < .5
    return _xml(rng, wrong, event=event), 506, _xml(rng, text, event=event)


@scenario
def xml_no_spin(rng, cx):
    text = ''
    while '<field>eigene</field>' not in text:
        text = xml_gen.build(rng, small=True, want={'eigenvalues'})[0]
    wrong = re.sub(r'\n.*name="ISPIN".*', '', text)
    return _xml(rng, wrong), 502, _xml(rng, text)


@scenario
def xml_no_bands(rng, cx):
    text = ''
    while '<field>eigene</field>' not in text:
        text = xml_gen.build(rng, small=True, want={'eigenvalues'})[0]
    start = text.index('<parameters>')
    wrong = text[:start] + re.sub(r'\n.*name="NBANDS".*', '', text[start:])
    return _xml(rng, wrong), 503, _xml(rng, text)


@scenario
def xml_row_missing(rng, cx):
    text, model, _ = xml_gen.build(rng, small=True, want={'eigenvalues'})
    while '<field>eigene</field>' not in text or model['nbands'] == 1:  # a set without any row counts as absent
        text, model, _ = xml_gen.build(rng, small=True, want={'eigenvalues'})
    at = text.index('<field>eigene</field>')
    rows = list(re.finditer(r'\n *<r>.*', text[at:text.index('</array>', at)]))
    spot = rng.choice(rows)
    wrong = text[:at + spot.start()] + text[at + spot.end():]
    event = rng.random() < .5
    return _xml(rng, wrong, event=event), 505, _xml(rng, text, event=event)


def _features(rng, wanted):
    while True:
        text, model, feats = xml_gen.build(rng, small=True, want={rng.choice(sorted(wanted))})
        if wanted & set(feats):
            return text, feats


@scenario
def xml_no_species(rng, cx):
    event = rng.random() < .7
    text, feats = _features(rng, {'partial', 'projectors', 'born', 'dynmat'} if event else {'projectors'})
    wrong = re.sub(r'\n *<atominfo>.*?</atominfo>', '', text, count=1, flags=re.S)
    cx.sample(event=event, feats=sorted(feats))
    return _xml(rng, wrong, event=event), 501, _xml(rng, text, event=event)


@scenario
def xml_no_kpoints(rng, cx):
    text = ''
    while '<field>eigene</field>' not in text:
        text = xml_gen.build(rng, small=True, want={'eigenvalues'} | rng.choice([set(), {'projectors'}]))[0]
    wrong = re.sub(r'\n *<kpoints>.*?</kpoints>', '', text, count=1, flags=re.S)
    event = rng.random() < .5
    return _xml(rng, wrong, event=event), 504, _xml(rng, text, event=event)


@scenario
def xml_overflow(rng, cx):
    text = ''
    while '<field>eigene</field>' not in text or 'kpoints_opt' in text:
        text, _, feats = xml_gen.build(rng, small=True, want={'eigenvalues'})
    places = [r'<field>eigene</field>', r'<varray name="basis" *>', r'<varray name="positions" *>', r'<i name="e_fr_energy">', r'name="ISPIN">', r'<varray name="forces" *>', r'<i name="efermi">']
    if 'step.no-final' in feats:
        places.remove(r'<i name="e_fr_energy">')  # without the final energies, there are none at all
    first, last = text.index('<calculation>'), text.rindex('</calculation>')  # what is outside is mostly not read
    spots = [[m for m in re.finditer(place, text) if first < m.start() < last and '<projected>' not in text[m.start() - 400:m.start()] or 'ISPIN' in place] for place in places]
    spots = [rng.choice(some) for some in spots if some]
    at = rng.choice(spots).end()
    number = re.compile(r'(?<![\w.])-?\d+(\.\d+)?([eE][-+]?\d+)?(?=[\s<])').search(text, at)
    wrong = text[:number.start()] + '*' * max(4, number.end() - number.start()) + text[number.end():]
    event = rng.random() < .5
    cx.sample(event=event, around=wrong[at - 60:number.end() + 20])
    return _xml(rng, wrong, event=event), 509, _xml(rng, text, event=event)


REQUIRED = {'mistake.' + name: 40 for name in NAMES}
REQUIRED.update({'quiet.' + name: 10 for name in formats.FORMATS})
REQUIRED.update({'oracle.logged': 1000, 'oracle.standard-error': 300, 'control': 1500})
STREAMS = [Stream('refused', refused, 30000, 360000), Stream('quiet', quiet, 900, 10800)]
