"""C27: the helpers the parsers share convert, recognise, read, open and write as they document."""
import io
import logging
import math
import os
from fractions import Fraction

import numpy as np

from parsevasp import utils
from parsevasp.base import BaseParser, open_close_file_handler

from rvlib import cmp
from rvlib.core import Stream, call

PROPERTY = 'C27'
RULE = ('Random cells (left handed, sheared, of any scale) and positions, one or many, given as arrays or lists; random texts of numbers and words as Fortran and Python write them; '
        'random files, encodings, identifiers, handlers and parsers derived from the base class. The coordinates are compared with exact rational arithmetic, the rest with what the texts were made from.')
ASSUMPTIONS = ['Rounding is allowed for in proportion to the condition of the cell.']
REQUIRED = {'coordinates.many': 200, 'coordinates.left-handed': 200, 'coordinates.list': 100, 'coordinates.thin': 200, 'text.integer': 200, 'text.float': 200, 'text.word': 200, 'text.special': 50, 'text.no-letter': 200,
            'line.handle': 200, 'line.one': 100, 'line.none': 50, 'line.no-split': 100, 'parameter.given': 200, 'parameter.other': 200, 'file.identifiers': 100, 'file.one-identifier': 50,
            'file.whole': 100, 'file.handler-first': 100, 'file.encoding': 50, 'file.missing': 50, 'open.write': 100, 'open.append': 50, 'exists.no': 50, 'newline.file': 50, 'newline.memory': 50, 'newline.several': 50,
            'derived.path': 50, 'derived.handler': 50}


# --- coordinates

def exact_inverse(rows):
    """The inverse of a matrix of fractions, by cofactors."""
    a = rows
    cof = [[a[(j + 1) % 3][(i + 1) % 3] * a[(j + 2) % 3][(i + 2) % 3] - a[(j + 1) % 3][(i + 2) % 3] * a[(j + 2) % 3][(i + 1) % 3] for j in range(3)] for i in range(3)]
    det = sum(a[0][k] * cof[k][0] for k in range(3))
    if det == 0:
        return None, det
    return [[cof[i][j] / det for j in range(3)] for i in range(3)], det


def times(vector, rows):
    return [sum(vector[k] * rows[k][j] for k in range(3)) for j in range(3)]


def coordinates(rng, cx):
    scale = 10. ** rng.choice([0, 0, 0, 1, 2, -3, 5])
    while True:
        kind = rng.randrange(6)
        if kind == 5:
            # along the axes, as thin as can be: nothing is lost, whatever the condition
            cell = np.diag([rng.uniform(1, 9) * rng.choice([1, 1, -1]) * 10. ** rng.choice([0, 0, 4, -4, 7, -7, 12, -12, 30, -30]) for _ in range(3)])[rng.sample(range(3), 3)]
        elif kind == 0:
            cell = np.diag([rng.uniform(.5, 20) * rng.choice([1, 1, -1]) for _ in range(3)]) * scale
        elif kind == 1:
            cell = np.array([[rng.uniform(-10, 10) for _ in range(3)] for _ in range(3)]) * scale
        elif kind == 2:
            cell = np.array([[rng.uniform(1, 9), 0, 0], [rng.uniform(-9, 9), rng.uniform(1, 9), 0], [rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(1, 9)]])[rng.sample(range(3), 3)] * scale
        elif kind == 3:
            cell = np.eye(3) * rng.uniform(2, 5)
            cell[rng.randrange(3)] *= 10. ** rng.uniform(-4, 4)
            cell += [[rng.choice([0, 0, rng.uniform(-.5, .5)]) for _ in range(3)] for _ in range(3)]
        else:
            cell = np.array([[rng.randint(-4, 4) for _ in range(3)] for _ in range(3)], dtype=float)
        rows = [[Fraction(float(x)) for x in row] for row in cell]
        inverse, det = exact_inverse(rows)
        if inverse is None or kind != 5 and np.linalg.cond(cell) > 1e6:
            continue
        break
    if det < 0:
        cx.event('coordinates.left-handed')
    cond = np.linalg.cond(cell) if kind != 5 else 1.0
    if kind == 5:
        cx.event('coordinates.thin')
    many = rng.random() < .4
    count = rng.randint(1, 6) if many else 1
    vectors = [[rng.choice([0., 1., .5, -1., 1 / 3, rng.uniform(-2, 2), rng.uniform(-100, 100)]) for _ in range(3)] for _ in range(count)]
    if many:
        cx.event('coordinates.many')
    as_list = rng.random() < .3
    if as_list:
        cx.event('coordinates.list')
    given = vectors if many else vectors[0]
    given = given if as_list else np.array(given)
    lattice = cell.tolist() if as_list else cell
    keep = cmp.freeze([given, lattice])
    cx.sample(cell=cell.tolist(), vectors=vectors, many=many, as_list=as_list)
    cx.shape(kind, many, as_list, count, det < 0, scale)

    def expected(table):
        out = np.array([[float(x) for x in times([Fraction(v) for v in vector], table)] for vector in vectors])
        return out if many else out[0]

    longest = np.abs(np.array(vectors)).max() + 1e-300
    near = {'rtol': 1e-13, 'atol': 0.0}
    for func, table, size, name in ((utils.dir_to_cart, rows, np.abs(cell).max(), 'cartesian'),
                                    (utils.cart_to_dir, inverse, max(abs(float(x)) for row in inverse for x in row), 'direct')):
        got = cx.must(call(func, given, lattice), 'conversion-failed', name)
        res = cmp.diff(expected(table), np.asarray(got), where=name, **(near if kind == 5 else {'atol': 1e-14 * cond * longest * size}))
        cx.check(res is None, 'wrong-conversion', res)
        # and back
        other = utils.cart_to_dir if func is utils.dir_to_cart else utils.dir_to_cart
        back = cx.must(call(other, got, lattice), 'conversion-failed', name)
        res = cmp.diff(np.array(given), np.asarray(back), where=f'{name} and back', **(near if kind == 5 else {'atol': 1e-13 * cond * cond * longest}))
        cx.check(res is None, 'not-inverse', res)
    rec = cx.must(call(utils.lat_to_reclat, lattice), 'conversion-failed', 'reciprocal')
    want = np.array([[2 * math.pi * float(inverse[j][i]) for j in range(3)] for i in range(3)])
    res = cmp.diff(want, np.asarray(rec), where='reciprocal', **(near if kind == 5 else {'atol': 1e-14 * cond * np.abs(want).max()}))
    cx.check(res is None, 'wrong-reciprocal', res)
    res = cmp.diff(cell, np.asarray(cx.must(call(utils.lat_to_reclat, rec), 'conversion-failed', 'twice')), where='reciprocal of the reciprocal',
                   **(near if kind == 5 else {'atol': 1e-13 * cond * cond * np.abs(cell).max()}))
    cx.check(res is None, 'wrong-reciprocal', res)
    cx.check(cmp.same(keep, [given, lattice]), 'arguments-changed', 'the cell or the positions given were changed')


# --- texts

WORDS = ['a', 'Si', 'abc', '1.2.3', '--1', '1e', 'e5', '.', '-', '+', '1,5', '3*0.5', '.TRUE.', '0x1F', '1-2', '1 2', 'H2O', '5Fe', '1d5', '', '*****', 'in', 'na', '1.0d0', 'None', 'E', '1e5.0', '+-1', '- 1']
SPECIAL = ['nan', 'NaN', 'inf', '-inf', 'Infinity', '-NAN']


def integer(rng):
    val = rng.choice([0, 1, -1, 7, 10 ** 12, rng.randint(-10 ** 6, 10 ** 6)])
    return rng.choice(['+', '', '', '00'] if val >= 0 else ['']) + str(val), val


def real(rng):
    mant = rng.choice(['0.0', '-0.0', '1.', '.5', '-.25', f'{rng.uniform(-500, 500):.{rng.randint(1, 14)}f}', f'+{rng.uniform(0, 1):.8f}'])
    if rng.random() < .5:
        mant += rng.choice('eE') + rng.choice(['', '+', '-']) + rng.choice(['0', '1', '05', '12', '30'])
    elif rng.random() < .2:
        mant = f'{rng.randint(-99, 99)}{rng.choice("eE")}{rng.randint(-20, 20)}'
    return mant, float(mant)


def texts(rng, cx):
    entries = rng.sample(WORDS, 2)
    for given, want in ((list(entries), True), (tuple(entries), True), ([], True), (set(entries), True), (np.zeros(2), True), ({'a': 1}.keys(), True),
                        (entries[0], False), ('', False), (3, False), (2.5, False), (None, False), (True, False)):
        got = cx.must(call(utils.is_sequence, given), 'recognition-failed', repr(given))
        cx.check(got is want, 'wrong-kind', lambda: f'is_sequence({given!r}) gave {got!r}')
    for _ in range(8):
        kind = rng.choice(['integer', 'float', 'word', 'special'])
        if kind == 'integer':
            text, val = integer(rng)
            if val > 999 and rng.random() < .3:
                # Python allows for grouped digits
                text = text[:-3] + '_' + text[-3:]
        elif kind == 'float':
            text, val = real(rng)
        elif kind == 'word':
            text, val = rng.choice(WORDS), None
        else:
            text = rng.choice(SPECIAL)
            val = float(text)
        if kind in ('integer', 'float') and rng.random() < .2:
            text = rng.choice(['', ' ', '  ', '\t']) + text + rng.choice(['', ' ', '\n', '\r\n'])
        cx.event('text.' + kind)
        cx.shape(kind, text)
        cx.sample(text=text)
        want = {'integer': 'int', 'float': 'float', 'special': 'float', 'word': 'string'}[kind]
        got = cx.must(call(utils.test_string_content, text), 'recognition-failed', text)
        cx.check(got == want, 'wrong-kind', lambda: f'{text!r} was taken as {got!r}, not {want!r}')
        got = cx.must(call(utils.is_number, text), 'recognition-failed', text)
        cx.check(got is (kind != 'word'), 'wrong-kind', lambda: f'is_number({text!r}) gave {got!r}')
        if val is not None:
            got = cx.must(call(utils.fortran_float, text), 'conversion-failed', text)
            cx.check(isinstance(got, float) and cmp.num_close(got, float(val), 0., 0.), 'wrong-number', lambda: f'{text!r} gave {got!r}')
        elif text not in ('1d5', '1.0d0'):
            out = call(utils.fortran_float, text)
            cx.check(out.kind == 'exc' and isinstance(out.exc, ValueError), 'invented-number', lambda: f'fortran_float({text!r}) gave {out!r}')
    # Fortran leaves the letter of the exponent out when it has three digits
    digits = ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 12)))
    sign, exponent = rng.choice(['', '-', '+']), rng.choice([100, 101, 102, 123, 199, 200, 299, 300, 307, rng.randint(100, 307)])
    esign = rng.choice('+-')
    mant = f'{sign}{rng.choice(["0", "", str(rng.randint(0, 9))])}.{digits}'
    got = cx.must(call(utils.fortran_float, f'{mant}{esign}{exponent}'), 'conversion-failed', 'no letter')
    cx.check(got == float(f'{mant}E{esign}{exponent}'), 'wrong-number', lambda: f'{mant}{esign}{exponent} gave {got!r}')
    cx.event('text.no-letter')
    # Lists of numbers
    splitter = rng.choice([' ', ' ', ',', ';', '\t', '::'])
    entries = [rng.choice([integer, real])(rng)[0] for _ in range(rng.randint(1, 6))]
    joined = splitter.join(entries)
    extra = {} if splitter == ' ' and rng.random() < .5 else {'splitter': splitter}
    got = cx.must(call(utils.is_numbers, joined, **extra), 'recognition-failed', joined)
    cx.check(got is True, 'wrong-kind', lambda: f'is_numbers({joined!r}, {extra}) gave {got!r}')
    place = rng.randrange(len(entries) + 1)
    entries.insert(place, rng.choice([w for w in WORDS if w and splitter not in w and w not in ('1 2', '- 1') and not w.startswith(',')]))
    joined = splitter.join(entries)
    got = cx.must(call(utils.is_numbers, joined, **extra), 'recognition-failed', joined)
    cx.check(got is False, 'wrong-kind', lambda: f'is_numbers({joined!r}, {extra}) gave {got!r}')


def lines(rng, cx):
    kind = rng.choice(['int', 'float', 'str', 'fortran'])
    count = rng.choice([0, 1, 1, 2, 3, 8])
    maker = {'int': integer, 'float': real, 'str': lambda r: (r.choice([w for w in WORDS if w and ' ' not in w]),) * 2, 'fortran': real}[kind]
    pairs = [maker(rng) for _ in range(count)]
    blanks = lambda low=1: ''.join(rng.choice(' \t') for _ in range(rng.randint(low, 4)))  # noqa: E731
    line = blanks(0) + ''.join(text + blanks() for text, _ in pairs).rstrip() + blanks(0)
    want = [val for _, val in pairs]
    want = want[0] if count == 1 else want
    args = {'int': {'d_type': int}, 'float': {'d_type': float}, 'str': {}, 'fortran': {'d_type': utils.fortran_float}}[kind]
    cx.sample(line=line, kind=kind)
    cx.shape(kind, count, line[:3])
    cx.event('line.none' if not count else 'line.one' if count == 1 else 'line.more')
    end = rng.choice(['', '\n', '\r\n'])
    rest = rng.choice(['', 'the next line\n', '1 2 3\n4\n'])
    no_split = kind == 'str' and rng.random() < .5
    if no_split:
        args = {'no_split': True}
        want = line.strip()
        cx.event('line.no-split')
    if rng.random() < .5:
        got = cx.must(call(utils.line_to_type, line + end, **args), 'conversion-failed', 'string')
    else:
        end = end or '\n'
        before = rng.choice(['', 'a line before\n', '\n'])
        path = cx.path('lines')
        with open(path, 'w', encoding='utf8', newline='') as handle:
            handle.write(before + line + end + rest)
        source = open(path, encoding='utf8') if rng.random() < .5 else io.StringIO(before + line + end + rest)
        with source:
            if before:
                source.readline()
            got = cx.must(call(utils.line_to_type, source, **args), 'conversion-failed', 'handle')
            cx.check(source.read() == rest, 'wrong-line', 'more or less than one line was taken from the handle')
        cx.event('line.handle')
    res = cmp.diff(want, got, where='line')
    cx.check(res is None, 'wrong-line', res)


def parameter(rng, cx):
    keys = rng.sample(['NSW', 'IBRION', 'NELM', 'NELMIN', 'ISIF', 'NSWX', 'LNSW', 'NBANDS'], 4)
    key, others = keys[0], keys[1:]
    start = {k.lower(): rng.choice([None, 0, -5, 17]) for k in keys}
    inputs = dict(start)
    val = rng.choice([0, 1, -1, 5, 61, 1000, rng.randint(-10 ** 6, 10 ** 6)])
    rest = rng.choice(['', ' ', '    number of steps for IOM', ';   NELMIN=  2; NELMDL= -5     # of ELM steps', '\n', '  = 7', '.'])
    name = rng.choice([key] * 3 + others)
    line = ' ' * rng.randint(1, 6) + name + ' ' * rng.randint(0, 6) + '=' + ' ' * rng.randint(0, 7) + str(val) + rest
    if rng.random() < .15:
        name = None
        line = rng.choice([line.replace('=', ' '), line.lower(), ' x' + line, line.strip(), '', '\n', ' ' + key + ' = ', ' ' + key, ' ' + key + ' = T'])
    cx.sample(key=key, line=line)
    cx.shape(key, name, len(line))
    cx.must(call(utils.match_integer_param, inputs, key, line), 'parameter-failed', line)
    want = dict(start)
    if name == key:
        want[key.lower()] = val
        cx.event('parameter.given')
    else:
        cx.event('parameter.other')
    cx.check(cmp.same(want, inputs), 'wrong-parameter', lambda: f'{line!r} for {key}: {start} became {inputs}, not {want}')


# --- files

ENCODINGS = ['utf8', 'latin-1', 'utf-16', 'cp1252']
POOL = ['abc', 'xyz', 'k-points', 'Total', 'free  energy', '\u00e5', '=', '  ', '12', 'e']


def content(rng):
    rows = [' '.join(rng.choice(POOL + ['q', '7', 'zz', '']) for _ in range(rng.randint(0, 6))) for _ in range(rng.randint(0, 12))]
    text = '\n'.join(rows) + ('\n' if rng.random() < .8 and rows else '')
    return text


def split(text):
    out = text.split('\n')
    return [row + '\n' for row in out[:-1]] + ([out[-1]] if out[-1] else [])


class Recorder(logging.Logger):
    def __init__(self):
        super().__init__('c27')
        self.messages = []

    def isEnabledFor(self, level):  # the harness disables logging
        return True

    def handle(self, record):
        self.messages.append((record.levelname, record.getMessage()))


def recorder():
    logger = Recorder()
    return logger, logger.messages


def files(rng, cx):
    text = content(rng)
    encoding = rng.choice(ENCODINGS)
    path = cx.path('file')
    eol = rng.choice(['\n', '\n', '\r\n'])
    with open(path, 'w', encoding=encoding, newline=eol) as handle:
        handle.write(text)
    cx.sample(text=text, encoding=encoding)
    logger, messages = recorder()
    args = {'encoding': encoding}
    if encoding == 'utf8' and rng.random() < .5:
        args = {}
    else:
        cx.event('file.encoding')
    if rng.random() < .5:
        args['logger'] = logger
    kind = rng.choice(['all', 'whole', 'several', 'one'])
    want = split(text)
    if kind == 'whole':
        args['lines'] = False
        want = text
        cx.event('file.whole')
    elif kind == 'several':
        some = rng.sample(POOL, rng.randint(1, 4))
        args['contains'] = rng.choice([list, tuple])(some)
        want = [row for row in want if any(s in row for s in some)]
        cx.event('file.identifiers')
    elif kind == 'one':
        args['contains'] = rng.choice(POOL)
        want = [row for row in want if args['contains'] in row]
        cx.event('file.one-identifier')
    how = rng.choice(['path', 'handler', 'both', 'memory', 'missing'])
    cx.shape(kind, how, encoding, len(want))
    keep = cmp.freeze(args.get('contains'))
    before = sorted(os.listdir('/proc/self/fd'))
    if how == 'missing':
        out = call(utils.read_from_file, cx.path('missing') if rng.random() < .5 else os.path.join(cx.path('missing'), 'file'), None, **args)
        cx.must_exit(out, [14], 'missing-file', 'missing')
        if 'logger' in args:
            cx.check(len(messages) == 1 and messages[0][0] == 'ERROR', 'missing-file', f'messages {messages}')
        cx.event('file.missing')
        got = want
    elif how == 'path':
        got = cx.must(call(utils.read_from_file, path, None, **args), 'read-failed', how)
    elif how == 'memory':
        got = cx.must(call(utils.read_from_file, None, io.StringIO(text), **args), 'read-failed', how)
    else:
        with open(path, encoding=encoding) as handle:
            name = None if how == 'handler' else rng.choice([cx.path('missing'), '', cx.write('something else\n', 'other')])
            skip = rng.randint(0, len(split(text))) if kind == 'all' and rng.random() < .3 else 0
            for _ in range(skip):
                handle.readline()
            got = cx.must(call(utils.read_from_file, name, handle, **args), 'read-failed', how)
            cx.check(not handle.closed, 'handler-closed', 'the handler of the caller was closed')
            want = want[skip:]
        cx.event('file.handler-first')
    cx.check(sorted(os.listdir('/proc/self/fd')) == before, 'left-open', 'a file was left open')
    cx.check(got == want and type(got) is type(want), 'wrong-content', lambda: f'{kind} from {how}: {got!r} instead of {want!r}')
    cx.check(cmp.same(keep, args.get('contains')), 'arguments-changed', 'the identifiers were changed')
    # is there a file?
    dangling, link = cx.path('dangling'), cx.path('link')
    os.symlink(cx.path('missing'), dangling)
    os.symlink(path, link)
    name, there = rng.choice([(path, True), (link, True), (dangling, False), (cx.path('missing'), False), (os.path.join(path, 'below'), False), ('', None), (None, None)])
    del messages[:]
    out = call(utils.file_exists, name, logger=logger)
    if there is None:
        cx.must_exit(out, [16], 'empty-path', repr(name))
    else:
        cx.check(out.ok and out.value is there, 'wrong-existence', lambda: f'{name!r}: {out!r} instead of {there}')
    cx.check(len(messages) == (there is not True), 'wrong-existence', lambda: f'{name!r}: messages {messages}')
    cx.event('exists.no' if there is False else 'exists')


def opening(rng, cx):
    text, more = content(rng), content(rng)
    encoding = rng.choice(ENCODINGS[:2] + ['cp1252'])
    path = cx.path('opened')
    extra = {} if encoding == 'utf8' and rng.random() < .5 else {'encoding': encoding}
    logger, messages = recorder()
    if rng.random() < .5:
        extra['logger'] = logger
    cx.sample(text=text, more=more, encoding=encoding)
    cx.shape(len(text), len(more), encoding)
    before = sorted(os.listdir('/proc/self/fd'))
    if rng.random() < .5:
        with open(path, 'w', encoding=encoding) as old:
            old.write('older content\n' * 40)
    for status, what, wanted in (('w', text, text), ('a', more, text + more), ('r', None, text + more), ('w', more, more)):
        handle = cx.must(call(open_close_file_handler, path, status=status, **extra), 'open-failed', status)
        if what is None:
            cx.check(handle.read() == wanted, 'wrong-content', 'reading gave something else')
        else:
            handle.write(what)
        cx.must(call(open_close_file_handler, file_handler=handle, **{k: extra[k] for k in extra if k == 'logger'}), 'close-failed', status)
        cx.check(handle.closed, 'left-open', f'{status}: the handler was not closed')
        with open(path, encoding=encoding, newline='') as check:
            cx.check(check.read() == wanted.replace('\n', os.linesep), 'wrong-content', f'{status}: the file holds something else')
        cx.event({'w': 'open.write', 'a': 'open.append', 'r': 'open.read'}[status])
    cx.check(sorted(os.listdir('/proc/self/fd')) == before, 'left-open', 'a file was left open')
    del messages[:]
    missing = cx.path('missing')
    cx.must_exit(call(open_close_file_handler, missing, status=rng.choice(['r', 'r+']), logger=logger), [14], 'missing-file', 'open')
    cx.must_exit(call(open_close_file_handler, os.path.join(missing, 'x'), status='w', logger=logger), [14], 'missing-file', 'open')
    cx.must_exit(call(open_close_file_handler, logger=logger), [15], 'no-handler', 'close')
    cx.check(len(messages) == 3 and all(level == 'ERROR' for level, _ in messages) and missing in messages[0][1], 'missing-file', f'messages {messages}')
    cx.check(not os.path.lexists(missing), 'missing-file', 'a refused opening made a file')


def newlines(rng, cx):
    count = rng.choice([1, 1, 2, 3])
    rows = [rng.choice(POOL) for _ in range(rng.randint(1, 6))]
    text = '\n'.join(rows) + '\n' * count
    args = {} if count == 1 and rng.random() < .5 else {'num_newlines': count}
    cx.sample(text=text, count=count)
    cx.shape(len(rows), count, len(text))
    kind = rng.choice(['text', 'bytes', 'memory'])
    if kind == 'memory':
        handle = io.StringIO()
        handle.write(text)
        cx.must(call(utils.remove_newline, handle, **args), 'newline-failed', kind)
        got = handle.getvalue()
        cx.event('newline.memory')
    else:
        path = cx.path('lines')
        with open(path, **({'mode': 'w', 'encoding': 'utf8'} if kind == 'text' else {'mode': 'wb'})) as handle:
            handle.write(text if kind == 'text' else text.encode('utf8'))
            cx.must(call(utils.remove_newline, handle, **args), 'newline-failed', kind)
        with open(path, 'rb') as handle:
            got = handle.read().decode('utf8')
        cx.event('newline.file')
    if count > 1:
        cx.event('newline.several')
    cx.check(got == text[:-count], 'wrong-newline', lambda: f'{text!r} became {got!r}')


class Derived(BaseParser):
    """What a user makes of the base class."""

    def __init__(self, content_, **kwargs):
        super().__init__(**kwargs)
        self.content = content_
        self.seen = []

    def _write(self, file_handler, **kwargs):
        self.seen.append(kwargs)
        if kwargs.get('fails'):
            raise RuntimeError('can not be written')
        for piece in self.content:
            file_handler.write(piece)


def derived(rng, cx):
    pieces = [content(rng) for _ in range(rng.randint(0, 4))]
    logger, messages = recorder()
    parser = cx.must(call(Derived, pieces, **({'logger': logger} if rng.random() < .7 else {})), 'derived-failed')
    extra = rng.choice([{}, {'comments': True}, {'a': 1, 'b': None}])
    path = cx.path('derived')
    older = rng.choice([None, '', 'older\n' * 30])
    if older is not None:
        with open(path, 'w', encoding='utf8') as handle:
            handle.write(older)
    cx.sample(pieces=pieces, extra=repr(extra))
    cx.shape(len(pieces), sorted(extra), older)
    out = call(parser.write, file_path=path, fails=True, **extra)
    cx.check(out.kind == 'exc' and isinstance(out.exc, RuntimeError), 'error-swallowed', lambda: f'{out!r}')
    got = None
    if os.path.exists(path):
        with open(path, encoding='utf8') as handle:
            got = handle.read()
    cx.check(got == older, 'target-touched', lambda: f'{older!r} became {got!r}')
    if rng.random() < .5:
        cx.must(call(parser.write, file_path=path, **extra), 'write-failed', 'path')
        with open(path, encoding='utf8') as handle:
            got = handle.read()
        cx.event('derived.path')
    else:
        target = io.StringIO()
        cx.must(call(parser.write, file_handler=target, **extra), 'write-failed', 'handler')
        got = target.getvalue()
        cx.event('derived.handler')
    cx.check(got == ''.join(pieces), 'wrong-content', lambda: f'{got!r} instead of {pieces!r}')
    cx.check(parser.seen and parser.seen[-1] == extra, 'arguments-changed', lambda: f'{parser.seen} instead of {extra}')
    cx.check(not messages, 'reported', lambda: f'{messages}')
    # whether there is a file is a question of its kind, not of what it contains
    kind = rng.choice(['empty', 'file', 'link', 'folder', 'missing', 'dangling'])
    path = cx.path('asked')
    if kind in ('empty', 'file'):
        with open(path, 'w', encoding='utf8') as handle:
            handle.write('' if kind == 'empty' else 'x')
    elif kind in ('link', 'dangling'):
        os.symlink(cx.write('x') if kind == 'link' else cx.path('nothing'), path)
    elif kind == 'folder':
        os.mkdir(path)
    there = kind in ('empty', 'file', 'link')
    given = Derived([], logger=logger, **({'file_path': path} if rng.random() < .5 else {}))
    if hasattr(given, '_check_file'):
        out = call(given._check_file, *([] if given._file_path else [path]))  # pylint: disable=protected-access
    else:
        return
    if there:
        cx.must(out, 'file-not-seen', kind)
        cx.check(not messages, 'reported', lambda: f'{kind}: {messages}')
    else:
        cx.must_exit(out, [14], 'missing-file', kind)
        cx.check(len(messages) == 1 and messages[0][0] == 'ERROR' and path in messages[0][1], 'missing-file', lambda: f'{kind}: {messages}')
    cx.event('asked.there' if there else 'asked.missing')


STREAMS = [Stream('coordinates', coordinates, 40000, 480000), Stream('texts', texts, 30000, 360000), Stream('lines', lines, 30000, 360000),
           Stream('parameter', parameter, 30000, 360000), Stream('files', files, 30000, 360000), Stream('opening', opening, 7500, 90000),
           Stream('newlines', newlines, 10000, 120000), Stream('derived', derived, 10000, 120000)]
