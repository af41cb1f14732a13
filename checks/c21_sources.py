"""C21: every parser gives the same content from every kind of source and leaves everything but itself as it was."""
import bz2
import decimal
import gc
import gzip
import hashlib
import io
import locale
import logging
import lzma
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings
import zipfile

import numpy as np

from rvlib import cmp, formats
from rvlib.core import Stream, call

PROPERTY = 'C21'
RULE = ('Random valid files of all ten formats, parsed from path, open file, memory, string, compressed and temporary files, archives and pipes; damaged copies and missing files likewise. '
        'A monitor compares, around every call, the open descriptors, threads, scratch files (content and modification time), handlers, working folder, '
        'environment, standard output and numerical settings of the process.')
ASSUMPTIONS = ['Linux: open descriptors are those listed in /proc/self/fd.']
REQUIRED = {'format.' + name: 40 for name in formats.FORMATS}
REQUIRED.update({'monitor.process': 2000, 'compared': 1000, 'refused': 100, 'handle-open': 500, 'line-ends': 1500, 'carriage-returns': 200, 'behind': 500, 'odd-path': 1000, 'rewritten': 200})


def files(folder):
    out = {}
    for name in os.listdir(folder):
        full = os.path.join(folder, name)
        stat = os.stat(full)
        with open(full, 'rb') as handle:
            out[name] = (hashlib.md5(handle.read()).hexdigest(), stat.st_mtime_ns, stat.st_mode)
    return out


def process(folder):
    """What of the process and of the files a parser has no business changing."""
    return {'files': files(folder), 'cwd': os.getcwd(), 'cwd-files': sorted(os.listdir(os.getcwd())), 'environment': dict(os.environ),
            'errors': np.geterr(), 'printing': repr(np.get_printoptions()), 'recursion': sys.getrecursionlimit(),
            'threads': threading.active_count(), 'random': hash(random.getstate()), 'npsum': hash(np.random.get_state()[1].tobytes()),
            'locale': locale.setlocale(locale.LC_ALL), 'streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)), 'mask': _umask(),
            'path': list(sys.path), 'warnings': list(warnings.filters), 'decimal': repr(decimal.getcontext()), 'garbage': (gc.isenabled(), gc.get_threshold()),
            'hooks': (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook)), 'signals': [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE)],
            'switch': sys.getswitchinterval(), 'logging': (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.getLoggerClass(), logging.raiseExceptions),
            'buffer': np.getbufsize(), 'descriptors': sorted(os.listdir('/proc/self/fd'))}


class Settings:
    """Random settings of the process, so that also a change made by an earlier call can be seen; undone afterwards."""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        rng = self.rng
        self.before = (np.geterr(), np.get_printoptions(), decimal.getcontext().copy(), gc.get_threshold(), sys.getrecursionlimit(), os.umask(0o22), np.getbufsize(), logging.root.level,
                       dict(os.environ), warnings.filters[:], sys.path[:])
        np.seterr(**{k: rng.choice(['warn', 'ignore']) for k in ('divide', 'over', 'under', 'invalid')})
        np.set_printoptions(precision=rng.randint(1, 17), threshold=rng.randint(1, 2000), suppress=rng.random() < .5, linewidth=rng.randint(20, 200))
        decimal.getcontext().prec = rng.randint(5, 60)
        gc.set_threshold(rng.randint(300, 900), rng.randint(5, 20), rng.randint(5, 20))
        sys.setrecursionlimit(rng.randint(5000, 20000))
        os.umask(rng.choice([0, 0o22, 0o77, 0o27]))
        np.setbufsize(rng.choice([4096, 8192, 16384]))
        logging.root.setLevel(rng.choice([10, 20, 30, 40]))
        random.seed(rng.random())
        np.random.seed(rng.randrange(1000000))
        return self

    def __exit__(self, *_):
        errors, printing, context, threshold, recursion, mask, buffer, level, env, filters, path = self.before
        np.seterr(**errors)
        np.set_printoptions(**printing)
        decimal.setcontext(context)
        gc.set_threshold(*threshold)
        sys.setrecursionlimit(recursion)
        os.umask(mask)
        np.setbufsize(buffer)
        logging.root.setLevel(level)
        os.environ.clear()
        os.environ.update(env)
        warnings.filters[:] = filters
        sys.path[:] = path


class Quiet(logging.Handler):
    def emit(self, record):
        pass


def lent_logger(rng):
    """A logger of the caller, in some state."""
    out = logging.Logger('lent', rng.choice([0, 10, 20, 30, 40, 50]))
    for _ in range(rng.choice([0, 1, 2])):
        out.addHandler(Quiet(rng.choice([0, 10, 40])))
    if rng.random() < .3:
        out.addFilter(logging.Filter(rng.choice(['', 'lent', 'x'])))
    out.propagate = rng.random() < .7
    out.disabled = rng.random() < .2
    return out


def logger_state(log):
    return (log.level, log.propagate, log.disabled, list(log.filters), [(h, h.level, h.formatter, list(h.filters)) for h in log.handlers], log.parent, log.name)


def _umask():
    mask = os.umask(0o22)
    os.umask(mask)
    return mask


def watched(cx, what, func, *args, **kwargs):
    """Make the call with the monitor around it."""
    cwd = os.getcwd()
    if not os.path.isdir(cx.scratch + '-cwd'):
        os.mkdir(cx.scratch + '-cwd')
    os.chdir(cx.scratch + '-cwd')
    stdout = sys.stdout
    sys.stdout = io.StringIO()
    try:
        before = process(cx.scratch)
        out = call(func, *args, **kwargs)
        out.exc = None
        after = process(cx.scratch)
        printed = sys.stdout.getvalue()
    finally:
        sys.stdout = stdout
        os.chdir(cwd)
        shutil.rmtree(cx.scratch + '-cwd')
    cx.event('monitor.process')
    cx.check(not printed, 'printed', f'{what}: {printed[:200]!r}')
    for key, val in before.items():
        cx.check(val == after[key], 'changed-' + key, lambda k=key, v=val: f'{what}: {k} was {v}, is {after[k]}')
    return out


def valid(rng, cx):
    with Settings(rng):
        _valid(rng, cx)


def _valid(rng, cx):
    one = formats.case(rng)
    cx.event('format.' + one.name)
    cx.sample(format=one.name, text=one.text[:4000], kwargs=repr(one.kwargs))
    keep = cmp.freeze(one.kwargs)
    base = None
    ways = formats.sources(cx, one, rng)
    # the path first, the others in any order
    rest = ways[1:]
    rng.shuffle(rest)
    for label, source, handle, _path in [ways[0]] + rest:
        log = lent_logger(rng) if rng.random() < .5 else None
        lent = {} if log is None else {'logger': log}
        was = log and logger_state(log)
        obj = cx.must(watched(cx, f'{one.name} from {label}', one.cls, **source, **lent, **one.kwargs), 'valid-rejected', f'{one.name} from {label}')
        cx.check(log is None or was == logger_state(log), 'logger-changed', lambda: f'{one.name}: the logger of the caller was {was}, is {logger_state(log)}')
        cx.check(cmp.same(keep, one.kwargs), 'arguments-changed', label)
        if handle is not None:
            cx.check(not handle.closed, 'handle-closed', f'{one.name} from {label}: the handler of the caller was closed')
            cx.event('handle-open')
            handle.close()
        got = watched(cx, f'{one.name} from {label}: questions', formats.observe, cx, one, obj)
        got = cx.must(got, 'observation-failed')
        if base is None:
            base = got
        else:
            res = cmp.diff(base, got, where=f'{one.name} from {label}')
            cx.check(res is None, 'sources-differ', res)
            cx.event('compared')
    ahead(rng, cx, one, base)
    # the same path may contain something else the next time, which is to be read then, even if size and time are the same
    other = formats.case(rng, one.name)
    if rng.random() < .5:
        path = ways[0][3]
        stat = os.stat(path)
        raw = formats.data(other)
        old = formats.data(one)
        swapped = old.replace(b'1', b'\0').replace(b'2', b'1').replace(b'\0', b'2') if rng.random() < .5 else raw
        if swapped != raw:
            other = one._replace(text=swapped.decode('latin-1' if one.name == 'vasprun.xml' else 'utf8'))
            raw = swapped
        if rng.random() < .5:
            # right after it was read
            call(one.cls, file_path=path, **one.kwargs)
            call(one.cls, file_path=path, **one.kwargs)
        with open(path, 'wb') as handle:
            handle.write(raw)
        os.utime(path, ns=(stat.st_atime_ns, stat.st_mtime_ns))
        have = call(one.cls, file_path=path, **other.kwargs)
        want = call(one.cls, file_path=cx.write(raw, one.name), **other.kwargs)
        cx.check(have.kind == want.kind and (have.kind != 'exit' or have.value == want.value), 'reads-old-content', f'{one.name}: {have!r} / {want!r}')
        if want.ok:
            res = cmp.diff(formats.observe(cx, other, want.value), formats.observe(cx, other, have.value), where='other content at the same path')
            cx.check(res is None, 'reads-old-content', res)
            cx.event('rewritten')
        with open(path, 'wb') as handle:
            handle.write(old)
    # what the path contains afterwards is of no concern to what was read
    obj = cx.must(call(one.cls, file_path=ways[0][3], **one.kwargs), 'valid-rejected')
    if rng.random() < .5:
        os.unlink(ways[0][3])
    else:
        with open(ways[0][3], 'w', encoding='utf8') as handle:
            handle.write('something else\n')
    res = cmp.diff(base, formats.observe(cx, one, obj), where='after the file is gone')
    cx.check(res is None, 'reads-later', res)
    cx.shape(one.name, sorted(base), len(one.text) // 50)


ODD = ['~', '~root', '$HOME', '%20 x', ' a b ', '-n', '..x', 'a;b', "it's", 'POSCAR.gz', '*', 'é ü', 'x.xml.bz2', '#c', 'a\nb', 'LONG' * 50, 'file:', '{}', '0', 'None']


def ahead(rng, cx, one, base):
    """A handler that stands behind something else, paths with unusual names, relative ones, and path objects."""
    if one.name != 'vasprun.xml':
        front = rng.choice(['something else\n', '\n', ' 1 2 3\n', one.text])
        if rng.random() < .5:
            handle = io.StringIO(front + one.text)
            handle.seek(len(front))
        else:
            handle = open(cx.write(front + one.text), encoding='utf8')  # pylint: disable=consider-using-with
            handle.read(len(front))
        obj = cx.must(call(one.cls, file_handler=handle, **one.kwargs), 'valid-rejected', f'{one.name} from a handler that stands behind {front[:20]!r}')
        cx.check(not handle.closed, 'handle-closed')
        handle.close()
        res = cmp.diff(base, formats.observe(cx, one, obj), where=f'{one.name} from a handler that stands behind {front[:20]!r}')
        cx.check(res is None, 'sources-differ', res)
        cx.event('behind')
    folder = cx.path('odd')
    os.mkdir(folder)
    name = rng.choice(ODD)
    path = os.path.join(folder, name)
    with open(path, 'wb') as handle:
        handle.write(formats.data(one))
    cwd = os.getcwd()
    os.chdir(folder)
    try:
        for given in rng.sample([name, pathlib.Path(name), path, pathlib.Path(path), './' + name, '../' + os.path.basename(folder) + '/' + name], 2):
            obj = cx.must(call(one.cls, file_path=given, **one.kwargs), 'valid-rejected', f'{one.name} from {given!r}')
            res = cmp.diff(base, formats.observe(cx, one, obj), where=f'{one.name} from {given!r}')
            cx.check(res is None, 'sources-differ', res)
            cx.event('odd-path')
        cx.check(os.listdir(folder) == [name], 'changed-files', lambda: os.listdir(folder))
    finally:
        os.chdir(cwd)


def damage(rng, text):
    lines = text.split('\n')
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(['cut', 'cut-inside', 'drop', 'swap', 'garble', 'repeat', 'blank', 'empty', 'stars', 'nan'])
        if not lines:
            break
        at = rng.randrange(len(lines))
        if kind == 'cut':
            lines = lines[:at]
        elif kind == 'cut-inside':
            lines = lines[:at] + [lines[at][:rng.randint(0, len(lines[at]))]]
        elif kind == 'drop':
            del lines[at]
        elif kind == 'swap':
            other = rng.randrange(len(lines))
            lines[at], lines[other] = lines[other], lines[at]
        elif kind == 'garble' and lines[at]:
            spot = rng.randrange(len(lines[at]))
            lines[at] = lines[at][:spot] + rng.choice(['x', '-', '=', ';', '#', '<', '.', ' ', '\t', 'É', '!']) + lines[at][spot + 1:]
        elif kind == 'repeat':
            lines.insert(at, lines[at])
        elif kind == 'blank':
            lines.insert(at, '')
        elif kind == 'empty':
            lines = rng.choice([[], [''], ['', ''], [' ']])
        else:
            toks = lines[at].split(' ')
            toks[rng.randrange(len(toks))] = '*****' if kind == 'stars' else 'NaN'
            lines[at] = ' '.join(toks)
    return '\n'.join(lines)


def damaged(rng, cx):
    """Damaged files: whatever becomes of them, the call ends, and leaves nothing behind."""
    with Settings(rng):
        _damaged(rng, cx)


def _damaged(rng, cx):
    one = formats.case(rng)
    one = one._replace(text=damage(rng, one.text))
    cx.sample(format=one.name, text=one.text[:6000], kwargs=repr(one.kwargs))
    seen = []
    codes = one.cls.ERROR_MESSAGES
    for label, source, handle, _path in formats.sources(cx, one, rng):
        out = watched(cx, f'damaged {one.name} from {label}', one.cls, **source, **one.kwargs)
        if handle is not None:
            handle.close()
        if out.ok:
            cx.event('accepted')
            seen.append('ok')
            cx.must(watched(cx, f'damaged {one.name} from {label}: questions', formats.observe, cx, one, out.value), 'observation-failed')
            continue
        cx.event('refused')
        cx.event('refused.' + out.kind)
        seen.append(out.kind)
        if out.kind == 'exit':
            cx.check(out.value in codes or out.value in (100, 101, 102, 103, 104, 105, 300), 'undocumented-exit', f'{one.name}: {out}')
        else:
            cx.check(not out.value.startswith(('MemoryError', 'RecursionError', 'KeyboardInterrupt', 'GeneratorExit')), 'resource-exhaustion', out)
    cx.check(len(set(seen)) == 1, 'sources-differ', f'{one.name}: path, handle, memory, ...: {seen}')
    cx.shape('damaged', one.name, seen[0], len(one.text) // 50)


def absent(rng, cx):
    """Paths that can not be read."""
    one = formats.case(rng)
    kind = rng.choice(['missing', 'folder', 'below-file', 'missing-folder'])
    path = {'missing': cx.path('gone'), 'folder': cx.scratch, 'below-file': os.path.join(cx.write('x'), 'y'),
            'missing-folder': os.path.join(cx.path('gone'), one.name)}[kind]
    cx.sample(format=one.name, kind=kind)
    out = watched(cx, f'{one.name} {kind}', one.cls, file_path=path, **one.kwargs)
    if one.name == 'vasprun.xml' and kind == 'folder':
        cx.check(not out.ok, 'unreadable-accepted', f'{one.name} {kind}: {out}')
    else:
        cx.must_exit(out, [14], 'unreadable-accepted', f'{one.name} {kind}')
    cx.shape('absent', one.name, kind)


def line_ends(rng, cx):
    """Windows line ends are no content, whatever the source."""
    one = formats.case(rng)
    cx.sample(format=one.name, text=one.text[:4000], kwargs=repr(one.kwargs))
    base = formats.observe(cx, one, cx.must(call(one.cls, file_path=cx.write(formats.data(one)), **one.kwargs), 'valid-rejected'))
    windows = one._replace(text=one.text.replace('\n', '\r\n'))
    ways = formats.sources(cx, windows, rng)
    raw = open(ways[0][3], encoding='latin-1' if one.name == 'vasprun.xml' else 'utf8', newline='')  # pylint: disable=consider-using-with
    ways.append(('untranslated handle', {'file_handler': raw}, raw, None))
    for label, source, handle, _path in ways:
        obj = cx.must(call(one.cls, **source, **one.kwargs), 'valid-rejected', f'{one.name} with Windows line ends from {label}')
        if handle is not None:
            handle.close()
        res = cmp.diff(base, formats.observe(cx, one, obj), where=f'{one.name} with Windows line ends from {label}')
        cx.check(res is None, 'line-ends-matter', res)
        cx.event('line-ends')
    if one.name in formats.STRING:
        # lone carriage returns, where the parser opens the file itself
        mac = one._replace(text=one.text.replace('\n', '\r'))
        for label, source in (('path', {'file_path': cx.write(formats.data(mac), one.name)}), ('string', {formats.STRING[one.name]: mac.text})):
            obj = cx.must(call(one.cls, **source, **one.kwargs), 'valid-rejected', f'{one.name} with lone carriage returns from {label}')
            res = cmp.diff(base, formats.observe(cx, one, obj), where=f'{one.name} with lone carriage returns from {label}')
            cx.check(res is None, 'line-ends-matter', res)
            cx.event('carriage-returns')
    cx.shape('line ends', one.name, len(one.text) // 50)


def opened(cx, one, kind, binary):
    """The content in one of the kinds of handlers that the standard library opens."""
    content = formats.data(one)
    encoding = 'latin-1' if one.name == 'vasprun.xml' else 'utf8'
    mode = {'mode': 'rb'} if binary else {'mode': 'rt', 'encoding': encoding}
    if kind in ('gzip', 'bz2', 'lzma'):
        module = {'gzip': gzip, 'bz2': bz2, 'lzma': lzma}[kind]
        return module.open(cx.write(module.compress(content)), **mode)
    if kind == 'encoded':
        content = one.text.encode('utf-16')
        return open(cx.write(content), encoding='utf-16', newline='')  # pylint: disable=consider-using-with
    if kind == 'zip':
        path = cx.path('archive')
        with zipfile.ZipFile(path, 'w') as archive:
            archive.writestr('content', content)
        with zipfile.ZipFile(path) as archive:
            member = archive.open('content')
        return member if binary else io.TextIOWrapper(member, encoding=encoding)
    if kind == 'unbuffered':
        raw = open(cx.write(content), 'rb', buffering=0)  # pylint: disable=consider-using-with
        return raw if binary else io.TextIOWrapper(io.BufferedReader(raw, 7), encoding=encoding)
    if kind == 'pipe':
        reader, writer = os.pipe()
        thread = threading.Thread(target=_feed, args=(writer, content))
        thread.start()
        handle = os.fdopen(reader, encoding=encoding)
        handle.feeder = thread
        return handle
    mode = {'mode': 'w+b'} if binary else {'mode': 'w+', 'encoding': encoding, 'newline': ''}
    handle = {'temporary': tempfile.TemporaryFile, 'named': tempfile.NamedTemporaryFile, 'spooled': tempfile.SpooledTemporaryFile}[kind](dir=cx.scratch, **mode)
    handle.write(content if binary else content.decode(encoding))
    handle.seek(0)
    return handle


def _feed(writer, content):
    try:
        with os.fdopen(writer, 'wb') as handle:
            handle.write(content)
    except OSError:
        pass  # nobody reads the rest


KINDS = ['gzip', 'bz2', 'lzma', 'zip', 'unbuffered', 'pipe', 'temporary', 'named', 'spooled', 'encoded']


def kinds(rng, cx):
    """Whatever kind of file the handler belongs to."""
    one = formats.case(rng)
    cx.sample(format=one.name, text=one.text[:4000], kwargs=repr(one.kwargs))
    path = cx.write(formats.data(one), one.name)
    base = formats.observe(cx, one, cx.must(call(one.cls, file_path=path, **one.kwargs), 'valid-rejected', one.name))
    for kind in rng.sample(KINDS, 3):
        binary = one.name == 'vasprun.xml' and (kind == 'spooled' or rng.random() < .5)
        if kind in ('pipe', 'encoded') and one.name == 'vasprun.xml':
            continue  # looked at twice, and tells its encoding itself
        handle = opened(cx, one, kind, binary)
        try:
            what = f'{one.name} from {kind}'
            # (what feeds the pipe ends meanwhile)
            obj = call(one.cls, file_handler=handle, **one.kwargs) if kind == 'pipe' else watched(cx, what, one.cls, file_handler=handle, **one.kwargs)
            cx.must(obj, 'valid-rejected', f'{what}, binary={binary}')
            obj = obj.value
            cx.check(not handle.closed, 'handle-closed', f'{one.name} from {kind}: the handler of the caller was closed')
        finally:
            thread = getattr(handle, 'feeder', None)
            handle.close()
            if thread is not None:
                thread.join()
        res = cmp.diff(base, formats.observe(cx, one, obj), where=f'{one.name} from {kind}')
        cx.check(res is None, 'sources-differ', res)
        cx.event('kind.' + kind)
    cx.shape(one.name, 'kinds', len(one.text) // 50)


REQUIRED.update({'kind.' + name: 100 for name in KINDS})
STREAMS = [Stream('kinds', kinds, 1200, 14400), Stream('line-ends', line_ends, 1200, 14400), Stream('valid', valid, 2400, 28800), Stream('damaged', damaged, 2400, 40000), Stream('absent', absent, 240, 2880)]
