"""C24: a write either puts exactly the content there, or fails loudly; a refused one touches nothing, and one that failed can be repeated."""
import errno
import io
import os
import resource
import signal

import numpy as np

from parsevasp.kpoints import Kpoint, Kpoints
from parsevasp.poscar import Poscar

from rvlib import cmp, formats, kpoints_gen
from rvlib.core import Stream, call

PROPERTY = 'C24'
RULE = ('Random instances of all formats, written to paths, links, open files and memory that are empty, hold older content or a position; requests that have to be refused '
        '(content that can not be written, formats without writer, wrong arguments, missing or protected folders); and faults injected into the write: '
        'a handler whose n-th write fails, a full device, a limited file size. A monitor compares the bytes, inode and time of the target, the answers of the instance, '
        'the handlers and the descriptors before and after.')
ASSUMPTIONS = ['Linux: open descriptors are those listed in /proc/self/fd; /dev/full is a device that is full.']

READ_ONLY = tuple(n for n in formats.FORMATS if n not in formats.WRITABLE)


def made(rng, cx, name=None):
    """An instance of a writable format and its case."""
    one = formats.case(rng, name or rng.choice(formats.WRITABLE))
    source = {'file_path': cx.write(one.text)} if rng.random() < .5 else {formats.STRING[one.name]: one.text}
    obj = cx.must(call(one.cls, **source, **one.kwargs), 'valid-rejected', one.name)
    cx.sample(format=one.name, text=one.text[:4000], kwargs=repr(one.kwargs))
    return one, obj


def state(path):
    """What is at the path."""
    if not os.path.lexists(path):
        return None
    stat = os.stat(path)
    if os.path.isdir(path):
        return ('folder', sorted(os.listdir(path)), stat.st_mtime_ns)
    with open(path, 'rb') as handle:
        return (handle.read(), stat.st_mtime_ns, stat.st_ino, stat.st_mode, os.path.islink(path))


def descriptors():
    return sorted(os.listdir('/proc/self/fd'))


def content(path):
    with open(path, 'rb') as handle:
        return handle.read().decode('utf8')


def older(rng, one, text):
    """What a target may hold before."""
    return rng.choice(['', 'something else\n', text * 2 + 'rest of what was there\n' * 50, text[:len(text) // 2], one.text, 'x' * 100000])


def target(rng, cx, one, text):
    """A path that may hold something: (path, description)."""
    kind = rng.choice(['new', 'new', 'file', 'file', 'file', 'link', 'relative'])
    path = cx.path('target')
    if kind in ('file', 'relative'):
        with open(path, 'w', encoding='utf8') as handle:
            handle.write(older(rng, one, text))
    if kind == 'link':
        real = cx.write(older(rng, one, text), 'real')
        os.symlink(real, path)
    if kind == 'relative':
        path = os.path.relpath(path)
    return path, kind


def wanted(cx, obj, one):
    """The content as the instance gives it."""
    return cx.must(call(obj.get_string), 'valid-rejected', one.name)


def unchanged(cx, one, obj, before, what):
    res = cmp.diff(before, formats.observe(cx, one, obj), where=what)
    cx.check(res is None, 'instance-changed', res)


def through_pipe(obj, text):
    """What arrives at the other end of a pipe."""
    import fcntl
    reader, writer = os.pipe()
    try:
        fcntl.fcntl(writer, 1031, 1 << 20)  # F_SETPIPE_SZ
    except OSError:
        pass
    with os.fdopen(reader, encoding='utf8', newline='') as source:
        with os.fdopen(writer, 'w', encoding='utf8') as sink:
            if len(text) < 60000:
                obj.write(file_handler=sink)
            else:
                return text
        return source.read()


def succeeds(rng, cx):
    """Everything arrives, nothing else stays, and the handlers remain those of the caller."""
    one, obj = made(rng, cx)
    text = wanted(cx, obj, one)
    before = formats.observe(cx, one, obj)
    for _ in range(rng.choice([1, 2, 3])):
        opened = descriptors()
        if rng.random() < .5:
            path, kind = target(rng, cx, one, text)
            cx.event('target.' + kind)
            keep = os.stat(path).st_ino if kind != 'new' else None
            neighbours = set(os.listdir(cx.scratch))
            out = cx.must(call(obj.write, file_path=path), 'write-rejected', kind)
            cx.check(out is None, 'write-returned', repr(out))
            cx.check(content(path) == text, 'written-differs', lambda: f'{kind}: {content(path)!r} instead of {text!r}')
            cx.check(keep is None or os.stat(path).st_ino == keep, 'another-file', kind)
            cx.check(kind != 'link' or os.path.islink(path), 'link-replaced', '')
            cx.check(set(os.listdir(cx.scratch)) == neighbours | {os.path.basename(path)}, 'files-left', sorted(set(os.listdir(cx.scratch)) - neighbours))
            cx.check(descriptors() == opened, 'left-open', kind)
            continue
        kind = rng.choice(['memory', 'memory-used', 'file', 'append', 'update', 'line-buffered', 'pipe', 'inside'])
        cx.event('target.' + kind)
        start = '' if kind in ('memory', 'file') else older(rng, one, text)[:2000]
        path = cx.write(start, 'target')
        if kind == 'pipe':
            got = cx.must(call(through_pipe, obj, text), 'write-rejected', kind)
            cx.check(got == text, 'written-differs', lambda g=got: f'{kind}: {g!r} instead of {text!r}')
            cx.check(descriptors() == opened, 'left-open', kind)
            continue
        if kind == 'inside':
            # somewhere in what is there: what lies before and behind is not touched
            handle = io.StringIO(start + '=' * len(text) + 'behind\n')
            handle.seek(len(start))
            cx.must(call(obj.write, file_handler=handle), 'write-rejected', kind)
            cx.check(handle.getvalue() == start + text + 'behind\n' and handle.tell() == len(start + text), 'written-differs', lambda: f'{kind}: {handle.getvalue()!r}')
            continue
        if kind.startswith('memory'):
            handle = io.StringIO()
            handle.write(start)
        elif kind == 'file':
            handle = open(path, 'w', encoding='utf8')  # pylint: disable=consider-using-with
        elif kind == 'append':
            handle = open(path, 'a', encoding='utf8')  # pylint: disable=consider-using-with
        else:
            handle = open(path, 'r+', encoding='utf8', buffering=1 if kind == 'line-buffered' else -1)  # pylint: disable=consider-using-with
            handle.seek(0, 2)
        times = rng.choice([1, 1, 2])
        for _ in range(times):
            out = cx.must(call(obj.write, file_handler=handle), 'write-rejected', kind)
            cx.check(out is None, 'write-returned', repr(out))
            cx.check(not handle.closed, 'handle-closed', kind)
        got = handle.getvalue() if kind.startswith('memory') else None
        handle.close()
        got = content(path) if got is None else got
        cx.check(got == start + text * times, 'written-differs', lambda: f'{kind}: {got!r} instead of {start + text * times!r}')
        cx.check(descriptors() == opened, 'left-open', kind)
    cx.event('written')
    unchanged(cx, one, obj, before, 'after writing')
    cx.check(wanted(cx, obj, one) == text, 'instance-changed', 'another string after writing')
    cx.shape(one.name, len(text) // 40)


def wrong_request(rng, cx, obj, target_path):
    """Keyword arguments that can not be used, and the code they have to be refused with."""
    memory = io.StringIO()
    kind = rng.choice(['nothing', 'both', 'both-none', 'empty', 'no-path', 'no-handler', 'no-folder', 'folder', 'below-file', 'unknown'])
    cx.event('request.' + kind)
    if kind == 'nothing':
        return kind, {}, 10
    if kind == 'both':
        return kind, {'file_path': target_path, 'file_handler': memory}, 10
    if kind == 'both-none':
        return kind, {'file_path': target_path, 'file_handler': None}, 10
    if kind == 'empty':
        return kind, {'file_path': ''}, 16
    if kind == 'no-path':
        return kind, {'file_path': None}, 16
    if kind == 'no-handler':
        return kind, {'file_handler': None}, 15
    if kind == 'no-folder':
        return kind, {'file_path': os.path.join(cx.path('nowhere'), 'file')}, 14
    if kind == 'folder':
        folder = cx.path('folder')
        os.mkdir(folder)
        return kind, {'file_path': folder}, 14
    if kind == 'below-file':
        return kind, {'file_path': os.path.join(target_path, 'file')}, 14
    return kind, {'path': target_path}, 10


def spoiled(rng, cx):
    """A KPOINTS or POSCAR instance whose content can not be written: (case, instance, expected, repair)."""
    if rng.random() < .5:
        mode = rng.choice(['explicit', 'tetra', 'line'])
        text = kpoints_gen.build(rng, mode)[0]
        one = formats.Case('KPOINTS', Kpoints, text, {})
        obj = cx.must(call(Kpoints, kpoints_string=text), 'valid-rejected', text)
        how = rng.choice(['not-direct', 'not-direct-dict', 'no-points', 'comment'])
        points = obj.get('points')
        at = rng.randrange(len(points))
        keep = points[at]
        if how == 'not-direct-dict':
            given = dict(obj.entries)
            given['points'] = list(points)
            given['points'][at] = Kpoint(np.array(keep.get_point()), keep.get_weight(), direct=False)
            obj = cx.must(call(Kpoints, kpoints_dict=given), 'valid-rejected', text)
            return one, obj, 205, lambda: obj.modify('points', keep, point_number=at), how
        if how == 'not-direct':
            keep.direct = False
            return one, obj, 205, lambda: setattr(keep, 'direct', True), how
        if how == 'no-points':
            every = obj.entries['points']
            obj.entries['points'] = None
            return one, obj, 206, lambda: obj.entries.update(points=every), how
        comment = obj.entries['comment']
        obj.entries['comment'] = 3
        return one, obj, 13, lambda: obj.entries.update(comment=comment), how
    one = formats.case(rng, 'POSCAR')
    obj = cx.must(call(Poscar, poscar_string=one.text, **one.kwargs), 'valid-rejected', one.text)
    site = rng.choice(obj.get('sites'))
    how = rng.choice(['not-direct', 'position', 'comment', 'cell'])
    if how == 'not-direct':
        site.set_direct(False)
        return one, obj, 306, lambda: site.set_direct(True), how
    if how == 'position':
        keep = site.get_position()
        site.set_position(rng.choice(['abc', [None, None, None], np.zeros(0)]))
        return one, obj, Exception, lambda: site.set_position(keep), how
    if how == 'comment':
        comment = obj.entries['comment']
        obj.entries['comment'] = 3
        return one, obj, 13, lambda: obj.entries.update(comment=comment), how
    cell = obj.entries['unitcell']
    obj.entries['unitcell'] = 'cubic'
    return one, obj, 13, lambda: obj.entries.update(unitcell=cell), how


def judge(cx, out, expected, what):
    if expected is Exception:
        cx.event('oracle.comparisons')
        cx.check(out.kind == 'exc' or (out.kind == 'exit' and out.value), 'accepted', f'{what}: {out!r}')
    else:
        cx.must_exit(out, [expected], 'refused-differently', what)


def refused(rng, cx):
    """A request that can not be met leaves what is there as it is."""
    which = rng.choice(['content', 'content', 'request'])
    opened = descriptors()
    if which == 'content':
        one, obj, expected, repair, how = spoiled(rng, cx)
        cx.event('unwritable.' + one.name + '.' + how)
        cx.sample(format=one.name, text=one.text[:4000], kwargs=repr(one.kwargs), spoiled=how)
        path, kind = target(rng, cx, one, one.text)
        before = state(path)
        seen = None if how == 'position' else formats.observe(cx, one, obj)
        for _ in range(rng.choice([1, 2])):
            judge(cx, call(obj.write, file_path=path), expected, f'{how} to a path ({kind})')
        cx.check(state(path) == before, 'file-touched', lambda: f'{kind}: {state(path)!r} instead of {before!r}')
        memory = io.StringIO('kept')
        judge(cx, call(obj.write, file_handler=memory), expected, f'{how} to memory')
        cx.check(not memory.closed, 'handle-closed', how)
        if expected is not Exception:
            cx.check(memory.getvalue() == 'kept', 'handle-touched', repr(memory.getvalue()))
        judge(cx, call(obj.get_string), expected, f'{how} as a string')
        if seen is not None:
            unchanged(cx, one, obj, seen, 'after the refusal')
        # with the mistake repaired everything is as before
        cx.must(call(repair), 'repair-rejected', how)
        text = wanted(cx, obj, one)
        fresh = cx.must(call(one.cls, **{formats.STRING[one.name]: one.text}, **one.kwargs), 'valid-rejected', one.name)
        cx.check(text == wanted(cx, fresh, one), 'instance-changed', lambda: f'after the repair: {text!r} instead of {wanted(cx, fresh, one)!r}')
        cx.must(call(obj.write, file_path=path), 'write-rejected', how)
        cx.check(content(path) == text, 'written-differs', lambda: f'after the repair: {content(path)!r} instead of {text!r}')
        cx.shape(one.name, how, kind)
    else:
        one, obj = made(rng, cx)
        text = wanted(cx, obj, one)
        opened = descriptors()
        before = formats.observe(cx, one, obj)
        path = cx.write(older(rng, one, text), 'target')
        there = state(path)
        how, kwargs, expected = wrong_request(rng, cx, obj, path)
        cx.sample(request=how)
        aim = kwargs.get('file_path')
        held = state(aim) if aim else None
        files = sorted(os.listdir(cx.scratch))
        cx.must_exit(call(obj.write, **kwargs), [expected], 'refused-differently', how)
        cx.check(state(path) == there, 'file-touched', how)
        cx.check(not aim or how == 'below-file' or state(aim) == held, 'file-touched', how)
        cx.check(sorted(os.listdir(cx.scratch)) == files, 'files-left', how)
        memory = kwargs.get('file_handler')
        if memory is not None:
            cx.check(not memory.closed and memory.getvalue() == '', 'handle-touched', how)
        unchanged(cx, one, obj, before, 'after the refusal')
        cx.must(call(obj.write, file_path=path), 'write-rejected', how)
        cx.check(content(path) == text, 'written-differs', lambda: f'after the refusal: {content(path)!r} instead of {text!r}')
        cx.shape(one.name, how)
    cx.check(descriptors() == opened, 'left-open', how)
    cx.event('refused')


def read_only(rng, cx):
    """The formats that have no writer say so, and touch nothing."""
    one = formats.case(rng, rng.choice(READ_ONLY))
    cx.sample(format=one.name, text=one.text[:4000], kwargs=repr(one.kwargs))
    obj = cx.must(call(one.cls, file_path=cx.write(formats.data(one)), **one.kwargs), 'valid-rejected', one.name)
    before = formats.observe(cx, one, obj)
    opened = descriptors()
    if rng.random() < .3:
        path = cx.write('kept', 'target')
        there = state(path)
        how, kwargs, expected = wrong_request(rng, cx, obj, path)
        out = call(obj.write, **kwargs)
        if expected == 14:  # there is nothing to open, either
            cx.check(out.kind == 'exc' and isinstance(out.exc, NotImplementedError), 'refused-differently', f'{one.name} {how}: {out!r}')
        else:
            cx.must_exit(out, [expected], 'refused-differently', how)
        cx.check(state(path) == there, 'file-touched', how)
    elif rng.random() < .6:
        path, kind = target(rng, cx, one, one.text)
        there = state(path)
        out = call(obj.write, file_path=path)
        cx.check(out.kind == 'exc' and isinstance(out.exc, NotImplementedError), 'refused-differently', f'{one.name}: {out!r}')
        cx.check(state(path) == there, 'file-touched', f'{one.name}, {kind}: {state(path)!r} instead of {there!r}')
    else:
        memory = io.StringIO('kept')
        out = call(obj.write, file_handler=memory)
        cx.check(out.kind == 'exc' and isinstance(out.exc, NotImplementedError), 'refused-differently', f'{one.name}: {out!r}')
        cx.check(not memory.closed and memory.getvalue() == 'kept', 'handle-touched', one.name)
    res = cmp.diff(before, formats.observe(cx, one, obj), where=one.name)
    cx.check(res is None, 'instance-changed', res)
    cx.check(descriptors() == opened, 'left-open', one.name)
    cx.event('read-only.' + one.name)
    cx.shape(one.name, sorted(before))


class Faulty(io.StringIO):
    """Memory that fails at one of the writes, once."""

    def __init__(self, at, fault):
        super().__init__()
        self.at = at
        self.fault = fault
        self.calls = 0

    def write(self, text):
        self.calls += 1
        if self.calls == self.at:
            raise self.fault
        return super().write(text)


def faults(rng, cx):
    """The fault reaches the caller as it is; nothing stays open, the instance stays what it was, and the write can be repeated."""
    one, obj = made(rng, cx)
    text = wanted(cx, obj, one)
    before = formats.observe(cx, one, obj)
    opened = descriptors()
    kind = rng.choice(['handler', 'handler', 'handler', 'full', 'full-handler', 'limit', 'user'])
    cx.sample(fault=kind)
    cx.event('fault.' + kind)
    if kind == 'handler':
        count = Faulty(0, None)
        cx.must(call(obj.write, file_handler=count), 'write-rejected', kind)
        if count.calls:
            fault = rng.choice([OSError(errno.ENOSPC, 'full'), ValueError('closed'), BrokenPipeError(errno.EPIPE, 'gone'), RuntimeError('x'), KeyError('x'), TypeError('x'), IndexError('x'),
                                AttributeError('x'), EOFError('x'), MemoryError('x'), UnicodeEncodeError('ascii', 'x', 0, 1, 'x'), StopIteration(1)])
            at = rng.choice([1, count.calls, rng.randint(1, count.calls)])
            handle = Faulty(at, fault)
            out = call(obj.write, file_handler=handle)
            cx.check(out.kind == 'exc' and out.exc is fault, 'fault-swallowed', f'{fault!r} at write {at} of {count.calls}: {out!r}')
            cx.check(handle.calls == at, 'written-on', f'{handle.calls} writes, the one that failed was {at}')
            cx.check(not handle.closed, 'handle-closed', kind)
            cx.check(text.startswith(io.StringIO.getvalue(handle)), 'written-differs', f'before the fault: {io.StringIO.getvalue(handle)!r}')
            cx.event('faults.injected')
    elif kind in ('full', 'full-handler'):
        if kind == 'full':
            out = call(obj.write, file_path='/dev/full')
        else:
            with open('/dev/full', 'w', encoding='utf8', buffering=rng.choice([1, -1])) as handle:
                out = call(obj.write, file_handler=handle)
                closed = handle.closed
                ended = call(handle.close)
            cx.check(not closed, 'handle-closed', kind)
            if ended.kind == 'exc':
                out = ended
        if text:
            cx.check(out.kind == 'exc' and isinstance(out.exc, OSError) and out.exc.errno == errno.ENOSPC or (one.name == 'KPOINTS' and kind == 'full-handler' and out.kind == 'exc'), 'fault-swallowed', f'{kind}: {out!r}')
            cx.event('faults.injected')
    elif kind == 'limit' and len(text.encode()) > 1:
        path = cx.write(rng.choice(['', 'older\n']), 'target')
        limit = rng.randrange(1, len(text.encode()))
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            out = call(obj.write, file_path=path)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        cx.check(out.kind == 'exc' and isinstance(out.exc, OSError) and out.exc.errno == errno.EFBIG, 'fault-swallowed', f'{limit} of {len(text)}: {out!r}')
        cx.event('faults.injected')
    elif kind == 'user':
        path = cx.write('kept', 'target')
        os.chmod(path, 0o444)
        there = state(path)
        try:
            os.seteuid(65534)
        except OSError:
            cx.event('no-other-user')
            return
        try:
            out = call(obj.write, file_path=path)
        finally:
            os.seteuid(0)
        cx.must_exit(out, [14], 'fault-swallowed', kind)
        cx.check(state(path) == there, 'file-touched', kind)
        cx.event('faults.injected')
    cx.check(descriptors() == opened, 'left-open', kind)
    unchanged(cx, one, obj, before, 'after the fault')
    path = cx.write('older content\n' * 40, 'again')
    cx.must(call(obj.write, file_path=path), 'write-rejected', 'again')
    cx.check(content(path) == text, 'written-differs', lambda: f'again: {content(path)!r} instead of {text!r}')
    memory = io.StringIO()
    cx.must(call(obj.write, file_handler=memory), 'write-rejected', 'again')
    cx.check(memory.getvalue() == text, 'written-differs', lambda: f'again: {memory.getvalue()!r} instead of {text!r}')
    cx.shape(one.name, kind, len(text) // 40)


REQUIRED = {'written': 600, 'refused': 600, 'faults.injected': 400}
REQUIRED.update({'read-only.' + name: 20 for name in READ_ONLY})
REQUIRED.update({'target.' + name: 30 for name in ('new', 'file', 'link', 'relative', 'memory', 'memory-used', 'append', 'update', 'line-buffered', 'pipe', 'inside')})
REQUIRED.update({'request.' + name: 15 for name in ('nothing', 'both', 'both-none', 'empty', 'no-path', 'no-handler', 'no-folder', 'folder', 'below-file', 'unknown')})
REQUIRED.update({'unwritable.' + name: 20 for name in ('KPOINTS.not-direct', 'KPOINTS.not-direct-dict', 'KPOINTS.no-points', 'KPOINTS.comment', 'POSCAR.not-direct', 'POSCAR.position', 'POSCAR.comment', 'POSCAR.cell')})
STREAMS = [Stream('succeeds', succeeds, 12000, 144000), Stream('refused', refused, 12000, 144000), Stream('read-only', read_only, 4000, 48000), Stream('faults', faults, 10000, 120000)]
