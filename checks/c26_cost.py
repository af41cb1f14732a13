"""C26: work and memory grow in proportion to the content, and not with what the process did before."""
import gc
import io
import os
import random
import sys
import time
import tracemalloc

import parsevasp
from rvlib import formats, scale_gen
from rvlib.core import Stream, call

PROPERTY = 'C26'
RULE = ('Content of all ten formats along 42 directions of growth (sites, points, steps, bands, grid, lines ...), read, asked and written at sizes n, 4n and 16n while every line executed in parsevasp is counted and '
        'allocations are traced (also the bytes per line, which shows copies of lists), and at 4n and 64n with a clock; and random reading, refusing, editing, writing and dropping of all formats again and again, with lines, living objects and memory compared from round to round.')
ASSUMPTIONS = ['Work inside compiled parts (numpy, lxml, re) is seen by the clock only, which is given a wide margin.', 'Constant costs, and costs that grow slower than the content, are fine.']
PACKAGE = os.path.dirname(os.path.abspath(parsevasp.__file__)) + os.sep
NAMES = sorted(scale_gen.SCALES)
REQUIRED = {'direction.' + name: 2 for name in NAMES}
REQUIRED.update({'lines': 800000, 'clocked': 80, 'allocations': 100000000, 'rounds.' + 'INCAR': 10, 'rounds.refused': 50, 'rounds': 200})
REQUIRED.update({'rounds.' + name: 10 for name in formats.FORMATS})
# linear growth gives 4 between (4n - n) and (16n - 4n), quadratic 16
GROWTH = 7.5
COPIES = 6
CPU_LIMIT = 240.0  # the lines are watched, which takes far longer than the work
CLOCK = 80  # linear growth gives 16, quadratic 256


class Nobody:
    """Stands in for the context, which is not to be measured."""

    def event(self, *_):
        pass


class Lines:
    """Counts the lines executed in parsevasp, and what they allocate, if only for themselves."""

    def __init__(self, allocations=False):
        self.allocations = allocations

    def __enter__(self):
        self.count = 0
        self.allocated = 0
        self.before = sys.gettrace()
        watch = self.allocations
        current = tracemalloc.get_traced_memory
        reset = tracemalloc.reset_peak
        now = 0
        if watch:
            tracemalloc.start()
            now = current()[0]

        def line(_frame, what, _arg):
            nonlocal now
            if what == 'line':
                self.count += 1
            if watch:
                held, peak = current()
                if peak > now:
                    # since the line before
                    self.allocated += peak - now
                reset()
                now = held
            return line

        def enter(frame, _what, _arg):
            nonlocal now
            if not frame.f_code.co_filename.startswith(PACKAGE):
                return None
            if watch and not (frame.f_back and frame.f_back.f_code.co_filename.startswith(PACKAGE)):
                # what happened outside does not count
                reset()
                now = current()[0]
            return line

        sys.settrace(enter)
        return self

    def __exit__(self, *_):
        sys.settrace(self.before)
        if self.allocations:
            tracemalloc.stop()


def use(one, path, target):
    """Read, ask everything, write."""
    made = call(one.cls, file_path=path, **one.kwargs)
    if not made.ok:
        return made
    answers = formats.observe(Nobody(), one, made.value)
    if one.name in formats.WRITABLE:
        wrote = call(made.value.write, file_path=target)
        if not wrote.ok:
            return wrote
    made.value = answers
    return made


def growth(rng, cx):
    name = NAMES[cx.index % len(NAMES)]
    fmt, gen, base = scale_gen.SCALES[name]
    kwargs = {}
    if fmt == 'vasprun.xml':
        kwargs = {'event': name != 'xml cut' and rng.random() < .6}
    if fmt == 'POSCAR':
        kwargs = {'conserve_order': rng.random() < .5, 'write_direct': rng.random() < .5}
    if fmt == 'INCAR':
        kwargs = {'validate_tags': name != 'incar tags'}
    if fmt == 'stdout':
        kwargs = {'history': rng.random() < .5}
    seed = rng.random()
    size = max(4, int(base * rng.uniform(.5, 1.2)))
    cx.sample(direction=name, size=size, kwargs=kwargs, seed=seed)
    cx.event('direction.' + name)
    one = formats.Case(fmt, formats.FORMATS[fmt][0], None, kwargs)
    target = cx.path('written')

    def content(count):
        text = gen(random.Random(seed), count)
        return cx.write(text.encode('latin-1' if fmt == 'vasprun.xml' else 'utf8'), fmt), len(text)

    points, given = [], []  # lines and memory, allocations
    for factor in (1, 4, 16):
        path, length = content(size * factor)
        cx.must(use(one, path, target), 'valid-rejected', name)  # and what is made once is made
        with Lines() as lines:
            use(one, path, target)
        gc.collect()
        tracemalloc.start()
        use(one, path, target)
        peak = tracemalloc.get_traced_memory()[1]
        tracemalloc.stop()
        points.append((length, lines.count, peak))
        cx.event('lines', lines.count)
    wide = (points[2][0] - points[1][0]) / (points[1][0] - points[0][0]) / 4  # the content itself
    for what, pos, slack in (('lines', 1, 400), ('memory', 2, 60000)):
        low, high = points[1][pos] - points[0][pos], points[2][pos] - points[1][pos]
        allowed = GROWTH * wide * max(low, 0) + slack
        if what == 'memory' and low < .1 * points[0][pos]:
            # up to here something else takes more, such as the configuration of the messages
            allowed = max(allowed, 3.5 * wide * points[1][pos])
        cx.check(high <= allowed, f'{what}-grow-faster', f'{name} {kwargs}: {points}')
    cx.shape(name, tuple(kwargs.items()), points[0][1])
    # what is allocated is not held for long when lists are copied again and again
    # as far as it takes seconds; lines of long functions take longer to be told
    most = (100000 if kwargs.get('event') else 300000) / points[2][1]
    most = 4 if most > 4 else 2 if most > 2 else 1 if most > 1 else .5 if most > .5 else .25
    for factor in (most, 4 * most, 16 * most):
        path, length = content(max(4, int(size * factor)))
        with Lines(True) as lines:
            use(one, path, target)
        given.append((length, lines.allocated))
    wide = (given[2][0] - given[1][0]) / (given[1][0] - given[0][0]) / 4
    low, high = given[1][1] - given[0][1], given[2][1] - given[1][1]
    cx.check(high <= COPIES * wide * max(low, 0) + 200000, 'allocations-grow-faster', f'{name} {kwargs}: {given}')
    cx.event('allocations', given[2][1])
    # the clock sees what happens inside of the compiled parts, too
    small, large = content(size * 4)[0], content(size * 64)[0]
    for attempt in range(4):
        times = []
        for path in (small, large):
            best = None
            for _ in range(4 if path == small else 2):
                start = time.process_time()
                use(one, path, target)
                taken = time.process_time() - start
                best = taken if best is None else min(best, taken)
            times.append(best)
        if times[1] <= CLOCK * max(times[0], 0.001):
            break
    else:
        cx.check(False, 'time-grows-faster', f'{name} {kwargs}: {times}')
    cx.event('clocked')


def rounds(rng, cx):
    """The same again and again: nothing may pile up."""
    plan = []
    for _ in range(rng.randint(2, 4)):
        one = formats.case(rng)
        raw = formats.data(one)
        how = rng.choice(['path', 'path', 'memory', 'handle'])
        bad = None
        if rng.random() < .5:
            bad = raw[:rng.randrange(len(raw))] if rng.random() < .6 else b'what is this\n' * 3
        plan.append((one, raw, cx.write(raw, one.name), how, bad, cx.write(bad, one.name) if bad is not None else None, cx.path('written')))
        cx.event('rounds.' + one.name)
    cx.sample(formats=[p[0].name for p in plan], refused=[p[4] is not None for p in plan])

    def once():
        for one, raw, path, how, bad, bad_path, target in plan:
            if how == 'path':
                made = call(one.cls, file_path=path, **one.kwargs)
            elif how == 'memory':
                made = call(one.cls, file_handler=io.BytesIO(raw) if one.name == 'vasprun.xml' else io.StringIO(one.text), **one.kwargs)
            else:
                with open(path, encoding='latin-1' if one.name == 'vasprun.xml' else 'utf8') as handle:
                    made = call(one.cls, file_handler=handle, **one.kwargs)
            cx.must(made, 'valid-rejected', one.name)
            formats.observe(Nobody(), one, made.value)
            if one.name in formats.WRITABLE:
                call(made.value.modify, 'comment' if one.name != 'INCAR' else 'encut', 'edited' if one.name != 'INCAR' else 300)
                call(made.value.write, file_path=target)
            if one.name in formats.DICT and one.name != 'KPOINTS':
                given = made.value.get_dict()
                call(one.cls, **{formats.DICT[one.name]: given})
            if bad is not None:
                refused = call(one.cls, file_path=bad_path, **one.kwargs)
                if refused.ok:
                    formats.observe(Nobody(), one, refused.value)
                else:
                    cx.event('rounds.refused')
                call(one.cls)
                call(one.cls, file_path=bad_path + '.gone', **one.kwargs)

    def state():
        gc.collect()
        objects, size = len(gc.get_objects()), tracemalloc.get_traced_memory()[0]
        kept = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, PACKAGE + '*')])
        held = {(t.traceback[0].filename, t.traceback[0].lineno): (t.count, t.size) for t in kept.statistics('lineno')}
        return objects, size, held

    for _ in range(3):
        once()
    with Lines() as first:
        once()
    count = 12
    tracemalloc.start()
    try:
        for _ in range(3):
            once()
        before = state()
        story = []
        for attempt in range(3):
            for _ in range(count):
                once()
                cx.event('rounds')
            after = state()
            # what a line of parsevasp made in every round, and what is still there
            held = {where: (have, before[2].get(where, (0, 0))) for where, have in after[2].items()}
            held = {where: (have, had) for where, (have, had) in held.items() if have[0] - had[0] >= count and have[1] - had[1] >= 150 * (have[0] - had[0])}  # the interpreter keeps some short names
            story.append((after[0] - before[0], after[1] - before[1], held))
            wrong = after[0] - before[0] >= count or after[1] - before[1] >= count * 5000 or held
            if not wrong:
                break
            before = after
        else:
            cx.check(False, 'memory-piles-up', f'{[p[0].name for p in plan]}: (objects, bytes, lines) {story}')
        cx.check(True, 'memory-piles-up')
    finally:
        tracemalloc.stop()
    with Lines() as last:
        once()
    cx.check(last.count == first.count, 'work-grows-with-history', f'{[p[0].name for p in plan]}: {first.count} lines in the fourth round, {last.count} in the last')
    cx.event('lines', last.count)
    cx.shape('rounds', tuple(p[0].name for p in plan), last.count)


STREAMS = [Stream('growth', growth, 84, 1260), Stream('rounds', rounds, 120, 3200)]
