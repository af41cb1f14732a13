"""C22: questions never change an instance, instances never influence each other, also when used from several threads."""
import sys
import threading

import numpy as np

from parsevasp.kpoints import Kpoint
from parsevasp.poscar import Site

from rvlib import cmp, formats, incar_gen, kpoints_gen, poscar_gen
from rvlib.core import Stream, call

PROPERTY = 'C22'
RULE = ('Random valid files of all ten formats. Questions are asked in random orders and again, instances are made, asked, edited and dropped in random '
        'interleavings, in one thread and in several (switching every microsecond); every answer is compared with the one of an instance used alone.')
ASSUMPTIONS = ['An instance is used by one thread at a time; different instances by any number of threads.']
REQUIRED = {'format.' + name: 40 for name in formats.FORMATS}
REQUIRED.update({'order.compared': 500, 'interleaved.compared': 500, 'edited': 300, 'threads.compared': 1000, 'threads.switches': 1000})


def make(cx, one, rng=None):
    """An instance from a path or from memory."""
    if rng is not None and rng.random() < .5:
        return cx.must(call(one.cls, file_path=cx.write(formats.data(one), one.name), **one.kwargs), 'valid-rejected', one.name)
    ways = formats.sources(cx, one, None)
    source = dict((w[0], w[1]) for w in ways)['memory']
    out = cx.must(call(one.cls, **source, **one.kwargs), 'valid-rejected', one.name)
    for way in ways:
        if way[2] is not None:
            way[2].close()
    return out


def orders(rng, cx):
    one = formats.case(rng)
    cx.event('format.' + one.name)
    cx.sample(format=one.name, text=one.text[:4000], kwargs=repr(one.kwargs))
    asked = formats.queries(one)
    names = sorted(asked)
    base = formats.observe(cx, one, make(cx, one), names)
    obj = make(cx, one, rng)
    handed = []
    for turn in range(3):
        order = [rng.choice(names) for _ in range(len(names))] + names
        if turn:
            rng.shuffle(order)
        for name in order:
            out = call(asked[name], obj)
            got = out.value if out.ok else (out.kind, str(out.value))
            res = cmp.diff(base[name], got, where=f'{one.name}: {name} (turn {turn})')
            cx.check(res is None, 'answer-depends-on-questions', f'{res}\nasked before: {order}')
            handed.append((name, got))
        cx.event('order.compared')
    for name, got in handed:
        res = cmp.diff(base[name], got, where=f'{one.name}: {name} handed out earlier')
        cx.check(res is None, 'answer-changed-later', res)
    cx.shape(one.name, order[:6])


def edit(rng, cx, one, obj):
    """Some edit of a writable instance."""
    if one.name == 'INCAR':
        kind, _, val = incar_gen.value(rng)
        tag = rng.choice(incar_gen.plain_tags())
        if rng.random() < .3 and obj.get_dict():
            return call(obj.delete, rng.choice(sorted(obj.get_dict())))
        return call(obj.modify, tag, val)
    if one.name == 'POSCAR':
        kind = rng.choice(['comment', 'unitcell', 'site', 'delete', 'sites', 'position'])
        count = len(obj.get('sites'))
        site = Site(rng.choice(poscar_gen.SPECIES), np.array(poscar_gen.coordinate(rng)))
        if kind == 'delete' and count > 1:
            return call(obj.delete_site, rng.randrange(count))
        if kind == 'site':
            return call(obj.modify, 'sites', site, site_number=rng.randrange(count))
        if kind == 'sites':
            return call(obj.modify, 'sites', [site])
        if kind == 'unitcell':
            return call(obj.modify, 'unitcell', poscar_gen.cell(rng))
        return call(obj.modify, 'comment', 'edited')
    kind = rng.choice(['comment', 'point', 'delete', 'points', 'shifts'])
    points = obj.get('points')
    point = Kpoint(np.array([kpoints_gen.num(rng)[1] for _ in range(3)]), 1.0)
    if points and kind == 'delete' and len(points) > 1:
        return call(obj.delete_point, rng.randrange(len(points)))
    if points and kind == 'point':
        return call(obj.modify, 'points', point, point_number=rng.randrange(len(points)))
    if points and kind == 'points':
        return call(obj.modify, 'points', [point])
    if kind == 'shifts':
        return call(obj.modify, 'shifts', [0.25, 0.25, 0.5])
    return call(obj.modify, 'comment', 'edited')


def interleaved(rng, cx):
    """Many instances at a time, made from few contents, some of them edited."""
    cases = [formats.case(rng) for _ in range(rng.randint(1, 3))]
    if rng.random() < .6:
        cases.append(formats.case(rng, rng.choice(formats.WRITABLE)))
    base = [formats.observe(cx, one, make(cx, one)) for one in cases]
    shared = {}
    supplied = {}
    for i, one in enumerate(cases):
        if one.name in formats.DICT and rng.random() < .7:
            # one dictionary for several instances
            if one.name == 'INCAR':
                given = dict(make(cx, one).get_dict())
                for tag in sorted(given):
                    if rng.random() < .3:
                        given[tag] = incar_gen.pad(rng) + incar_gen.value(rng)[1] + incar_gen.pad(rng)
                supplied[i] = cmp.freeze(given)
            else:
                given = make(cx, one).get_dict()
                if one.name == 'KPOINTS' and given['points'] is not None:
                    given['points'] = [Kpoint(np.array(p), w, direct=d) for p, w, d in given['points']]
            kwargs = {formats.DICT[one.name]: given, **one.kwargs}
            shared[i] = kwargs
            base[i] = (base[i], formats.observe(cx, one, cx.must(call(one.cls, **kwargs), 'valid-rejected')))
        else:
            base[i] = (base[i], None)
    cx.sample(formats=[c.name for c in cases], texts=[c.text[:2500] for c in cases])
    alive = []  # (case number, instance, base or None when edited)
    story = []
    for _ in range(rng.randint(6, 18)):
        step = rng.choice(['new', 'new', 'ask', 'ask', 'edit', 'edit', 'drop'])
        if step == 'new' or not alive:
            i = rng.randrange(len(cases))
            if i in shared and rng.random() < .7:
                alive.append([i, cx.must(call(cases[i].cls, **shared[i]), 'valid-rejected'), base[i][1]])
            else:
                alive.append([i, make(cx, cases[i], rng), base[i][0]])
        elif step == 'drop':
            del alive[rng.randrange(len(alive))]
        elif step == 'ask':
            i, obj, want = rng.choice(alive)
            if want is not None:
                res = cmp.diff(want, formats.observe(cx, cases[i], obj), where=cases[i].name)
                cx.check(res is None, 'instances-not-independent', f'{res}\n{story}')
                cx.event('interleaved.compared')
        else:
            mine = [entry for entry in alive if cases[entry[0]].name in formats.WRITABLE]
            if mine:
                entry = rng.choice(mine)
                handed = entry[1].get_dict()
                keep = cmp.freeze(handed)
                out = edit(rng, cx, cases[entry[0]], entry[1])
                res = cmp.diff(keep, handed, where=f'{cases[entry[0]].name} dictionary handed out before an edit')
                cx.check(res is None, 'answer-changed-later', f'{res}\n{out}')
                entry[2] = None
                cx.event('edited')
                story.append((step, repr(out)[:60]))
                continue
        story.append((step, len(alive)))
    for i, obj, want in alive:
        if want is not None:
            res = cmp.diff(want, formats.observe(cx, cases[i], obj), where=cases[i].name)
            cx.check(res is None, 'instances-not-independent', f'{res}\n{story}')
            cx.event('interleaved.compared')
    for i, keep in supplied.items():
        cx.check(cmp.same(keep, shared[i]['incar_dict']), 'arguments-changed', lambda k=keep, n=i: f'{k} became {shared[n]["incar_dict"]}')
    # and new ones are what the first were
    for i, one in enumerate(cases):
        res = cmp.diff(base[i][0], formats.observe(cx, one, make(cx, one, rng)), where=one.name)
        cx.check(res is None, 'history-dependent', f'{res}\n{story}')
    cx.shape([c.name for c in cases], [s[0] for s in story])


def threads(rng, cx):
    """Several threads, each with instances of its own."""
    count = rng.randint(2, 6)
    same = rng.random() < .3
    first = formats.case(rng)
    jobs = []
    for _ in range(count):
        jobs.append([first if same else formats.case(rng) for _ in range(rng.randint(1, 3))])
    base = [[formats.observe(cx, one, make(cx, one)) for one in job] for job in jobs]
    paths = [[cx.write(formats.data(one), one.name) for one in job] for job in jobs]
    cx.sample(jobs=[[one.name for one in job] for job in jobs], same=same, texts=[job[0].text[:1500] for job in jobs])
    got = [None] * count
    trail = []
    gate = threading.Barrier(count)

    class Quiet:
        """Stands in for the context inside the threads."""

        def __init__(self, who):
            self.who = who

        def event(self, *_):
            trail.append(self.who)

    def work(who):
        answers = []
        gate.wait()
        for one, path in zip(jobs[who], paths[who]):
            trail.append(who)
            out = call(one.cls, file_path=path, **one.kwargs)
            answers.append(formats.observe(Quiet(who), one, out.value) if out.ok else repr(out))
        got[who] = answers

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        pool = [threading.Thread(target=work, args=(i,)) for i in range(count)]
        for thread in pool:
            thread.start()
        for thread in pool:
            thread.join()
    finally:
        sys.setswitchinterval(interval)
    for who in range(count):
        for k, one in enumerate(jobs[who]):
            res = cmp.diff(base[who][k], got[who][k] if got[who] is not None else None, where=f'{one.name} in thread {who}')
            cx.check(res is None, 'threads-interfere', res)
            cx.event('threads.compared')
    cx.event('threads.switches', sum(a != b for a, b in zip(trail, trail[1:])))
    cx.shape('threads', tuple(trail[:60]))


STREAMS = [Stream('orders', orders, 1400, 20000), Stream('interleaved', interleaved, 900, 15000), Stream('threads', threads, 500, 8000)]
