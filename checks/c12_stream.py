"""C12: the messages recognized in a standard stream are exactly the known ones that are in it."""
import io

from parsevasp.stream import Stream as VaspOutput

from rvlib import cmp, stream_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C12'
RULE = ('Random standard streams (also with very long lines, and of thousands of lines) mixing ordinary output, every message of an independently kept catalogue, near misses, repeated and '
        'double messages, with and without the start banner, with own/overriding/inverse configuration, with and without history; '
        'instances with different configurations interleaved in one process.')
ASSUMPTIONS = ['messages within one line have no order of their own']
REQUIRED = {'seen.' + name: 10 for name in gen.CATALOGUE}
REQUIRED.update({'seen.nostart': 50, 'history': 200, 'config': 200, 'repeat-suppressed': 50, 'repeat-kept': 50, 'double-line': 20,
                 'own-inverse-missing': 20, 'override': 20, 'large': 50})


def observe(cx, text, own, history, how):
    kwargs = {}
    if own is not None:
        kwargs['config'] = own
    if history:
        kwargs['history'] = True
    if how == 'path':
        out = call(VaspOutput, file_path=cx.write(text, 'stdout'), **kwargs)
    elif how == 'crlf':
        out = call(VaspOutput, file_path=cx.write(text.replace('\n', '\r\n'), 'stdout'), **kwargs)
    elif how == 'handle':
        with open(cx.write(text, 'stdout'), encoding='utf8') as handle:
            out = call(VaspOutput, file_handler=handle, **kwargs)
    elif how == 'crlf-handle':
        with open(cx.write(text.replace('\n', '\r\n'), 'stdout'), encoding='utf8', newline='') as handle:
            out = call(VaspOutput, file_handler=handle, **kwargs)
    elif how == 'crlf-memory':
        out = call(VaspOutput, file_handler=io.StringIO(text.replace('\n', '\r\n'), newline=''), **kwargs)
    else:
        out = call(VaspOutput, file_handler=io.StringIO(text), **kwargs)
    return cx.must(out, 'stream-rejected', how)


def judge(cx, stream, lines, own, history):
    groups, missing, rules = gen.expected(lines, own, history)
    found = list(stream.entries)
    names = [e.shortname for e in found]
    want = [n for g in groups for n in sorted(g)] + missing
    got = list(names)
    at = 0
    for group in groups:
        got[at:at + len(group)] = sorted(got[at:at + len(group)])
        at += len(group)
    got[at:] = sorted(got[at:])
    cx.check(got == want, 'wrong-messages', f'expected {want}, observed {names} (history={history}, config={own})')
    cx.check(stream.number_of_entries == len(want) and stream.has_entries == bool(want), 'wrong-count',
             f'{stream.number_of_entries} {stream.has_entries}')
    for item in found:
        rule = rules[item.shortname]
        seen = (item.kind, item.location, item.recover, item.recoverable, item.inverse)
        need = (rule['kind'], rule['location'], rule['recover'], rule['recover'], rule['inverse'])
        cx.check(seen == need, 'wrong-attributes', f'{item.shortname}: expected {need}, observed {seen}')
        if 'message' in rule:
            cx.check(item.message == rule['message'] and item.suggestion == rule['suggestion'], 'wrong-attributes', item.shortname)
        else:
            cx.check(isinstance(item.message, str) and item.message, 'wrong-attributes', item.shortname)
        cx.check(str(item) == f'({item.kind}) {item.shortname}: {item.message}', 'wrong-attributes', str(item))
        cx.event('seen.' + item.shortname)
    for first in {id(e): e for e in found}.values():
        cx.check(sum(e is first for e in found) == 1, 'shared-entries', first.shortname)
    kinds = {r['kind'] for r in rules.values()}
    cx.check(set(stream.kinds) == kinds, 'wrong-kinds', f'{stream.kinds}')
    configured = {e.shortname for triggers in stream.configured_streams.values() for e in triggers}
    cx.check(configured >= {n for n, r in rules.items() if not r['inverse']} and configured <= set(rules),
             'wrong-configured', sorted(configured))
    return groups, missing


def detect(rng, cx):
    jobs = []
    for _ in range(rng.choice([1, 2, 3])):
        lines = gen.lines(rng)
        own = gen.config(rng) if rng.random() < .5 else None
        history = rng.random() < .5
        text = '\n'.join(lines) + ('\n' if rng.random() < .7 and lines else '')
        jobs.append((lines, text, own, history))
    cx.sample(text=jobs[0][1], config=jobs[0][2], history=jobs[0][3])
    made = []
    for lines, text, own, history in jobs:
        keep = cmp.freeze(own)
        made.append(observe(cx, text, own, history, rng.choice(['path', 'crlf', 'handle', 'memory', 'crlf-handle', 'crlf-memory'])))
        cx.check(cmp.same(keep, own), 'config-modified', f'{own}')
    order = list(range(len(jobs)))
    rng.shuffle(order)
    for i in order:
        lines, text, own, history = jobs[i]
        groups, missing = judge(cx, made[i], lines, own, history)
        flat = [n for g in groups for n in g]
        if history:
            cx.event('history')
            if len(flat) != len(set(flat)):
                cx.event('repeat-kept')
        else:
            full, _, _ = gen.expected(lines, own, True)
            if sum(len(g) for g in full) > len(flat):
                cx.event('repeat-suppressed')
        if own:
            cx.event('config')
            if set(own) & set(gen.CATALOGUE):
                cx.event('override')
            if any(m != 'nostart' for m in missing):
                cx.event('own-inverse-missing')
        if any(len(g) > 1 for g in groups):
            cx.event('double-line')
        cx.shape(tuple(map(tuple, groups)), tuple(missing), history)


def large(rng, cx):
    """A message or two, anywhere in the output of a long calculation."""
    size = rng.choice([300, 1000, 1024, 4096, 10000])
    lines = [rng.choice(gen.QUIET[:14]) for _ in range(size)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        text = gen.CATALOGUE[rng.choice(list(gen.CATALOGUE))][0]
        where = rng.choice([0, len(lines), rng.randint(0, len(lines)), rng.randint(0, len(lines))])
        for _ in range(rng.choice([1, 1, 2, 150])):
            lines.insert(where, ' ' + text)
    if rng.random() < .7:
        lines.insert(rng.choice([0, 0, rng.randint(0, len(lines))]), rng.choice(gen.STARTS))
    own = gen.config(rng) if rng.random() < .3 else None
    history = rng.random() < .5
    cx.sample(size=len(lines), config=own, history=history, messages=[(i, x) for i, x in enumerate(lines) if x not in gen.QUIET][:20])
    made = observe(cx, '\n'.join(lines) + '\n', own, history, rng.choice(['path', 'crlf', 'handle', 'memory']))
    groups, missing = judge(cx, made, lines, own, history)
    cx.event('large')
    cx.shape(len(lines), tuple(map(tuple, groups)), tuple(missing), history)


STREAMS = [Stream('detect', detect, 4800, 57600), Stream('large', large, 120, 1440)]
