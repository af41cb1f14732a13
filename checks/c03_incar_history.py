"""C03: editing an INCAR object behaves like editing a map from tag to (value, comment)."""
import io

from parsevasp.incar import Incar

from rvlib import cmp, incar_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C03'
RULE = ('Random histories of 5-40 operations, some of 200-600 (add, replace, delete, look up, list, write, write and reload, validate) on one Incar over a '
        'small set of tags in mixed letter case, judged after every operation against a map. Distinct by the sequence of operations.')
ASSUMPTIONS = ['Single-threaded use of one object.']
REQUIRED = {'op.modify': 500, 'op.delete': 200, 'op.reload': 100, 'op.lookup': 200, 'op.validate': 50, 'history.long': 100}


def expect_state(cx, incar, model, after):
    res = cmp.diff({t: v for t, (v, _) in model.items()}, cx.must(call(incar.get_dict), 'get-failed'), where=after)
    cx.check(res is None, 'wrong-state', res)


def history(rng, cx, long=False):
    lines, start, coms, _ = gen.build(rng, max_lines=40 if long else 5)
    incar = cx.must(call(Incar, incar_string='\n'.join(lines)), 'valid-rejected')
    model = {t: (start[t], coms[t]) for t in start}
    pool = rng.sample(gen.plain_tags(), 60 if long else 4) + ['system', 'magmom'] + rng.sample(sorted(model), min(2, len(model)))
    ops = []
    bad = set()
    cx.sample(start=lines, ops=ops)
    for _ in range(rng.randint(200, 600) if long else rng.randint(5, 40)):
        op = rng.choice(['modify'] * 5 + ['delete'] * 3 + ['lookup', 'lookup', 'string', 'reload', 'validate', 'unknown'])
        tag = rng.choice(pool)
        name = gen.random_case(rng, tag)
        if rng.random() < .2:
            name = gen.pad(rng) + name + gen.pad(rng)
        cx.event('op.' + op)
        if op == 'modify':
            kind, text, val = gen.raw_value(rng) if tag in gen.RAW else gen.value(rng)
            given = text if isinstance(val, str) or rng.random() < .4 else cmp.freeze(val)
            com = rng.choice([None, None, 'why', '  padded ', 'a=b'])
            ops.append(('modify', name, given, com))
            cx.must(call(incar.modify, name, given, com) if com is not None else call(incar.modify, name, given), 'modify-failed', ops[-1])
            model[tag] = (val, None if com is None else com.strip())
        elif op == 'unknown':
            ops.append(('modify', 'MYTAG', 1))
            cx.must(call(incar.modify, 'MYTAG', 1), 'modify-failed')
            model['mytag'] = (1, None)
            bad.add('mytag')
            cx.must_exit(call(incar.validate), [100], 'unsupported-tag-accepted', 'validate with an unsupported tag')
            if rng.random() < .8:
                cx.must(call(incar.delete, 'mytag'), 'delete-failed')
                model.pop('mytag')
                bad.clear()
        elif op == 'delete':
            ops.append(('delete', name))
            cx.must(call(incar.delete, name), 'delete-failed', ops[-1])
            model.pop(tag, None)
        elif op == 'lookup':
            ops.append(('get', name))
            exp = model.get(tag, (None, None))
            res = cmp.diff(exp[0], cx.must(call(incar.get, name), 'get-failed'), where=f'get({name})')
            cx.check(res is None, 'wrong-lookup', res)
            res = cmp.diff(exp, cx.must(call(incar.get, name, comment=True), 'get-failed'), where=f'get({name}, comment=True)')
            cx.check(res is None, 'wrong-lookup', res)
        elif op == 'string':
            ops.append(('string',))
            again = cx.must(call(Incar, incar_string=incar.get_string(), validate_tags=False), 'own-output-rejected')
            res = cmp.diff({t: v for t, (v, _) in model.items()}, again.get_dict(), where='string')
            cx.check(res is None, 'wrong-state', res)
        elif op == 'validate':
            ops.append(('validate',))
            if bad:
                cx.must_exit(call(incar.validate), [100], 'unsupported-tag-accepted')
            else:
                cx.must(call(incar.validate), 'supported-tag-rejected')
        elif op == 'reload':
            ops.append(('reload',))
            if bad:
                cx.must(call(incar.delete, 'mytag'), 'delete-failed')
                model.pop('mytag', None)
                bad.clear()
            handle = io.StringIO()
            cx.must(call(incar.write, file_handler=handle, comments=True), 'write-failed')
            handle.seek(0)
            incar = cx.must(call(Incar, file_handler=handle), 'own-output-rejected')
            model = {t: (v, c or None) for t, (v, c) in model.items()}
        expect_state(cx, incar, model, f'after {ops[-1] if ops else op}')
    for tag, (val, com) in model.items():
        res = cmp.diff((val, com), incar.get(tag, comment=True), where=f'finally {tag}')
        cx.check(res is None, 'wrong-state', res)
    cx.shape([o[0] for o in ops])


def long_history(rng, cx):
    """The same over hundreds of operations and dozens of tags."""
    history(rng, cx, long=True)
    cx.event('history.long')


STREAMS = [Stream('long', long_history, 160, 1920), Stream('history', history, 25000, 300000)]
