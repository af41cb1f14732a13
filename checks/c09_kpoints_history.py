"""C09: editing a KPOINTS object changes exactly what was asked; what is written stays self-consistent."""
import numpy as np

from parsevasp.kpoints import Kpoint, Kpoints

from rvlib import cmp, kpoints_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C09'
RULE = ('Random histories of 4-25 edits, some of 100-300, (comment, divisions, shifts, centering, generating vectors, tetrahedra, all points, one point, '
        'delete point), lookups, writes and invalid edits on one Kpoints of any mode, judged after every operation against a plain record; everything handed over (dictionaries, lists, points) is watched for changes.')
ASSUMPTIONS = ['Single-threaded use of one object. The mode is changed only to explicit.']
REQUIRED = {'op.point': 200, 'op.delete': 200, 'op.points': 100, 'op.divisions': 50, 'op.shifts': 100, 'op.tetra': 50,
            'op.vectors': 20, 'rejections.observed': 300, 'op.string': 200, 'op.convert': 50, 'source.dict': 300, 'source.not-direct': 30, 'oracle.supplied': 3000, 'points.shared': 300, 'history.long': 100}


def new_point(rng, weight=True):
    vals = [gen.num(rng)[1] for _ in range(3)]
    wgt = gen.num(rng, rng.choice([1.0, 2.0, 0.5]))[1] if weight else 1.0
    return Kpoint(np.array(vals), wgt), [np.array(vals), wgt, True]


def snapshot(obj):
    """A deep copy of something handed to the package, Kpoint objects taken apart and their identity kept."""
    if isinstance(obj, Kpoint):
        return ('Kpoint', id(obj), obj.get_point().copy(), obj.get_weight(), obj.get_direct())
    if isinstance(obj, dict):
        return {k: snapshot(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [snapshot(v) for v in obj]
    return cmp.freeze(obj)


def unchanged(cx, supplied, after):
    """What the caller handed over is still what it was."""
    for obj, before in supplied:
        cx.event('oracle.supplied')
        res = cmp.diff(before, snapshot(obj), where='supplied')
        cx.check(res is None, 'supplied-changed', f'after {after}: {res}')


def state(cx, kpoints, model, after):
    res = cmp.diff(model, cx.must(call(kpoints.get_dict), 'get-failed', after), where=after)
    cx.check(res is None, 'wrong-state', res)


def invalid(rng, model):
    """Edits that are documented to be refused: (args, kwargs, codes)."""
    out = [(('comment', 7), {}, [13]), (('divisions', (2, 2, 2)), {}, [13]), (('divisions', [2, 2, 2.5]), {}, [13]),
           (('shifts', np.zeros(3)), {}, [13]), (('shifts', [0, 0, 0]), {}, [13]), (('centering', 'Body'), {}, [212]),
           (('mode', 'magic'), {}, [213]), (('num_kpoints', 2.0), {}, [13]), (('lattice', 1), {}, [207]),
           (('tetra', 'x'), {}, [13]), (('tetra', [[1, 2, 3, 4]]), {}, [201]), (('tetra', [(1, 2, 3, 4, 5)]), {}, [13]),
           (('tetra', [[1, 2, 3, 4, 5.0]]), {}, [13]), (('tetra_volume', 1), {}, [13]),
           (('generating_vectors', np.eye(3)), {}, [13]), (('generating_vectors', [[1, 0, 0]]), {}, [13]),
           (('generating_vectors', [(1.0, 0.0, 0.0)]), {}, [13]),
           (('comments', 'x'), {}, [207]), (('model', 'line'), {}, [207]), (('', 'line'), {}, [207]), (('mode', None), {}, [13, 213]),
           (('num_kpoints', None), {}, [13]), (('divisions', [2, 2]), {}, [13]), (('divisions', [2, 2, 2, 2]), {}, [13]),
           (('divisions', [2, 2, None]), {}, [13]), (('shifts', [0.0, 0.0]), {}, [13]), (('shifts', [0.0] * 4), {}, [13]),
           (('generating_vectors', [[1.0, 0.0, 0.0]] * 2), {}, [13]), (('generating_vectors', [[1.0, 0.0]] * 3), {}, [13]),
           (('points', [new_point(rng)[0], None]), {}, [210]), (('points', [[0.0, 0.0, 0.0]]), {}, [210]),
           (('points', [new_point(rng)[0], np.zeros(3)]), {}, [210]),
           (('points', [new_point(rng)[0], Kpoint(np.zeros(3), 1.0, direct=False)]), {}, [205]),
           (('points', (new_point(rng)[0],)), {}, [13]), (('points', [Kpoint(np.zeros(3), 1.0, direct=False)]), {}, [205])]
    if model['points'] is not None:
        number = len(model['points'])
        out += [(('points', [0, 0, 0]), {'point_number': 0}, [210]), (('points', new_point(rng)[0]), {'point_number': number}, [211]),
                (('points', new_point(rng)[0]), {'point_number': number + 9}, [211]),
                (('points', new_point(rng)[0]), {'point_number': '0'}, [13]), (('points', new_point(rng)[0]), {'point_number': 0.5}, [13]),
                (('points', None), {'point_number': 0}, [210]),
                (('points', Kpoint(np.zeros(3), 1.0, direct=False)), {'point_number': 0}, [205])]
    else:
        out += [(('points', new_point(rng)[0]), {'point_number': rng.choice([0, 1, 10])}, [211])]
    return out


def history(rng, cx, long=False):
    text, model, feats = gen.build(rng)
    supplied = []
    mode = model['mode']
    ops, kept = [], []
    if rng.random() < .5:
        kpoints = cx.must(call(Kpoints, kpoints_string=text), 'valid-rejected')
        cx.sample(text=text, ops=ops)
    else:
        if rng.random() < .3:
            model['comment'] = None
        given = gen.dict_source(model)
        supplied.append((given, snapshot(given)))
        cx.sample(given=repr(given), ops=ops)
        kpoints = cx.must(call(Kpoints, kpoints_dict=given), 'valid-rejected')
        cx.event('source.dict')
        if mode != 'automatic' and rng.random() < .2:
            # points that are not direct must never be written as if they were
            index = rng.randrange(len(given['points']))
            wrong = {**given, 'points': list(given['points'])}
            wrong['points'][index] = Kpoint(np.array([0.1, 0.2, 0.3]), 1.0, direct=False)
            cx.event('source.not-direct')
            out = call(Kpoints, kpoints_dict=wrong)
            if out.ok:
                cx.must_exit(call(out.value.get_string), [205], 'cartesian-written')
            else:
                cx.must_exit(out, [200, 205], 'cartesian-refused-differently')
    state(cx, kpoints, model, 'after construction')
    def allowed(mode):
        choices = ['comment', 'string', 'lookup', 'bad', 'bad']
        if mode == 'automatic':
            choices += ['shifts'] * 3 + (['vectors'] * 4 if model['generating_vectors'] else ['divisions'] * 3 + ['centering'] * 2)
            return choices + ['convert'] * (rng.random() < .5)
        choices += ['point'] * 3 + ['points'] + ['delete'] * 3
        return choices + (['tetra', 'tetra', 'number'] if mode == 'explicit' else ['number', 'convert'])

    choices = allowed(mode)
    for _ in range(rng.randint(100, 300) if long else rng.randint(4, 25)):
        op = rng.choice(choices)
        if op == 'delete' and len(model['points']) < 3:
            op = 'points'
        cx.event('op.' + op)
        edit = None
        if op == 'comment':
            edit = ('comment', rng.choice(['new', 'x 1', '', None]))
        elif op == 'divisions':
            edit = ('divisions', [rng.randint(1, 30) for _ in range(3)])
        elif op == 'shifts':
            edit = ('shifts', [gen.num(rng)[1] for _ in range(3)])
        elif op == 'centering':
            edit = ('centering', rng.choice(['Gamma', 'Monkhorst-Pack']))
        elif op == 'vectors':
            edit = ('generating_vectors', [[gen.num(rng)[1] for _ in range(3)] for _ in range(3)])
        elif op == 'number':
            edit = ('num_kpoints', rng.randint(2, 99))
        if edit is not None:
            ops.append(edit)
            given = cmp.freeze(edit[1])
            supplied.append((given, snapshot(given)))
            cx.must(call(kpoints.modify, edit[0], given), 'modify-failed', edit)
            model[edit[0]] = edit[1]
        elif op == 'tetra':
            value = [[rng.randint(1, 9) for _ in range(5)] for _ in range(rng.randint(1, 4))]
            vol = gen.num(rng, rng.uniform(.01, 1))[1]
            ops.append(('tetra', value, vol))
            cx.must(call(kpoints.modify, 'tetra', cmp.freeze(value)), 'modify-failed', ops[-1])
            cx.must(call(kpoints.modify, 'tetra_volume', vol), 'modify-failed', ops[-1])
            model['tetra'], model['tetra_volume'] = value, vol
        elif op == 'convert':
            # an automatic grid or a path replaced by an explicit list
            mode = 'explicit'
            if model['points'] is None:
                pairs = [new_point(rng) for _ in range(2 * rng.randint(1, 4))]
                cx.must(call(kpoints.modify, 'points', [p[0] for p in pairs]), 'modify-failed', op)
                model['points'] = [p[1] for p in pairs]
            ops.append(('convert', len(model['points'])))
            cx.must(call(kpoints.modify, 'mode', mode), 'modify-failed', op)
            model['mode'], model['num_kpoints'] = mode, len(model['points'])
            choices = allowed(mode)
        elif op == 'point':
            index = rng.randrange(len(model['points']))
            point, view = new_point(rng, mode == 'explicit')
            if kept and rng.random() < .3:
                # One that was already used
                point, view = rng.choice(kept)
                if mode != 'explicit':
                    point, view = Kpoint(view[0].copy(), 1.0), [view[0].copy(), 1.0, True]
                cx.event('points.shared')
            kept.append((point, view))
            ops.append(('point', index, repr(view)))
            supplied.append((point, snapshot(point)))
            cx.must(call(kpoints.modify, 'points', point, point_number=index), 'modify-failed', ops[-1])
            model['points'][index] = view
        elif op == 'points':
            pairs = [new_point(rng, mode == 'explicit') for _ in range(2 * rng.randint(1, 4))]
            if rng.random() < .3:
                # The same points, and even the same objects, can come up several times
                pairs = [rng.choice(pairs) for _ in pairs]
                cx.event('points.shared')
            kept += pairs
            ops.append(('points', len(pairs)))
            given = [p[0] for p in pairs]
            supplied.append((given, snapshot(given)))
            cx.must(call(kpoints.modify, 'points', given), 'modify-failed', ops[-1])
            model['points'] = [p[1] for p in pairs]
            if mode == 'explicit':
                model['num_kpoints'] = len(pairs)
        elif op == 'delete':
            index = rng.randrange(len(model['points']))
            ops.append(('delete', index))
            cx.must(call(kpoints.delete_point, index), 'delete-failed', ops[-1])
            del model['points'][index]
            if mode == 'explicit':
                model['num_kpoints'] = len(model['points'])
        elif op == 'lookup':
            ops.append(('lookup',))
            for key in ('comment', 'divisions', 'shifts', 'num_kpoints', 'tetra'):
                res = cmp.diff(model[key], kpoints.get(key), where=f'get({key})')
                cx.check(res is None, 'wrong-lookup', res)
        elif op == 'string':
            ops.append(('string',))
            if mode == 'line' and len(model['points']) % 2:
                continue
            out = cx.must(call(kpoints.get_string), 'write-failed')
            gen.check_written(cx, out, model, 0.51e-9, 'written')
            again = cx.must(call(Kpoints, kpoints_string=out), 'own-output-rejected', out)
            got = again.get_dict()
            if model['points'] is not None:
                cx.check(len(got['points']) == len(model['points']), 'roundtrip-differs', out)
        else:
            if rng.random() < .2:
                index, codes = rng.choice([(len(model['points'] or []), [211]), (1000, [211]), ('0', [13]), (1.0, [13])])
                ops.append(('bad delete', index))
                cx.must_exit(call(kpoints.delete_point, index), codes, 'invalid-edit-accepted', ops[-1])
            else:
                args, kwargs, codes = rng.choice(invalid(rng, model))
                ops.append(('bad', args[0], repr(args[1])[:50], kwargs))
                cx.must_exit(call(kpoints.modify, *args, **kwargs), codes, 'invalid-edit-accepted', ops[-1])
        state(cx, kpoints, model, f'after {ops[-1][:2]}')
        unchanged(cx, supplied, ops[-1][:2])
    cx.shape([o[0] for o in ops])


def long_history(rng, cx):
    """The same over hundreds of operations."""
    history(rng, cx, long=True)
    cx.event('history.long')


STREAMS = [Stream('long', long_history, 160, 1920), Stream('history', history, 16000, 192000)]
