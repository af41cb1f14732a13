"""C06: editing a POSCAR object changes exactly what was asked, and rejected edits change nothing."""
import numpy as np

from parsevasp.poscar import Poscar, Site

from rvlib import cmp, poscar_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C06'
RULE = ('Random histories of 4-25 edits, some of 100-300, (comment, cell, all sites, one site, delete site), lookups, writes and invalid edits on one Poscar, '
        'judged after every operation against a plain list of atoms; everything handed over (dictionaries, lists, sites, cells) is watched for changes. Distinct by the sequence of operations.')
ASSUMPTIONS = ['Single-threaded use of one object; edits give sites in direct coordinates (a Cartesian one has to be refused when writing).']
REQUIRED = {'op.site': 300, 'op.delete': 300, 'op.cell': 200, 'op.sites': 100, 'rejections.observed': 300, 'op.string': 100, 'source.dict': 300, 'oracle.supplied': 3000, 'sites.shared': 300, 'history.long': 60}


def new_site(rng, velocities, predictors):
    view = {'specie': rng.choice(gen.SPECIES).capitalize(), 'position': np.array(gen.coordinate(rng)),
            'selective': [rng.random() < .7 for _ in range(3)],
            'velocities': np.array([rng.uniform(-1, 1) for _ in range(3)]) if velocities else None,
            'predictors': np.array([rng.uniform(-1, 1) for _ in range(3)]) if predictors else None, 'direct': True}
    name = rng.choice([str.lower, str.upper, str.capitalize])(view['specie'])
    site = Site(name, view['position'].copy(), list(view['selective']), cmp.freeze(view['velocities']), cmp.freeze(view['predictors']))
    return site, view


def snapshot(obj):
    """A deep copy of something handed to the package, Site objects taken apart and their identity kept."""
    if isinstance(obj, Site):
        return ('Site', id(obj), obj.specie, snapshot(gen.view_site(obj)))
    if isinstance(obj, dict):
        return {k: snapshot(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [snapshot(v) for v in obj]
    return cmp.freeze(obj)


def unchanged(cx, supplied, after):
    """What the caller handed over is still what it was."""
    for obj, before in supplied:
        cx.event('oracle.supplied')
        res = cmp.diff(before, snapshot(obj), where='supplied')
        cx.check(res is None, 'supplied-changed', f'after {after}: {res}')


def state(cx, poscar, model, after):
    for direct, want in ((True, model), (False, gen.to_cart(model))):
        res = cmp.diff(want, cx.must(call(poscar.get_dict, direct=direct), 'get-failed', after), rtol=1e-9, atol=1e-9, where=after)
        cx.check(res is None, 'wrong-state', res)


def history(rng, cx, long=False):
    vel, pre = rng.random() < .3, rng.random() < .3
    text, model, _ = gen.build(rng, velocities=vel, predictors=pre)
    model = {**model, 'sites': list(model['sites'])}
    supplied = []
    if rng.random() < .5:
        poscar = cx.must(call(Poscar, poscar_string=text, conserve_order=True), 'valid-rejected')
        source = 'text'
    else:
        if rng.random() < .3:
            model['comment'] = None
        given = gen.sites_for_dict(rng, model)
        supplied.append((given, snapshot(given)))
        poscar = cx.must(call(Poscar, poscar_dict=given, conserve_order=True), 'valid-rejected')
        source = 'dict'
        cx.event('source.dict')
    ops, kept = [], []
    cx.sample(text=text, source=source, ops=ops)
    state(cx, poscar, model, 'after construction')
    unchanged(cx, supplied, 'construction')
    for _ in range(rng.randint(100, 300) if long else rng.randint(4, 25)):
        op = rng.choice(['site', 'site', 'delete', 'delete', 'cell', 'comment', 'sites', 'string', 'lookup', 'cartesian', 'bad', 'bad'])
        if op == 'delete' and len(model['sites']) < 2:
            op = 'sites'
        cx.event('op.' + op)
        if op == 'site':
            index = rng.randrange(len(model['sites']))
            site, view = new_site(rng, vel, pre)
            if kept and rng.random() < .3:
                # One that was already used
                site, view = rng.choice(kept)
                cx.event('sites.shared')
            kept.append((site, view))
            ops.append(('site', index, view))
            supplied.append((site, snapshot(site)))
            cx.must(call(poscar.modify, 'sites', site, site_number=index), 'modify-failed', ops[-1])
            model['sites'][index] = view
        elif op == 'delete':
            index = rng.randrange(len(model['sites']))
            ops.append(('delete', index))
            cx.must(call(poscar.delete_site, index), 'delete-failed', ops[-1])
            del model['sites'][index]
        elif op == 'cell':
            model['unitcell'] = gen.cell(rng)
            ops.append(('cell', model['unitcell'].tolist()))
            given = model['unitcell'].copy()
            supplied.append((given, snapshot(given)))
            cx.must(call(poscar.modify, 'unitcell', given), 'modify-failed', ops[-1])
        elif op == 'comment':
            model['comment'] = rng.choice(['new', 'another one', '', 'x 1', None])
            ops.append(('comment', model['comment']))
            cx.must(call(poscar.modify, 'comment', model['comment']), 'modify-failed', ops[-1])
        elif op == 'sites':
            pairs = [new_site(rng, vel, pre) for _ in range(rng.randint(1, 6))]
            if rng.random() < .3:
                # The same objects can come up several times
                pairs = [rng.choice(pairs) for _ in pairs]
                cx.event('sites.shared')
            kept += pairs
            ops.append(('sites', [p[1] for p in pairs]))
            given = [p[0] for p in pairs]
            supplied.append((given, snapshot(given)))
            cx.must(call(poscar.modify, 'sites', given), 'modify-failed', ops[-1])
            model['sites'] = [p[1] for p in pairs]
        elif op == 'lookup':
            ops.append(('lookup',))
            res = cmp.diff([model['comment'], model['unitcell']], [poscar.get('comment'), poscar.get('unitcell')], rtol=1e-12)
            cx.check(res is None, 'wrong-lookup', res)
            cx.check(poscar.get('nothing') is None, 'wrong-lookup', 'an unknown entry should give None')
        elif op == 'cartesian':
            # a site in Cartesian coordinates can not be written
            index = rng.randrange(len(model['sites']))
            ops.append(('cartesian', index))
            old = poscar.get('sites')[index]
            site, _ = new_site(rng, vel, pre)
            site.set_direct(False)
            if call(poscar.modify, 'sites', site, site_number=index).ok:
                cx.must_exit(call(poscar.get_string), [306], 'cartesian-site-written')
                cx.must(call(poscar.modify, 'sites', old, site_number=index), 'modify-failed', ops[-1])
        elif op == 'string':
            ops.append(('string',))
            out = cx.must(call(poscar.get_string), 'write-failed')
            try:
                _, mat, _, _, sites = gen.read_back(out)
            except (ValueError, IndexError) as exc:
                cx.fail('malformed-output', f'{exc}\n{out}')
            res = cmp.diff({'cell': model['unitcell'], 'sites': model['sites']}, {'cell': mat, 'sites': sites}, atol=1e-11)
            cx.check(res is None, 'wrong-output', f'{res}\n{out}')
        else:
            bad = [(('unitcell', [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), {}, [13]), (('unitcell', np.eye(2)), {}, [13]),
                   (('unitcell', np.zeros(9)), {}, [13]),
                   (('sites', tuple(poscar.get('sites'))), {}, [13]), (('sites', {'specie': 'H'}), {'site_number': 0}, [13]),
                   (('sites', new_site(rng, vel, pre)[0]), {'site_number': len(model['sites'])}, [304]),
                   (('sites', new_site(rng, vel, pre)[0]), {'site_number': len(model['sites']) + 7}, [304]),
                   (('sites', new_site(rng, vel, pre)[0]), {'site_number': 'one'}, [13]),
                   (('sites', new_site(rng, vel, pre)[0]), {'site_number': 0.0}, [13]),
                   (('lattice', np.eye(3)), {}, [305]), (('comment', 5), {}, [13]), (('comment', ['x']), {}, [13]),
                   (('comments', 'x'), {}, [305]), (('unitcell2', np.eye(3)), {}, [305]), (('mysites', []), {}, [305]), (('', 'x'), {}, [305]),
                   (('sites', None), {}, [13]), (('unitcell', None), {}, [13]), (('sites', None), {'site_number': 0}, [13]),
                   (('sites', [poscar.get('sites')[0], None]), {}, [13]), (('sites', [np.zeros(3)]), {}, [13]),
                   (('sites', [poscar.get('sites')[0], {'specie': 'H'}]), {}, [13])]
            args, kwargs, codes = rng.choice(bad)
            if rng.random() < .2:
                index, codes = rng.choice([(len(model['sites']), [304]), (1000, [304]), ('0', [13]), (1.0, [13])])
                ops.append(('bad delete', index))
                cx.must_exit(call(poscar.delete_site, index), codes, 'invalid-edit-accepted', ops[-1])
            else:
                ops.append(('bad', args[0], repr(args[1])[:60], kwargs))
                cx.must_exit(call(poscar.modify, *args, **kwargs), codes, 'invalid-edit-accepted', ops[-1])
        state(cx, poscar, model, f'after {ops[-1][:2]}')
        unchanged(cx, supplied, ops[-1][:2])
    cx.shape([o[0] for o in ops])


def long_history(rng, cx):
    """The same over hundreds of operations."""
    history(rng, cx, long=True)
    cx.event('history.long')


STREAMS = [Stream('long', long_history, 96, 1200), Stream('history', history, 7500, 90000)]
