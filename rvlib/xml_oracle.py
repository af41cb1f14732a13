"""Judges what an Xml instance returns against the model the file was generated from."""
import io

from parsevasp.vasprun import Xml

from rvlib import cmp, xml_gen as gen
from rvlib.core import call

STATUS = ('initial', 'last', 'all')
ETYPES = ('energy_extrapolated', 'energy_free', 'energy_no_entropy')


def read(cx, text, how='bytes', **kwargs):
    """Parse the file given in one of the ways parsevasp accepts."""
    data = text if isinstance(text, bytes) else text.encode('latin-1')
    if how == 'path':
        return call(Xml, file_path=cx.write(data, 'vasprun.xml'), **kwargs)
    if how == 'bytes':
        return call(Xml, file_handler=io.BytesIO(data), **kwargs)
    path = cx.write(data, 'vasprun.xml')
    with (open(path, 'rb') if how == 'binary-file' else open(path, encoding='latin-1')) as handle:
        return call(Xml, file_handler=handle, **kwargs)


WAYS = ('path', 'bytes', 'binary-file', 'text-file')


def steps(cx, getter, truth, nsteps, every, what):
    """The entries of the ionic steps: truth maps each step to its array, or is empty when the file has none."""
    got = {status: cx.must(call(getter, status), 'getter-failed', f'{what} {status}') for status in STATUS}
    # If the last steps lack the entry, the last one that is given is the last
    want = {'initial': truth.get(1), 'last': truth.get(max(truth, default=1))}
    for status in ('initial', 'last'):
        res = cmp.diff(want[status], got[status], where=f'{what}[{status}]')
        cx.check(res is None, 'wrong-' + what, res)
    if got['all'] is None:
        cx.check(not truth, 'wrong-' + what, f'{what}[all] is None')
        return
    if not every:
        wanted = {1: want['initial'], 2: want['last']}
    elif not truth:
        wanted = {1: None, 2: None}
    else:
        wanted = dict(truth)
        if nsteps == 1 and set(got['all']) == {1, 2}:
            # the only step is both the initial and the last one
            wanted[2] = truth[1]
    res = cmp.diff(wanted, got['all'], where=f'{what}[all]')
    cx.check(res is None, 'wrong-' + what, res)


def structures(cx, xml, model, every=True):
    lat, dat, num = model['lattice'], model['data'], model['steps']
    steps(cx, xml.get_unitcell, lat['unitcell'], num, every, 'unitcell')
    steps(cx, xml.get_positions, lat['positions'], num, every, 'positions')
    steps(cx, xml.get_forces, dat['forces'], num, every, 'forces')
    steps(cx, xml.get_stress, dat['stress'], num, every, 'stress')
    plain(cx, xml.get_species, lat['species'], 'species')
    for status in STATUS:
        got = cx.must(call(xml.get_lattice, status), 'getter-failed', 'lattice')
        want = {'unitcell': xml.get_unitcell(status), 'positions': xml.get_positions(status), 'species': lat['species']}
        res = cmp.diff(want, got, where='lattice')
        cx.check(res is None, 'wrong-lattice', res)


def plain(cx, getter, want, what):
    got = cx.must(call(getter), 'getter-failed', what)
    res = cmp.diff(want, got, where=what)
    cx.check(res is None, 'wrong-' + what, res)


def parameters(cx, xml, model):
    got = cx.must(call(xml.get_parameters), 'getter-failed', 'parameters')
    res = cmp.diff(model['parameters'], got, where='parameters')
    cx.check(res is None, 'wrong-parameters', res)
    plain(cx, xml.get_version, model['version'], 'version')
    for name in ('kpoints', 'kpointsw'):
        plain(cx, getattr(xml, 'get_' + name), model['lattice'][name], name)
    div = xml.get_dict()['lattice']['kpointdiv']
    want = model['lattice']['kpointdiv']
    cx.check((div is None) == (want is None) and (want is None or list(div) == list(want)), 'wrong-kpointdiv', f'{want} {div}')


def energies(cx, xml, model, rng):
    truth = model['data']['totens']
    num = model['steps']
    etypes = rng.sample(ETYPES, rng.choice([1, 1, 2, 3]))
    if not all(name + '_final' in step for step in truth.values() for name in ETYPES):
        # The final energies are not there, nothing is given then
        for status in STATUS:
            got = cx.must(call(xml.get_energies, status, etype=etypes), 'getter-failed', 'energies')
            cx.check(got is None, 'wrong-energies', got)
        return
    for status in STATUS:
        chosen = {'initial': [1], 'last': [num], 'all': range(1, num + 1)}[status]
        for nosc in (True, False):
            args = {} if rng.random() < .2 else {'etype': etypes}
            got = cx.must(call(xml.get_energies, status, nosc=nosc, **args), 'getter-failed', 'energies')
            want = {}
            for item in args.get('etype', ['energy_extrapolated']):
                series = [truth[i][item][-1:] if nosc else truth[i][item] for i in chosen]
                want[item] = [x for part in series for x in part]
                want[item + '_final'] = [truth[i][item + '_final'] for i in chosen]
                want['electronic_steps'] = [len(part) for part in series]
            got = {key: list(val) for key, val in got.items()}
            res = cmp.diff(want, got, where=f'energies[{status}, nosc={nosc}]', strict=False)
            cx.check(res is None, 'wrong-energies', res)
    cx.event('energies.compared')


def electronic(cx, xml, model, kfirst):
    dat = model['data']
    for name in ('eigenvalues', 'occupancies', 'eigenvalues_specific', 'eigenvelocities'):
        plain(cx, getattr(xml, 'get_' + name), gen.oriented(dat[name], kfirst), name)
    plain(cx, xml.get_projectors, gen.oriented_projectors(dat['projectors'], kfirst), 'projectors')
    plain(cx, xml.get_kpoints_specific, dat['kpoints'], 'kpoints_specific')
    plain(cx, xml.get_kpointsw_specific, dat['kpointsw'], 'kpointsw_specific')
    plain(cx, xml.get_dos, dat['dos'], 'dos')
    plain(cx, xml.get_dos_specific, dat['dos_specific'], 'dos_specific')
    for name, key in (('get_fermi_level', 'dos'), ('get_fermi_level_specific', 'dos_specific')):
        plain(cx, getattr(xml, name), dat[key] and dat[key]['total']['fermi_level'], name[4:])


def response(cx, xml, model):
    dat = model['data']
    for name in ('hessian', 'dynmat', 'born'):
        plain(cx, getattr(xml, 'get_' + name), dat[name], name)
    want = dat['dielectrics']
    got = cx.must(call(xml.get_dielectrics), 'getter-failed', 'dielectrics')
    if want is None:
        cx.check(got is None or all(val is None for val in got.values()), 'wrong-dielectrics', f'{got}')
    else:
        res = cmp.diff(want, got, where='dielectrics')
        cx.check(res is None, 'wrong-dielectrics', res)
    for name in ('epsilon', 'epsilon_ion'):
        plain(cx, getattr(xml, 'get_' + name), want and want[name], name)
