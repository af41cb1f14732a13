"""The ten formats under one interface: a random valid file, how to open it, and everything one can ask an instance."""
import collections
import io

import numpy as np

from parsevasp.chgcar import Chgcar
from parsevasp.doscar import Doscar
from parsevasp.eigenval import Eigenval
from parsevasp.incar import Incar
from parsevasp.kpoints import Kpoints
from parsevasp.outcar import Outcar
from parsevasp.poscar import Poscar
from parsevasp.potcar import Potcar
from parsevasp.stream import Stream as VaspOutput
from parsevasp.vasprun import Xml

from rvlib import chg_gen, cmp, dos_gen, incar_gen, kpoints_gen, outcar_gen, poscar_gen, stream_gen, xml_gen

# text: the file, kwargs: further arguments of the class
Case = collections.namedtuple('Case', 'name cls text kwargs')


def _incar(rng):
    lines, _, _, _ = incar_gen.build(rng)
    return '\n'.join(lines) + '\n', {}


def _poscar(rng):
    return poscar_gen.build(rng)[0], {'conserve_order': rng.random() < .5, 'write_direct': rng.random() < .5}


def _kpoints(rng):
    return kpoints_gen.build(rng)[0], {}


def _outcar(rng):
    while True:
        lines, _ = outcar_gen.build(rng)
        if outcar_gen.run_status(outcar_gen.fold(lines)) is not None:
            return ''.join(line.text + '\n' for line in lines), {}


def _stream(rng):
    kwargs = {'history': rng.random() < .5}
    if rng.random() < .4:
        kwargs['config'] = stream_gen.config(rng)
    return '\n'.join(stream_gen.lines(rng)) + '\n', kwargs


def _doscar(rng):
    lines, _, ncl, _, _ = dos_gen.doscar(rng)
    return '\n'.join(lines) + '\n', {'non_collinear': ncl}


def _eigenval(rng):
    return '\n'.join(dos_gen.eigenval(rng)[0]) + '\n', {}


def _chgcar(rng):
    return '\n'.join(chg_gen.chgcar(rng)[0]) + '\n', {}


def _potcar(rng):
    return chg_gen.potcar(rng)[0], {}


def _xml(rng):
    text = xml_gen.build(rng, small=True)[0]
    return text, {'event': rng.random() < .5, 'k_before_band': rng.random() < .5, 'extract_all': rng.random() < .7}


FORMATS = {'INCAR': (Incar, _incar), 'POSCAR': (Poscar, _poscar), 'KPOINTS': (Kpoints, _kpoints), 'OUTCAR': (Outcar, _outcar),
           'stdout': (VaspOutput, _stream), 'DOSCAR': (Doscar, _doscar), 'EIGENVAL': (Eigenval, _eigenval),
           'CHGCAR': (Chgcar, _chgcar), 'POTCAR': (Potcar, _potcar), 'vasprun.xml': (Xml, _xml)}
STRING = {'INCAR': 'incar_string', 'POSCAR': 'poscar_string', 'KPOINTS': 'kpoints_string'}
DICT = {'INCAR': 'incar_dict', 'POSCAR': 'poscar_dict', 'KPOINTS': 'kpoints_dict'}
WRITABLE = tuple(STRING)


def case(rng, name=None):
    name = name or rng.choice(sorted(FORMATS))
    cls, gen = FORMATS[name]
    text, kwargs = gen(rng)
    return Case(name, cls, text, kwargs)


def data(one):
    return one.text.encode('latin-1' if one.name == 'vasprun.xml' else 'utf8')


def _listed(entry):
    """Structured arrays as plain columns."""
    if isinstance(entry, np.ndarray) and entry.dtype.names:
        return {n: entry[n].copy() for n in entry.dtype.names}
    if isinstance(entry, (list, tuple)):
        return [_listed(e) for e in entry]
    if isinstance(entry, np.ndarray) and entry.dtype == object:
        return [_listed(e) for e in entry]
    return cmp.freeze(entry)


def _message(entry):
    return [entry.shortname, entry.kind, entry.regex.pattern, entry.message, entry.suggestion, entry.location, entry.recover,
            entry.recoverable, entry.inverse, str(entry)]


def queries(one):
    """Every read-only question the public interface offers for this format: name -> function of the instance."""
    if one.name == 'INCAR':
        return {'dict': lambda x: x.get_dict(), 'string': lambda x: x.get_string(),
                'tags': lambda x: [x.get(t, comment=True) for t in sorted(x.get_dict())],
                'values': lambda x: [x.get(t.upper()) for t in sorted(x.get_dict())], 'missing': lambda x: x.get('nosuchtag')}
    if one.name == 'POSCAR':
        return {'dict': lambda x: x.get_dict(), 'cartesian': lambda x: x.get_dict(direct=False), 'string': lambda x: x.get_string(),
                'cell': lambda x: x.get('unitcell'), 'comment': lambda x: x.get('comment'), 'missing': lambda x: x.get('nothing'),
                'sites': lambda x: [poscar_gen.view_site(s) for s in x.get('sites')]}
    if one.name == 'KPOINTS':
        return {'dict': lambda x: x.get_dict(), 'string': lambda x: x.get_string(), 'mode': lambda x: x.get('mode'),
                'divisions': lambda x: x.get('divisions'), 'missing': lambda x: x.get('nothing')}
    if one.name == 'OUTCAR':
        return {name: (lambda x, n=name: getattr(x, n)()) for name in
                ('get_symmetry', 'get_elastic_moduli', 'get_magnetization', 'get_run_stats', 'get_run_status')}
    if one.name == 'stdout':
        return {'entries': lambda x: [_message(e) for e in x.entries], 'kinds': lambda x: sorted(x.kinds),
                'number': lambda x: [x.number_of_entries, x.has_entries, repr(x), str(x)],
                'configured': lambda x: {k: [_message(e) for e in v] for k, v in x.configured_streams.items()}}
    if one.name == 'DOSCAR':
        return {'dos': lambda x: _listed(x.get_dos()), 'pdos': lambda x: _listed(x.get_pdos()), 'metadata': lambda x: x.get_metadata()}
    if one.name == 'EIGENVAL':
        return {'eigenvalues': lambda x: x.get_eigenvalues(), 'kpoints': lambda x: x.get_kpoints(), 'metadata': lambda x: x.get_metadata()}
    if one.name == 'CHGCAR':
        return {'charge': lambda x: x.charge_density, 'magnetization': lambda x: x.magnetization_density}
    if one.name == 'POTCAR':
        return {'metadata': lambda x: x.metadata, 'symbol': lambda x: x.symbol, 'element': lambda x: x.element,
                'functional': lambda x: x.functional, 'class': lambda x: x.functional_class,
                'keys': lambda x: {k: getattr(x, k.lower()) for k in x.metadata}}
    out = {'dict': lambda x: x.get_dict(), 'version': lambda x: x.get_version(), 'parameters': lambda x: x.get_parameters(),
           'truncated': lambda x: x.truncated}
    for name in ('species', 'kpoints', 'kpointsw', 'eigenvalues', 'occupancies', 'dos', 'projectors', 'hessian', 'dynmat', 'born', 'dielectrics'):
        getter = 'get_' + name
        if hasattr(Xml, getter):
            out[name] = lambda x, g=getter: getattr(x, g)()
    for name in ('unitcell', 'positions', 'forces', 'stress'):
        for status in ('initial', 'last', 'all'):
            out[f'{name} {status}'] = lambda x, g='get_' + name, s=status: getattr(x, g)(s)
    for status in ('initial', 'last', 'all'):
        for nosc in (True, False):
            out[f'energies {status} {nosc}'] = lambda x, s=status, n=nosc: x.get_energies(s, nosc=n)
    return out


def observe(cx, one, obj, order=None):
    """All answers of an instance, each as an independent copy; a refused question counts as an answer, too."""
    from rvlib.core import call
    asked = queries(one)
    out = {}
    for name in order or sorted(asked):
        got = call(asked[name], obj)
        cx.event('queries')
        out[name] = cmp.freeze(got.value) if got.ok else (got.kind, str(got.value))
    return out


def sources(cx, one, rng):
    """(label, keyword arguments, handle to close or None, path or None): every way to hand over the same content."""
    raw = data(one)
    path = cx.write(raw, one.name)
    encoding = 'latin-1' if one.name == 'vasprun.xml' else 'utf8'
    out = [('path', {'file_path': path}, None, path)]
    second = cx.write(raw, one.name)
    handle = open(second, encoding=encoding)  # pylint: disable=consider-using-with
    out.append(('handle', {'file_handler': handle}, handle, second))
    memory = io.BytesIO(raw) if one.name == 'vasprun.xml' else io.StringIO(one.text)
    out.append(('memory', {'file_handler': memory}, memory, None))
    if one.name == 'vasprun.xml':
        third = cx.write(raw, one.name)
        handle = open(third, 'rb')  # pylint: disable=consider-using-with
        out.append(('binary handle', {'file_handler': handle}, handle, third))
    if one.name in STRING:
        out.append(('string', {STRING[one.name]: one.text}, None, None))
    return out
