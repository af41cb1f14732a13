"""vasprun.xml files generated from what they mean.

`build(rng, ...)` returns (text, model, feats). The model holds the numbers exactly as printed (the value of a number is the float
of its printed token), organised as parsevasp documents them, so no XML parser is needed to know the answer.
"""
import numpy as np

# Atomic numbers, written out independently of parsevasp.constants
_SYMBOLS = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh '
            'Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn '
            'Fr Ra Ac Th Pa U Np Pu Am Cm').split()
ATOMIC = {s: i + 1 for i, s in enumerate(_SYMBOLS)}

ORBITALS = {3: ['  s', '  p', '  d'], 4: ['  s', '  p', '  d', '  f'],
            9: ['  s', ' py', ' pz', ' px', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2'],
            16: ['  s', ' py', ' pz', ' px', 'dxy', 'dyz', 'dz2', 'dxz', 'x2-y2', 'fy3x2', 'fxyz', 'fyz2', 'fz3', 'fxz2', 'fzx2', 'fx3']}


class Doc:
    """The lines of the file, with the stack of open elements."""

    def __init__(self):
        self.lines = ['<?xml version="1.0" encoding="ISO-8859-1"?>', '<modeling>']
        self.depth = 1

    def open(self, text):
        self.lines.append(' ' * self.depth + '<' + text + '>')
        self.depth += 1

    def close(self, tag):
        self.depth -= 1
        self.lines.append(' ' * self.depth + '</' + tag + '>')

    def put(self, text):
        self.lines.append(' ' * self.depth + text)

    def text(self):
        return '\n'.join(self.lines + ['</modeling>']) + '\n'


def number(rng, scale=10.0, fmt='{:16.8f}'):
    """A printed number: its token, of which the float is the value."""
    style = rng.random()
    if style < .06:
        val = 0.0
    elif style < .1:
        val = -0.0
    elif style < .2:
        val = rng.choice([-1, 1]) * 10.0 ** rng.randint(-7, 1)
    elif style < .28:
        val = float(rng.randint(-9, 9))
    else:
        val = rng.uniform(-scale, scale)
    return fmt.format(val)


def rows(rng, n, m, scale=10.0, fmt='{:16.8f}'):
    return [[number(rng, scale, fmt) for _ in range(m)] for _ in range(n)]


def val(tokens):
    return np.array([[float(t) for t in row] for row in tokens]) if tokens and isinstance(tokens[0], list) \
        else np.array([float(t) for t in tokens])


def put_rows(doc, tag, tokens):
    for row in tokens:
        doc.put(f'<{tag}> ' + ' '.join(row) + f' </{tag}>')


def varray(doc, name, tokens):
    doc.open(f'varray name="{name}" ')
    put_rows(doc, 'v', tokens)
    doc.close('varray')


def structure(doc, name, cell, pos, rec, extra=()):
    doc.open(f'structure name="{name}" ' if name else 'structure')
    doc.open('crystal')
    varray(doc, 'basis', cell)
    doc.put('<i name="volume">    163.22171868 </i>')
    varray(doc, 'rec_basis', rec)
    doc.close('crystal')
    varray(doc, 'positions', pos)
    if 'selective' in extra:
        doc.open('varray name="selective" ')
        for _ in pos:
            doc.put('<v type="logical"> T  F  T </v>')
        doc.close('varray')
    if 'velocities' in extra:
        varray(doc, 'velocities', [row[::-1] for row in pos])
        doc.open('nose')
        doc.put('<v> ' + ' '.join(pos[0]) + ' </v>')
        doc.close('nose')
    doc.close('structure')


def head(doc, dims, fields):
    for i, dim in enumerate(dims):
        doc.put(f'<dimension dim="{i + 1}">{dim}</dimension>')
    for field in fields:
        doc.put(f'<field>{field}</field>')


def eigen_block(doc, data, fields, pad=' '):
    """data[spin][kpoint] is a list of rows."""
    doc.open('array')
    head(doc, ['band', 'kpoint', 'spin'], fields)
    doc.open('set')
    for s, spin in enumerate(data):
        doc.open(f'set comment="spin {s + 1}"')
        for k, kpt in enumerate(spin):
            doc.open(f'set comment="kpoint {k + 1}"')
            put_rows(doc, 'r', kpt)
            doc.close('set')
        doc.close('set')
    doc.close('set')
    doc.close('array')


def kpoint_block(doc, rng, model, prefix='', npoints=None, divisions=True):
    n = npoints or rng.choice([1, 1, 2, 3, 4, 5, 8, 13])
    kpts = rows(rng, n, 3, 1.0)
    weights = [[number(rng, 1.0)] for _ in range(n)]
    div = None
    doc.open('kpoints')
    if divisions:
        kind = rng.choice(['Gamma', 'Monkhorst-Pack', 'listgenerated', 'none'])
        if kind == 'listgenerated':
            doc.open('generation param="listgenerated"')
            doc.put(f'<i name="divisions" type="int">{rng.randint(1, 60):8d} </i>')
            put_rows(doc, 'v', rows(rng, 2, 3, 1.0))
            doc.close('generation')
        elif kind != 'none':
            div = [rng.randint(1, 40) for _ in range(3)]
            doc.open(f'generation param="{kind}"')
            doc.put('<v type="int" name="divisions">' + ' '.join(f'{d:8d}' for d in div) + ' </v>')
            for name in ('usershift', 'genvec1', 'genvec2', 'genvec3', 'shift'):
                doc.put(f'<v name="{name}"> ' + ' '.join(rows(rng, 1, 3)[0]) + ' </v>')
            doc.close('generation')
    varray(doc, 'kpointlist', kpts)
    varray(doc, 'weights', weights)
    doc.close('kpoints')
    return val(kpts), val(weights)[:, 0], (None if div is None else np.array(div))


def spins(data):
    """Label the spin channels as documented."""
    if len(data) == 1:
        return {'total': data[0]}
    return {'up': data[0], 'down': data[1]}


def dos_block(doc, rng, model, comment, natoms, ispin, ncl, partial, forbs, small):
    """Print a density of states, return its documented form."""
    nedos = rng.choice([1, 2, 3, 5, 8]) if small else rng.choice([1, 2, 3, 5, 8, 21, 40]) if rng.random() < .995 else rng.choice([301, 2001])
    efermi = number(rng) if rng.random() < .9 else '      0.00000000'
    energy = [number(rng, 30, '{:10.4f}') for _ in range(nedos)]
    doc.open(f'dos comment="{comment}"' if comment else 'dos')
    doc.put(f'<i name="efermi">{efermi} </i>')
    doc.open('total')
    doc.open('array')
    head(doc, ['gridpoints', 'spin'], ['energy', 'total', 'integrated'])
    doc.open('set')
    nsets = ispin if not ncl else rng.choice([1, 4])
    total = []
    for s in range(nsets):
        data = [[e, number(rng, 30, '{:10.4f}'), number(rng, 90, '{:10.4f}')] for e in energy]
        doc.open(f'set comment="spin {s + 1}"')
        put_rows(doc, 'r', data)
        doc.close('set')
        total.append(val(data))
    doc.close('set')
    doc.close('array')
    doc.close('total')
    part = None
    if partial:
        norb = len(forbs)
        doc.open('partial')
        doc.open('array')
        head(doc, ['gridpoints', 'spin', 'ion'], ['energy'] + forbs)
        doc.open('set')
        part = [[] for _ in range(4 if ncl else ispin)]
        for a in range(natoms):
            doc.open(f'set comment="ion {a + 1}"')
            for s, chan in enumerate(part):
                data = [[e] + [number(rng, 5, '{:10.4f}') for _ in range(norb)] for e in energy]
                doc.open(f'set comment="spin {s + 1}"')
                put_rows(doc, 'r', data)
                doc.close('set')
                chan.append(val(data)[:, 1:])
            doc.close('set')
        doc.close('set')
        doc.close('array')
        doc.close('partial')
        part = [np.array(chan) for chan in part]
    doc.close('dos')
    energies = np.array([float(e) for e in energy])
    if ispin == 2:
        out = {'total': {'fermi_level': float(efermi), 'energy': energies}}
        for s, name in enumerate(('up', 'down')):
            out[name] = {'total': total[s][:, 1], 'integrated': total[s][:, 2], 'partial': None if part is None else part[s]}
        return out
    return {'total': {'energy': energies, 'total': total[0][:, 1], 'integrated': total[0][:, 2],
                      'partial': None if part is None else part[0], 'fermi_level': float(efermi)}}


def dielectric_block(doc, rng, comment):
    n = rng.choice([1, 2, 5, 12]) if rng.random() < .99 else 1000
    doc.open('dielectricfunction' + (f' comment="{comment}"' if comment else ''))
    out = {}
    energy = [number(rng, 30, '{:10.4f}') for _ in range(n)]
    for name in ('imag', 'real'):
        data = [[e] + [number(rng, 90, '{:10.4f}') for _ in range(6)] for e in energy]
        doc.open(name)
        doc.open('array')
        head(doc, ['gridpoints'], ['energy', 'xx', 'yy', 'zz', 'xy', 'yz', 'zx'])
        doc.open('set')
        put_rows(doc, 'r', data)
        doc.close('set')
        doc.close('array')
        doc.close(name)
        out[name] = val(data)[:, 1:]
    out['energy'] = np.array([float(e) for e in energy])
    doc.close('dielectricfunction')
    return out


def energy_block(doc, rng, more, dynamics=False):
    """Print one energy element, return the three energies in the order extrapolated, free, without entropy."""
    tok = {name: number(rng, 900) for name in ('e_fr_energy', 'e_wo_entrp', 'e_0_energy')}
    doc.open('energy')
    if more:
        for name in ('alphaZ', 'ewald', 'hartreedc', 'XCdc', 'pawpsdc', 'pawaedc', 'eentropy', 'bandstr', 'atom'):
            doc.put(f'<i name="{name}">{number(rng, 900)} </i>')
    for name, text in tok.items():
        doc.put(f'<i name="{name}">{text} </i>')
    if dynamics:
        for name in ('kinetic', 'lattice kinetic', 'nosepot', 'nosekin', 'total'):
            doc.put(f'<i name="{name}">{number(rng, 900)} </i>')
    doc.close('energy')
    return float(tok['e_0_energy']), float(tok['e_fr_energy']), float(tok['e_wo_entrp'])


def build(rng, small=False, want=None, nsteps=None, natoms=None, nkpts=None, nbands=None):
    """want: a set of features to force ('spin', 'ncl', 'partial', 'projectors', 'interpolated', 'velocities', 'dielectrics', ...)."""
    want = want or set()
    feats = set()

    def on(name, prob):
        res = name in want or rng.random() < prob
        if res:
            feats.add(name)
        return res

    doc = Doc()
    model = {'parameters': {}, 'lattice': {}, 'data': {}}
    par, lat, dat = model['parameters'], model['lattice'], model['data']
    spin = on('spin', .35)
    ncl = not spin and on('ncl', .2)
    ispin = 2 if spin else 1
    # --- generator
    version = rng.choice(['5.4.1', '5.4.4', '6.1.0', '6.3.2', '6.4.3', '5.3.5', '10.2.13'])
    printed = version + rng.choice(['  ', '', ' ', '.18Apr17', '.18Apr17-6-g9f103f2a35 '])
    model['version'] = version
    doc.open('generator')
    doc.put('<i name="program" type="string">vasp </i>')
    doc.put(f'<i name="version" type="string">{printed}</i>')
    # of any length, so that what follows starts anywhere in the buffers of the reader
    doc.put('<i name="subversion" type="string">' + 'x' * rng.randint(0, 600) + ' </i>')
    doc.put('<i name="platform" type="string">LinuxIFC </i>')
    doc.put('<i name="date" type="string">2016 12 22 </i>')
    doc.put('<i name="time" type="string">21:32:30 </i>')
    doc.close('generator')
    nbands = nbands or (rng.choice([1, 2, 3, 4]) if small else rng.choice([1, 2, 3, 4, 8, 13]))
    doc.open('incar')
    doc.put('<i type="string" name="PREC">accurate</i>')
    doc.put(f'<i type="int" name="NBANDS">{nbands + 3:6d}</i>')
    doc.put(f'<i type="int" name="NELM">{rng.randint(1, 99):6d}</i>')
    doc.put('<i name="SIGMA">      0.77000000</i>')
    doc.put('<i type="string" name="SYSTEM">of the INCAR</i>')
    doc.close('incar')
    if rng.random() < .3:
        structure(doc, 'primitive_cell', rows(rng, 3, 3), rows(rng, 2, 3, 1.0), rows(rng, 3, 3))
        doc.open('varray name="primitive_index" ')
        doc.put('<v type="int">       1 </v>')
        doc.close('varray')
    lat['kpoints'], lat['kpointsw'], lat['kpointdiv'] = kpoint_block(doc, rng, model, npoints=nkpts or (rng.choice([1, 2, 3]) if small else None))
    nkpts = len(lat['kpoints'])
    # --- parameters
    par.update({'symprec': float(rng.choice(['0.00001000', '0.00010000', '0.00000001'])), 'ismear': rng.choice([-5, -4, -1, 0, 1, 2]),
                'sigma': float(f'{rng.choice([.2, .05, .01, rng.random()]):.8f}'), 'ispin': ispin, 'nbands': nbands,
                'nelect': float(f'{rng.choice([8., 32., 1., 17.5, rng.uniform(1, 3000)]):.8f}'), 'nelm': rng.choice([1, 40, 60, 200]),
                'nsw': rng.choice([0, 1, 20, 300]),
                'system': rng.choice(['unknown system', 'Si', 'a & b', 'x<1', ' two  words ', 'SYSTEM', '1.0', 'Ångström, 5 µm', None])})
    system = (par['system'] or '').replace('&', '&amp;').replace('<', '&lt;')
    doc.open('parameters')
    doc.open('separator name="general" ')
    doc.put(f'<i type="string" name="SYSTEM">{system}</i>')
    doc.put('<i type="logical" name="LCOMPAT"> F  </i>')
    doc.close('separator')
    doc.open('separator name="electronic" ')
    doc.put('<i type="string" name="PREC">a</i>')
    doc.put(f'<i name="ENMAX">{number(rng)}</i>')
    doc.put(f'<i type="int" name="NBANDS">{nbands:6d}</i>')
    doc.put(f"<i name=\"NELECT\">{par['nelect']:16.8f}</i>")
    doc.open('separator name="electronic smearing" ')
    doc.put(f"<i type=\"int\" name=\"ISMEAR\">{par['ismear']:6d}</i>")
    doc.put(f"<i name=\"SIGMA\">{par['sigma']:16.8f}</i>")
    doc.close('separator')
    doc.open('separator name="electronic spin" ')
    doc.put(f'<i type="int" name="ISPIN">{ispin:6d}</i>')
    doc.put(f"<i type=\"logical\" name=\"LNONCOLLINEAR\"> {'T' if ncl else 'F'}  </i>")
    doc.close('separator')
    doc.open('separator name="electronic convergence" ')
    doc.put(f"<i type=\"int\" name=\"NELM\">{par['nelm']:6d}</i>")
    doc.put('<i type="int" name="NELMDL">   -12</i>')
    doc.open('separator name="electronic convergence detail" ')
    doc.put('<i type="logical" name="LDIAG"> T  </i>')
    doc.close('separator')
    doc.close('separator')
    doc.close('separator')
    doc.open('separator name="ionic" ')
    doc.put(f"<i type=\"int\" name=\"NSW\">{par['nsw']:6d}</i>")
    doc.put('<i type="int" name="IBRION">    -1</i>')
    doc.close('separator')
    doc.open('separator name="symmetry" ')
    doc.put('<i type="int" name="ISYM">     2</i>')
    doc.put(f"<i name=\"SYMPREC\">{par['symprec']:16.8f}</i>")
    doc.close('separator')
    doc.open('separator name="response functions" ')
    doc.put(f"<i type=\"int\" name=\"NELM\">{par['nelm'] + 1:6d}</i>")
    doc.put('<i type="int" name="NBANDSGW">    -1</i>')
    doc.close('separator')
    doc.close('parameters')
    # --- atoms
    kinds = rng.sample(_SYMBOLS, rng.choice([1, 1, 2, 3]))
    symbols = [k for k in kinds for _ in range(rng.choice([1, 1, 2, 3]) if small else rng.choice([1, 1, 2, 3, 4, 6]))]
    if natoms is not None:
        symbols = [kinds[0]] * (natoms - len(kinds) + 1) + kinds[1:]
    natoms = len(symbols)
    feats.add('atoms.1' if natoms == 1 else 'atoms.3' if natoms == 3 else 'atoms.2' if natoms == 2 else 'atoms.n')
    lat['species'] = np.array([ATOMIC[s] for s in symbols])
    doc.open('atominfo')
    doc.put(f'<atoms>{natoms:8d} </atoms>')
    doc.put(f'<types>{len(kinds):8d} </types>')
    doc.open('array name="atoms" ')
    doc.put('<dimension dim="1">ion</dimension>')
    doc.put('<field type="string">element</field>')
    doc.put('<field type="int">atomtype</field>')
    doc.open('set')
    for sym in symbols:
        doc.put(f'<rc><c>{sym:2s}</c><c>{kinds.index(sym) + 1:4d}</c></rc>')
    doc.close('set')
    doc.close('array')
    doc.open('array name="atomtypes" ')
    doc.put('<dimension dim="1">type</dimension>')
    doc.put('<field type="int">atomspertype</field>')
    doc.open('set')
    for kind in kinds:
        doc.put(f'<rc><c>{symbols.count(kind):4d}</c><c>{kind:2s}</c><c>     28.08500000</c><c>      4.00000000</c><c> PAW_PBE {kind} 05Jan2001 </c></rc>')
    doc.close('set')
    doc.close('array')
    doc.close('atominfo')
    # --- ionic steps
    if nsteps is None:
        nsteps = rng.choice([1, 1, 1, 2, 3, 4]) if small else rng.choice([1, 1, 1, 2, 3, 4, 11])
    feats.add('step' if nsteps == 1 else 'steps')
    with_forces = rng.random() < .95
    with_stress = rng.random() < .8
    if not with_stress:
        feats.add('no-stress')
    if not with_forces:
        feats.add('no-forces')
    # Steps for which a machine learned force field is used have no electronic steps, and some steps can lack the stress
    learned = rng.choice(['no', 'no', 'no', 'no', 'no', 'no', 'some', 'all'])
    unfinished = rng.random() < .05
    gaps = nsteps > 1 and rng.random() < .1
    cell, pos = rows(rng, 3, 3), rows(rng, natoms, 3, 1.0)
    extra = [name for name, prob in (('selective', .2), ('velocities', .15)) if rng.random() < prob]
    feats.update('structure.' + name for name in extra)
    structure(doc, 'initialpos', cell, pos, rows(rng, 3, 3), extra)
    dat.update({'forces': {}, 'stress': {}, 'totens': {}, 'dielectrics': None, 'eigenvalues': None, 'occupancies': None, 'dos': None,
                'dos_specific': None, 'eigenvalues_specific': None, 'eigenvelocities': None, 'kpoints': None, 'kpointsw': None,
                'projectors': None, 'hessian': None, 'dynmat': None, 'born': None})
    lat.update({'unitcell': {}, 'positions': {}})
    model['steps'] = nsteps
    norb = rng.choice([3, 4, 9, 16])
    orbs = ORBITALS[norb]
    diel = {}
    for step in range(1, nsteps + 1):
        last = step == nsteps
        doc.open('calculation')
        scf = []
        nsc = rng.choice([1, 2, 3, 5]) if small else rng.choice([1, 2, 3, 5, 12])
        if learned == 'all' or learned == 'some' and rng.random() < .5:
            nsc = 0
            feats.add('step.no-scsteps')
        for sc in range(nsc):
            if last and sc and rng.random() < .05:
                # density functional perturbation theory repeats the k-points here
                kpoint_block(doc, rng, model)
                feats.add('inner-kpoints')
            doc.open('scstep')
            doc.put('<time name="total">    2.57    2.58</time>')
            scf.append(energy_block(doc, rng, sc in (0, nsc - 1)))
            doc.close('scstep')
        if step > 1 and rng.random() < .8:
            cell, pos = rows(rng, 3, 3), rows(rng, natoms, 3, 1.0)
        structure(doc, None, cell, pos, rows(rng, 3, 3), extra)
        lat['unitcell'][step] = val(cell)
        lat['positions'][step] = val(pos)
        left_out = [gaps and step > 1 and rng.random() < .4 for _ in range(2)]
        if any(left_out):
            feats.add('step.gaps')
        if with_forces and not left_out[0]:
            data = rows(rng, natoms, 3)
            varray(doc, 'forces', data)
            dat['forces'][step] = val(data)
        if with_stress and not left_out[1]:
            data = rows(rng, 3, 3, 900)
            varray(doc, 'stress', data)
            dat['stress'][step] = val(data)
        if last and rng.random() < .15:
            for name in ('epsilon_rpa', 'epsilon_diag_mic'):
                varray(doc, name, rows(rng, 3, 3))
        if last and on('epsilon', .15):
            data = rows(rng, 3, 3)
            varray(doc, 'epsilon', data)
            diel['epsilon'] = val(data)
        if last and on('born', .15):
            data = [rows(rng, 3, 3) for _ in range(natoms)]
            doc.open('array name="born_charges" ')
            doc.put('<dimension dim="1">ion</dimension>')
            for atom in data:
                doc.open('set')
                put_rows(doc, 'v', atom)
                doc.close('set')
            doc.close('array')
            dat['born'] = np.array([val(atom) for atom in data])
        # Calculations of response and excitations have no final energies
        final = None
        if not unfinished or rng.random() < .5:
            final = energy_block(doc, rng, False, 'velocities' in extra)
        else:
            feats.add('step.no-final')
        doc.put('<time name="totalsc">   63.15   63.84</time>')
        dat['totens'][step] = {}
        for i, name in enumerate(('energy_extrapolated', 'energy_free', 'energy_no_entropy')):
            dat['totens'][step][name] = np.array([e[i] for e in scf])
            if final is not None:
                dat['totens'][step][name + '_final'] = final[i]
        if not last:
            doc.close('calculation')
            continue
        inter = on('interpolated', .2)
        velo = on('velocities', .2)
        if inter and velo:
            # VASP prints either of them
            if 'velocities' in want and 'interpolated' not in want:
                inter = False
                feats.discard('interpolated')
            else:
                velo = False
                feats.discard('velocities')
        def other_grid(inter=inter, velo=velo, nbands=nbands):
            """What is given for other k-points."""
            for kind in (['interpolated'] if inter else []) + (['velocities'] if velo else []):
                tag = 'eigenvalues' if kind == 'interpolated' else 'eigenvelocities'
                doc.open(f'{tag} comment="interpolated"')
                dat['kpoints'], dat['kpointsw'], _ = kpoint_block(doc, rng, model, npoints=rng.choice([1, 2, 3, 5]), divisions=False)
                doc.open('eigenvalues')
                ncol = 4 if kind == 'velocities' else rng.choice([1, 2])
                data = [[[[number(rng, 30, '{:9.4f}') for _ in range(ncol)] for _ in range(nbands)] for _ in dat['kpoints']] for _ in range(ispin)]
                eigen_block(doc, data, ['eigene', 'data', 'data', 'data'][:ncol])
                doc.close('eigenvalues')
                doc.close(tag)
                arr = np.array(data, dtype=float)
                if kind == 'velocities':
                    dat['eigenvelocities'] = spins(arr)
                else:
                    dat['eigenvalues_specific'] = spins(arr[..., 0])
            if inter or velo:
                if on('dos-interpolated', .8):
                    dat['dos_specific'] = dos_block(doc, rng, model, 'interpolated', natoms, ispin, ncl, False, orbs, small)

        # The other k-points come first, but nothing depends on that
        behind = (inter or velo) and rng.random() < .2
        if behind:
            feats.add('other-grid-behind')
        else:
            other_grid()
        if on('eigenvalues', .9):
            occ = rng.random() < .93
            # More can be given behind the occupancies
            ncol = rng.choice([2, 2, 2, 2, 2, 2, 2, 2, 3, 4]) if occ else 1
            if ncol > 2:
                feats.add('more-columns')
            data = [[[[number(rng, 30, '{:9.4f}') for _ in range(ncol)] for _ in range(nbands)] for _ in range(nkpts)] for _ in range(ispin)]
            doc.open('eigenvalues')
            eigen_block(doc, data, ['eigene', 'occ', 'more', 'more'][:ncol])
            doc.close('eigenvalues')
            arr = np.array(data, dtype=float)
            dat['eigenvalues'] = spins(arr[..., 0])
            dat['occupancies'] = spins(arr[..., 1]) if occ else None
            eig_rows = data
            doc.open('separator name="orbital magnetization" ')
            doc.put('<v name="MAGDIPOLOUT">      0.00000000      0.00000000      0.00000000</v>')
            doc.close('separator')
            if not occ:
                feats.add('no-occupancies')
        if on('dos', .85):
            dat['dos'] = dos_block(doc, rng, model, None, natoms, ispin, ncl, natoms <= 130 and on('partial', .4), orbs, small)
            feats.add(f'orbitals.{norb}')
        if behind:
            other_grid()
        if dat['eigenvalues'] is not None and on('projectors', .35):
            doc.open('projected')
            doc.open('eigenvalues')
            eigen_block(doc, eig_rows, ['eigene', 'occ', 'more', 'more'][:len(eig_rows[0][0][0])])
            doc.close('eigenvalues')
            doc.open('array')
            head(doc, ['ion', 'band', 'kpoint', 'spin'], orbs)
            doc.open('set')
            nsets = 4 if ncl else ispin
            data = []
            for s in range(nsets):
                doc.open(f'set comment="spin{s + 1}"')
                data.append([])
                for k in range(nkpts):
                    doc.open(f'set comment="kpoint {k + 1}"')
                    data[-1].append([])
                    for b in range(nbands):
                        block = rows(rng, natoms, norb, 1.0, '{:8.4f}')
                        doc.open(f'set comment="band {b + 1}"')
                        put_rows(doc, 'r', block)
                        doc.close('set')
                        data[-1][-1].append(val(block))
                    doc.close('set')
                doc.close('set')
            doc.close('set')
            doc.close('array')
            doc.close('projected')
            arr = np.array(data)  # spin, kpoint, band, atom, orbital
            dat['projectors'] = spins(np.moveaxis(arr[:ispin], 3, 1))  # spin, atom, kpoint, band, orbital
            feats.add(f'projectors.{norb}')
            if natoms != nkpts != nbands != natoms and norb not in (natoms, nkpts, nbands):
                feats.add('projectors.distinct-sizes')
        if on('kpoints-opt', .12):
            # VASP 6.3, the band structure for the k-points of KPOINTS_OPT
            doc.open('eigenvalues_kpoints_opt comment="kpoints_opt"')
            points, _, _ = kpoint_block(doc, rng, model, npoints=rng.choice([nkpts, 1, 2, 5]))
            data = [[[[number(rng, 30, '{:9.4f}') for _ in range(2)] for _ in range(nbands)] for _ in points] for _ in range(ispin)]
            doc.open('eigenvalues')
            eigen_block(doc, data, ['eigene', 'occ'])
            doc.close('eigenvalues')
            doc.close('eigenvalues_kpoints_opt')
            dos_block(doc, rng, model, 'kpoints_opt', natoms, ispin, ncl, False, orbs, small)
            if rng.random() < .5:
                doc.open('projected_kpoints_opt comment="kpoints_opt"')
                doc.open('eigenvalues')
                eigen_block(doc, data, ['eigene', 'occ'])
                doc.close('eigenvalues')
                doc.open('array')
                head(doc, ['ion', 'band', 'kpoint', 'spin'], orbs)
                doc.open('set')
                for s in range(ispin):
                    doc.open(f'set comment="spin{s + 1}"')
                    for k in range(len(points)):
                        doc.open(f'set comment="kpoint {k + 1}"')
                        for b in range(nbands):
                            doc.open(f'set comment="band {b + 1}"')
                            put_rows(doc, 'r', rows(rng, natoms, norb, 1.0, '{:8.4f}'))
                            doc.close('set')
                        doc.close('set')
                    doc.close('set')
                doc.close('set')
                doc.close('array')
                doc.close('projected_kpoints_opt')
        # (the number of entries goes with the square of the number of atoms)
        if natoms <= 130 and on('dynmat', .15):
            # with selective dynamics, only the degrees of freedom that are left
            n = rng.randint(1, 3 * natoms) if 'selective' in extra else 3 * natoms
            if n != 3 * natoms:
                feats.add('dynmat.selective')
            doc.open('dynmat')
            data = rows(rng, n, n)
            varray(doc, 'hessian', data)
            dat['hessian'] = val(data)
            values = [number(rng, 10, '{:16.8E}') for _ in range(n)]
            doc.put('<v name="eigenvalues">' + ' '.join(values) + '</v>')
            vectors = rows(rng, n, n, 1.0, '{:16.8E}')
            varray(doc, 'eigenvectors', vectors)
            dat['dynmat'] = {'eigenvalues': np.array([float(v) for v in values]), 'eigenvectors': val(vectors)}
            if rng.random() < .5:
                doc.open('array name="force_constants" ')
                head(doc, ['cart_super', 'ion_super', 'ion_primitive'], ['f_cart_prim_1', 'f_cart_prim_2', 'f_cart_prim_3'])
                doc.open('set')
                for a in range(natoms):
                    doc.open(f'set comment="ionprim {a + 1}"')
                    for b in range(natoms):
                        doc.open(f'set comment="ion {b + 1}"')
                        put_rows(doc, 'r', rows(rng, 3, 3))
                        doc.close('set')
                    doc.close('set')
                doc.close('set')
                doc.close('array')
            doc.close('dynmat')
        if on('epsilon-ion', .12):
            data = rows(rng, 3, 3)
            varray(doc, 'epsilon_ion', data)
            diel['epsilon_ion'] = val(data)
        if on('dielectrics', .2):
            names = rng.choice([[None], [None], ['density-density', 'current-current'], ['density-density'],
                                ['HEAD OF MICROSCOPIC DIELECTRIC TENSOR (INDEPENDENT PARTICLE)',
                                 '1 + v P,  with REDUCIBLE POLARIZABILTY P=P_0 (1 -(v+f) P_0)^-1', 'screened Coulomb potential']])
            for i, name in enumerate(names):
                got = dielectric_block(doc, rng, name)
                if i == 0:
                    diel.update(got)
            if len(names) > 1:
                feats.add('dielectrics.several')
            if rng.random() < .4:
                for s in range(ispin):
                    doc.open(f'conductivity comment="spin={s + 1}"')
                    doc.open('array')
                    head(doc, ['gridpoints'], ['energy', 'xx', 'yy', 'zz', 'xy', 'yz', 'zx'])
                    doc.open('set')
                    put_rows(doc, 'r', rows(rng, rng.choice([1, 3, 8]), 7))
                    doc.close('set')
                    doc.close('array')
                    doc.close('conductivity')
        doc.close('calculation')
    structure(doc, 'finalpos', cell, pos, rows(rng, 3, 3), extra)
    if diel:
        dat['dielectrics'] = {key: diel.get(key) for key in ('imag', 'real', 'energy', 'epsilon', 'epsilon_ion')}
    model['natoms'], model['nkpts'], model['nbands'], model['norb'] = natoms, nkpts, nbands, norb
    return doc.text(), model, feats


def oriented(entry, k_before_band):
    """The eigenvalue-like entries of the model (k-point first) in the requested order."""
    if entry is None or k_before_band:
        return entry
    return {key: np.swapaxes(arr, 0, 1) for key, arr in entry.items()}


def oriented_projectors(entry, k_before_band):
    if entry is None or k_before_band:
        return entry
    return {key: np.swapaxes(arr, 1, 2) for key, arr in entry.items()}
