"""DOSCAR and EIGENVAL generators with their models."""
LM = ['s', 'py', 'px', 'pz', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2-y2']
LMF = LM + ['fy(3x2-y2)', 'fxyz', 'fyz2', 'fz3', 'fxz2', 'fz(x2-y2)', 'fx(x2-3y2)']
ORBITALS = {'l': ['s', 'p', 'd'], 'lf': ['s', 'p', 'd', 'f'], 'lm': LM, 'lmf': LMF}
NAMES = ['unknown system', 'Si', 'A', 'a name with  many words', 'CAR 1 2 3', 'Ga:As (test) # 12', '1 2 3 4', 'c']


def fortran(rng, feats=None):
    """A density of states value the way Fortran prints it (E12.4): (text, value)."""
    what = rng.random()
    if what < .2:
        return '  0.0000E+00', 0.0
    mant = rng.randint(1000, 9999)
    sign = rng.choice(['-', ' ', ' '])
    if what < .25:
        exp = rng.randint(100, 290)
        if feats is not None:
            feats.add('exponent3')
        return f' {sign}0.{mant}-{exp}', float(f'{sign.strip()}0.{mant}E-{exp}')
    exp = rng.choice([0, 1, 2, -1, -2, -9, -15, -42, -73, -99, 3])
    text = f' {sign}0.{mant}E{exp:+03d}'
    return text, float(text)


def doscar(rng):
    """Return (text, model, non_collinear, features)."""
    feats = set()
    kind = rng.choice(['nospin', 'spin', 'ncl'])
    proj = rng.choice([None, 'l', 'lf', 'lm', 'lmf'])
    nions = rng.choice([1, 1, 2, 3, 4, 7])
    ndos = rng.choice([1, 2, 3, 5, 10, 25]) if rng.random() < .96 else rng.choice([301, 301, 301, 301, 2000, 9999])
    natoms = nions + rng.choice([0, 0, 0, 1])
    if ndos > 100:
        if ndos == 9999 and rng.random() < .5:
            ndos = rng.choice([10000, 10001, 99999]) if rng.random() < .3 else 10000
            feats.add('points-run-together')
        nions = 1 if ndos > 9999 else min(nions, 2)
        natoms = nions
    elif rng.random() < .03:
        natoms = rng.choice([1000, 1024, 9999])
        feats.add('ions-run-together')
        if rng.random() < .3 and not proj or rng.random() < .03:
            nions = natoms - rng.choice([0, 0, 0, 12])
            ndos = min(ndos, 3)
    feats |= {kind, f'proj.{proj}'}
    name = rng.choice(NAMES)
    emax, emin = rng.uniform(0, 60), rng.uniform(-90, 5)
    efermi = rng.uniform(-12, 12)
    header = f'{emax:16.8f}{emin:16.8f}{ndos:5d}{efermi:16.8f}{1.0:16.8f}'
    coord = rng.choice(['  CAR', '  CAR ', '  car', '  DIR']) if rng.random() < .2 else '  CAR '
    lines = [f'{nions:4d}{natoms:4d}{1 if proj else 0:4d}{0:4d}',
             '  0.1648482E+02  0.4040000E-09  0.4040000E-09  0.4040000E-09  0.1000000E-15',
             '  1.000000000000000E-004', coord, ' ' + name, header]
    tot = {'energy': [], 'total': [], 'integrated': []}
    nspin = 2 if kind == 'spin' else 1
    energies = []
    for i in range(ndos):
        etext = f'{emin + (emax - emin) * i / max(1, ndos - 1):11.3f}'
        energies.append(etext)
        row = [fortran(rng, feats) for _ in range(2 * nspin)]
        lines.append(etext + ''.join(t for t, _ in row))
        vals = [v for _, v in row]
        tot['energy'].append(float(etext))
        tot['total'].append(vals[0] if nspin == 1 else vals[:2])
        tot['integrated'].append(vals[1] if nspin == 1 else vals[2:])
    model = {'dos': tot, 'pdos': None,
             'metadata': {'n_ions': nions, 'n_atoms': natoms, 'cartesian': coord.strip()[0] in 'cC', 'name': name,
                          'emax': float(f'{emax:.8f}'), 'emin': float(f'{emin:.8f}'), 'n_dos': ndos,
                          'efermi': float(f'{efermi:.8f}'), 'weight': 1.0}}
    marks = [len(lines)]
    if proj:
        orbs = ORBITALS[proj]
        ncomp = {'nospin': 1, 'spin': 2, 'ncl': 4}[kind]
        pdos = []
        for _ in range(nions):
            lines.append(header)
            ion = {n: [] for n in ['energy'] + orbs}
            for etext in energies:
                row = [fortran(rng, feats) for _ in range(ncomp * len(orbs))]
                lines.append(etext + ''.join(t for t, _ in row))
                vals = [v for _, v in row]
                ion['energy'].append(float(etext))
                for k, orb in enumerate(orbs):
                    part = vals[k * ncomp:(k + 1) * ncomp]
                    ion[orb].append(part[0] if ncomp == 1 else part)
            pdos.append(ion)
            marks.append(len(lines))
        model['pdos'] = pdos
    return lines, model, kind == 'ncl', feats, marks


def eigenval(rng, large=False):
    """Return (lines, model, features); blocks says at which line each k-point ends."""
    feats = set()
    nspin = rng.choice([1, 1, 2])
    nkp = rng.choice([1, 1, 2, 3, 8, 40])
    nbands = rng.choice([1, 2, 8, 10, 130])
    if nkp > 8:
        nbands = min(nbands, 10)
    if large:
        # more digits than there is room for in some of the columns of VASP
        many, few = rng.choice([999, 1000, 1001, 5000, 9999, 10000, 10001, 12345]), rng.choice([1, 1, 2, 3])
        nkp, nbands = rng.choice([(many, few), (few, many), (rng.randint(100, 400), rng.randint(30, 100)), (rng.randint(700, 1000), rng.randint(100, 130))])
    nions = rng.randint(1, 9999)
    natoms = nions + rng.choice([0, 0, 1]) if nions < 9999 else nions
    occ = rng.random() < .8
    feats |= {f'spin{nspin}', 'occupancies' if occ else 'no-occupancies'}
    name = rng.choice(NAMES)
    coord = rng.choice(['  CAR', '  car', '  DIR']) if rng.random() < .2 else '  CAR '
    p00 = rng.choice([0, 1, 2, 30])
    cell = [f'{rng.uniform(1, 90):.7E}' for _ in range(5)]
    nelect = rng.randint(1, 900)
    lines = [f'{nions:5d}{natoms:5d}{p00:5d}{nspin:5d}', '  ' + '  '.join(cell), '  1.000000000000000E-004', coord, ' ' + name,
             f'{nelect:7d}{nkp:7d}{nbands:7d}']
    style = rng.random()
    kpoints, bands = [], [[] for _ in range(nspin)]
    marks = []
    for _ in range(nkp):
        blanks = 1
        if style < .2:
            blanks = rng.randint(1, 3)
            feats.add('blanks')
        for _ in range(blanks):
            lines.append(rng.choice(['', '', ' ', '   \t']) if style < .1 else '')
        kpt = [f'{rng.uniform(-1, 1) if rng.random() < .7 else 0:.7E}' for _ in range(3)] + [f'{rng.random():.7E}']
        lines.append(''.join(f'{t:>15s}' for t in kpt))
        kpoints.append([float(t) for t in kpt])
        rows = [[] for _ in range(nspin)]
        for band in range(nbands):
            texts = [f'{rng.uniform(-99, 99):13.6f}' for _ in range(nspin)]
            for s in range(nspin):
                rows[s].append(float(texts[s]))
            line = f'{band + 1:5d}  ' + '  '.join(texts)
            if occ:
                line += ''.join(f'{rng.choice([0, 1, rng.random()]):11.6f}' for _ in range(nspin))
            lines.append(line)
        for s in range(nspin):
            bands[s].append(rows[s])
        marks.append(len(lines))
    tail = 0
    if rng.random() < .25:
        tail = rng.randint(1, 3)
        feats.add('blank-end')
    lines += [''] * tail
    model = {'kpoints': kpoints, 'eigenvalues': bands,
             'metadata': {0: [nions, natoms, p00, nspin], 1: [float(t) for t in cell], 2: 0.0001, 'n_ions': nions,
                          'n_atoms': natoms, 'p00': p00, 'nspin': nspin, 'cartesian': coord.strip()[0] in 'cC', 'name': name,
                          'some_num': nelect, 'n_bands': nbands, 'n_kp': nkp}}
    return lines, model, feats, marks
