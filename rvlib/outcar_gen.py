"""OUTCAR generator. The file is a list of Line objects; each knows what it contributes, so the model of
any truncated copy (a run killed at that line) is the fold of the contributions of the lines that survive."""
import copy


class Line:
    __slots__ = ('text', 'effect', 'stat', 'in_mag')

    def __init__(self, text, effect=None, stat=None, in_mag=False):
        self.text, self.effect, self.stat, self.in_mag = text, effect, stat, in_mag


def initial():
    sphere = {p: {'site_moment': {}, 'total_magnetization': {}} for p in 'xyz'}
    cells = {k: {'static': [], 'dynamic': []} for k in
             ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type')}
    return {'nelm': None, 'nsw': None, 'ibrion': -1, 'nbands': None, 'steps': [], 'last': None, 'finished': False,
            'symmetry': cells, 'elastic': {'non_symmetrized': None, 'symmetrized': None, 'total': None},
            'mag': {'sphere': sphere, 'full_cell': {}}}


def put(key, value):
    def effect(state):
        state[key] = value
    return effect


def _iteration(ionic, elec):
    def effect(state):
        state['last'] = [ionic, elec]
        if not state['steps'] or state['steps'][-1][0] != ionic:
            state['steps'].append([ionic, 0])
        state['steps'][-1][1] += 1
    return effect


def _sym(key, config, value):
    def effect(state):
        state['symmetry'][key][config].append(value)
    return effect


LATTICES = ['face centered cubic', 'body centered tetragonal', 'base centered monoclinic', 'simple cubic',
            'hexagonal', 'trigonal', 'triclinic', 'simple orthorhombic', 'Body Centered Cubic']


def symmetry_block(rng, L, feats):
    for config, header in (('static', 'Analysis of symmetry for initial positions (statically):'),
                           ('dynamic', 'Analysis of symmetry for dynamics (positions and initial velocities):')):
        if config == 'dynamic' and rng.random() < .15:
            continue
        L(header)
        L('=' * 69)
        ncell = rng.choice([1, 1, 2, 4, 8, 27, 108])
        if ncell == 1:
            L(' Subroutine PRICEL returns:')
            L(' Original cell was already a primitive cell.', _sym('original_cell_type', config, 'primitive cell'))
        else:
            feats.add('supercell')
            L(' Subroutine PRICEL returns following result:')
            L('')
            L('  LATTYP: Found a simple cubic cell.')
            L(f' {ncell:3d} primitive cells build up your supercell.',
              _sym('original_cell_type', config, f'{ncell} primitive cells'))
        L('')
        L('')
        L(' Routine SETGRP: Setting up the symmetry group for a')
        name = rng.choice(LATTICES) + ' supercell.'
        L(' ' + name, _sym('symmetrized_cell_type', config, name.lower()))
        L('')
        L('')
        ops = rng.choice([1, 2, 4, 8, 12, 16, 24, 48, 96, 192])
        L(f' Subroutine GETGRP returns: Found {ops:2d} space group operations',
          _sym('num_space_group_operations', config, ops))
        L(f' (whereof {max(1, ops // 2):2d} operations were pure point group operations)')
        L(f' out of a pool of {ops:2d} trial point group operations.')
        L('')
        L(f'The {config} configuration has the point symmetry T_d .')
        L('')
    L(f' Subroutine INISYM returns: Found {rng.randint(1, 48)} space group operations')
    L(' (whereof 24 operations are pure point group operations),')
    L("and found     1 'primitive' translations")


def elastic_block(rng, L, header, key, feats):
    L(header)
    L(' Direction    XX          YY          ZZ          XY          YZ          ZX')
    L(' ' + '-' * 80)
    rows = []
    for i, label in enumerate(('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX')):
        texts = [f'{rng.uniform(-900, 9000) if rng.random() < .7 else 0.0:12.4f}' for _ in range(6)]
        if all(t.startswith(' ') or k == 0 for k, t in enumerate(texts)):
            pass
        rows.append([float(t) for t in texts])
        effect = None
        if i == 5 and key is not None:
            def effect(state, rows=copy.deepcopy(rows)):
                state['elastic'][key] = rows
            feats.add('elastic.' + key)
        L(f' {label}    ' + ' '.join(texts), effect)
    L(' ' + '-' * 80)
    L('')


def mag_block(rng, L, proj, natoms, orbitals, feats, strong=False):
    """Written like VASP does: no total for a single atom."""
    mark = len(L.lines)
    L(f' magnetization ({proj})')
    L(' ')
    L('# of ion       ' + '       '.join(orbitals) + '       tot')
    L('-' * 42)
    sites, sums = {}, [0.0] * (len(orbitals) + 1)
    for i in range(natoms):
        texts = [f'{rng.uniform(-9, -7 if strong and k > 1 else 9) / (1 if natoms < 100 else 9):8.3f}' for k in range(len(orbitals) + 1)]
        vals = [float(t) for t in texts]
        sums = [a + b for a, b in zip(sums, vals)]
        sites[i + 1] = dict(zip(list(orbitals) + ['tot'], vals))
        L(f'{i + 1:5d}      ' + ''.join(texts))

    def effect(state, total=None):
        state['mag']['sphere'][proj] = {'site_moment': copy.deepcopy(sites), 'total_magnetization': dict(total)}
    if natoms == 1:
        L('', lambda state: effect(state, sites[1]))
        feats.add('mag.single')
    else:
        L('-' * 50)
        texts = [f'{v:8.3f}' for v in sums]
        if any(len(t) > 7 and t[0] == '-' for t in texts[1:]):
            feats.add('mag.run-together')
        total = dict(zip(list(orbitals) + ['tot'], [float(t) for t in texts]))
        L('tot        ' + ''.join(texts), lambda state: effect(state, total))
        L('')
        feats.add('mag.many')
    for line in L.lines[mark:]:
        line.in_mag = True
    if natoms > 1:
        L.lines[-2].in_mag = False  # the table is whole from its total on
    L.lines[-1].in_mag = False
    if proj in 'yz':
        feats.add('mag.ncl')
    if len(orbitals) == 4:
        feats.add('mag.f')


class Builder:
    def __init__(self):
        self.lines = []

    def __call__(self, text, effect=None, stat=None):
        self.lines.append(Line(text, effect, stat))


NOISE = ['  POSITION                                       TOTAL-FORCE (eV/Angst)',
         ' augmentation part       -0.4595518 magnetization       0.0012',
         '    FORLOC:  cpu time    0.0003: real time    0.0003',
         '  free  energy   TOTEN  =       -29.30461872 eV', ' E-fermi :   6.1234     XC(G=0): -10.1     alpha+bet : -1.2',
         '   NELMIN =     20', '   NSWITCH=  1', '   IBRIONX=  3', '   EDIFF  = 0.1E-05   stopping-criterion for ELM',
         ' reached required accuracy - stopping structural energy minimisation', '', '----------',
         '  total amount of memory used by VASP MPI-rank0    35065. kBytes',
         ' The iteration counter', '  magnetizations are not printed', '   ISIF   =      3    stress and relaxation']


def build(rng, large=None):
    """Return (lines, features). large: the number of ions and of ionic steps."""
    L = Builder()
    feats = set()

    def noise(most=3):
        for _ in range(rng.randint(0, most)):
            L(rng.choice(NOISE))

    long_run = rng.random() < .12
    nelm = rng.choice([2, 3, 4]) if long_run or large else rng.choice([1, 2, 3, 4, 5, 8, 60, 200])
    nsw = rng.choice([0, 0, 1, 2, 3, 5, 30, 1000])
    # A piece of a long molecular dynamics, of which only the last steps were kept; the columns of the step are full
    start = 1
    if rng.random() < .04:
        start = rng.choice([98, 9998, 99998, 999998, 1000000, 1234567])
        nsw += start
        feats.add('late-piece')
    ibrion = rng.choice([-1, -1, 0, 1, 2, 3, 5, 6, 7, 8])
    spin = rng.choice(['none', 'none', 'col', 'ncl'])
    natoms = rng.choice([1, 1, 2, 3, 4, 12])
    orbitals = rng.choice([('s',), ('s', 'p'), ('s', 'p', 'd'), ('s', 'p', 'd', 'f')])
    # A magnet of which the moments add up to three digits, which leaves no blank in front of the next one
    strong = not large and rng.random() < .03
    if strong:
        natoms = rng.choice([17, 40])
    if large:
        natoms = large[0]
    L(' vasp.6.3.2 27Jun22 (build Jan 01 2023) complex')
    L(' executed on             LinuxGNU date 2023.01.01  10:00:00')
    if rng.random() < .3:
        # the input is echoed; what VASP makes of it is printed later
        feats.add('echo')
        L(' INCAR:')
        L('   SYSTEM = test')
        for name, val in (('NELM', nelm), ('NSW', nsw), ('IBRION', ibrion)):
            if rng.random() < .7:
                val = rng.choice([val, val, 0 if name != 'IBRION' else -1, 7])
                L(f'   {name} = {val}', put(name.lower(), val))
    noise()
    if rng.random() < .6:
        symmetry_block(rng, L, feats)
    noise()
    if rng.random() < .9:
        nbands = rng.choice([1, 8, 16, 128, 12345])
        L(f'   k-points           NKPTS = {rng.randint(1, 999):6d}   k-points in BZ     NKDIM =    128   '
          f'number of bands    NBANDS= {nbands:6d}', put('nbands', nbands))
    L('   number of dos      NEDOS =    301   number of ions     NIONS =      2')
    noise()
    L(f'   NELM   = {nelm:6d};   NELMIN=  2; NELMDL= {rng.choice([-5, 0, 60])}     # of ELM steps', put('nelm', nelm))
    L('   EDIFF  = 0.1E-05   stopping-criterion for ELM')
    noise(1)
    L(f'   NSW    = {nsw:6d}    number of steps for IOM', put('nsw', nsw))
    L(f'   NBLOCK = {1:6d};   KBLOCK = {nsw:6d}    inner block; outer block')
    if rng.random() < .95:
        L(f'   IBRION = {ibrion:6d}    ionic relax: 0-MD 1-quasi-New 2-CG', put('ibrion', ibrion))
    else:
        feats.add('no-ibrion')
    noise()

    nionic = rng.choice([0] + [1] * 4 + [max(1, min(nsw, 6))] * 4 + [2, 3, 4, 6])
    if large:
        nionic = large[1]
    if large:
        nionic = large[1]
    elif long_run:
        # step numbers of several digits, many of them
        nionic = rng.choice([9, 10, 11, 12, 21, 30, 101])
        feats.add('long')
    style = rng.choice(['low', 'breach', 'mixed', 'mixed', 'exact', 'allbutlast', 'onlyfirst', 'onlylast'])
    width = rng.choice([5, 7])
    for step in range(1, nionic + 1):
        ionic = start + step - 1
        if step > 1 and rng.random() < .1:
            symmetry_block(rng, L, feats)
        if style == 'low':
            nelec = max(1, rng.randint(1, nelm) - 1)
        elif style in ('breach', 'exact') or (style, step == 1, step == nionic) in (
                ('onlyfirst', True, True), ('onlyfirst', True, False), ('onlylast', True, True), ('onlylast', False, True)):
            nelec = nelm
        elif style in ('onlyfirst', 'onlylast'):
            nelec = max(1, rng.randint(1, nelm) - 1)
        elif style == 'allbutlast':
            nelec = nelm if step < nionic else max(1, rng.randint(1, nelm) - 1)
        else:
            nelec = rng.choice([nelm, max(1, nelm - 1), 1, rng.randint(1, nelm)])
        nelec = min(nelec + rng.choice([0] * 20 + [1]), 210)
        for elec in range(1, nelec + 1):
            L('-' * 39 + f' Iteration{ionic:{width}d}({elec:4d})  ' + '-' * 39, _iteration(ionic, elec))
            noise(2)
            moments = {'none': [], 'col': 1, 'ncl': 3}[spin]
            texts = [f'{rng.uniform(-99, 99):13.7f}' for _ in range(moments or 0)]
            if rng.random() < .8:
                L(f' number of electron  {rng.uniform(1, 99):14.7f} magnetization ' + ' '.join(texts),
                  (lambda vals: lambda state: state['mag'].__setitem__('full_cell', vals))([float(t) for t in texts]))
                L(f' augmentation part   {rng.uniform(-9, 9):14.7f} magnetization ' + ' '.join(texts))
        if spin != 'none' and rng.random() < .7:
            for proj in {'col': 'x', 'ncl': 'xyz'}[spin]:
                mag_block(rng, L, proj, natoms, orbitals, feats, strong)
        noise()
    if nionic == 0:
        feats.add('no-iterations')
    feats.add('spin.' + spin)
    feats.add('style.' + style)
    if nionic and rng.random() < .35:
        if rng.random() < .8:
            elastic_block(rng, L, '  ELASTIC MODULI  (kBar)', 'non_symmetrized', feats)
            L('')
        if rng.random() < .8:
            elastic_block(rng, L, '  SYMMETRIZED ELASTIC MODULI (kBar)', 'symmetrized', feats)
        if rng.random() < .5:
            elastic_block(rng, L, ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', None, feats)
        if rng.random() < .7:
            elastic_block(rng, L, ' TOTAL ELASTIC MODULI (kBar)', 'total', feats)
    noise()
    if nionic and rng.random() < .8:
        footer(rng, L, feats)
    return L.lines, feats


def footer(rng, L, feats):
    L(f' total amount of memory used by VASP MPI-rank0 {rng.randint(1, 999999):8d}. kBytes')
    L('=' * 71)
    L('')
    for name in ('base      ', 'nonlr-proj', 'fftplans  ', 'grid      ', 'one-center', 'wavefun   '):
        if rng.random() < .9:
            val = rng.randint(0, 99999999)
            text = f'{val:10d}.'
            if rng.random() < .05:
                text, val = '*' * 10 + '.', None
                feats.add('stat.overflow')
            L(f'   {name}: {text} kBytes', stat=('mem_usage_' + name.strip(), val if val is None else float(val)))
    for _ in range(rng.choice([1, 3, 3, 25])):
        L('')
    L(' General timing and accounting informations for this job:', put('finished', True))
    L(' ========================================================')
    L('')
    for name in ('Total CPU time used', 'User time', 'System time', 'Elapsed time'):
        text = f'{rng.uniform(0, 1e6):12.3f}'
        L(f'{name + " (sec):":>46s} {text}', stat=('_'.join(name.lower().split()), float(text)))
    L('')
    for name in ('Maximum memory used', 'Average memory used'):
        if rng.random() < .3:
            text, val = rng.choice([('         N/A', None), ('', None), ('***********.', None)])
            feats.add('stat.empty')
        else:
            text = f'{rng.randint(0, 10**7):11d}.'
            val = float(text)
        L(f'{name + " (kb):":>46s} {text}', stat=('_'.join(name.lower().split()), val))
    L('')
    L('                          Minor page faults:        16913')
    L('                          Major page faults:            0')
    L('                 Voluntary context switches:            0')
    if rng.random() < .2:
        for _ in range(rng.randint(1, 3)):
            L('')
    feats.add('finished')


def fold(lines):
    state = initial()
    for line in lines:
        if line.effect is not None:
            line.effect(state)
    return state


def run_status(state):
    """The documented reading of the run: None when the run never got to its first electronic step."""
    if state['last'] is None:
        return None
    nelm, nsw, ibrion = state['nelm'], state['nsw'], state['ibrion']
    ionic, elec = state['last']
    finished = state['finished']
    ionic_converged = False
    if finished:
        if ibrion <= 0:
            ionic_converged = None
        elif ionic < nsw:
            ionic_converged = True
        elif nsw <= 1:
            ionic_converged = None
    hit = [count >= nelm for _, count in state['steps']]
    if finished:
        consistent = all(hit)
    else:
        consistent = ionic > 1 and all(hit[:-1])
    status = {'nelm': nelm, 'nsw': nsw, 'last_iteration_index': [ionic, elec], 'finished': finished,
              'ionic_converged': ionic_converged, 'electronic_converged': bool(finished and elec < nelm),
              'consistent_nelm_breach': consistent, 'contains_nelm_breach': any(hit)}
    if state['nbands'] is not None:
        status['nbands'] = state['nbands']
    return status


def run_stats(lines):
    return {line.stat[0]: line.stat[1] for line in lines[-50:] if line.stat is not None}
