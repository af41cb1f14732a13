"""Plain content of any size, for the cost monitors: name -> (format, text of a size, further arguments)."""


def _real(rng, digits=8, wide=16):
    return f'{rng.uniform(-9, 9):{wide}.{digits}f}'


def _three(rng, digits=8):
    return ' '.join(_real(rng, digits) for _ in range(3))


def incar_values(rng, n):
    return 'SYSTEM = big\nMAGMOM = ' + ' '.join(f'{rng.uniform(-3, 3):.2f}' for _ in range(n)) + '\nENCUT = 300\n'


def incar_repeated(rng, n):
    return ''.join(f'ENCUT = {rng.randint(200, 600)} ; sigma = {rng.random():.3f} # again\nMAGMOM = 1.0 2.0 {rng.random():.2f}\n' for _ in range(n))


def incar_comments(rng, n):
    return 'ENCUT = 300\n' + ''.join(rng.choice(['# a comment\n', '\n', '# PREC = Low\n', '   \n']) for _ in range(n)) + 'ISPIN = 2 # spin\n'


def poscar(rng, n, groups=2, velocities=False, predictors=False, selective=False):
    counts = [n // groups + (1 if i < n % groups else 0) for i in range(groups)]
    names = [('H', 'O', 'Si', 'Fe', 'Ga')[i % 5] for i in range(groups)]
    out = ['big', '1.0', ' 9.0 0.1 0.0', ' 0.0 9.0 0.2', ' 0.3 0.0 9.0', ' '.join(names), ' '.join(map(str, counts))]
    if selective:
        out.append('Selective dynamics')
    out.append('Direct')
    out += [_three(rng) + (' T F T' if selective else '') for _ in range(n)]
    if velocities:
        out += [''] + [_three(rng) for _ in range(n)]
    if predictors:
        out += ['', ' 1', ' 0.5E+00'] + [' 0.1E+00 0.2E+00 0.3E+00 0.4E+00'] + [_three(rng) for _ in range(3 * n)]
    return '\n'.join(out) + '\n'


def poscar_groups(rng, n):
    return poscar(rng, 2 * n, groups=n)


def poscar_velocities(rng, n):
    return poscar(rng, n, velocities=True, selective=True)


def poscar_predictors(rng, n):
    return poscar(rng, n, velocities=True, predictors=True)


def kpoints_explicit(rng, n):
    return f'big\n{n}\nDirect\n' + ''.join(f'{_three(rng)} {rng.randint(1, 9)}.0\n' for _ in range(n))


def kpoints_tetra(rng, n):
    return f'big\n4\nDirect\n' + ''.join(f'{_three(rng)} 1.0\n' for _ in range(4)) + f'Tetrahedra\n{n} 0.0025\n' + '6 1 2 3 4\n' * n


def kpoints_line(rng, n):
    return 'big\n40\nLine-mode\nDirect\n' + ''.join(f'{_three(rng)}\n{_three(rng)}\n\n' for _ in range(n))


def outcar(rng, n, steps=0, noise=0, atoms=0):
    out = [' vasp.5.4.4.18Apr17-6-g9f103f2a35 (build Aug  3 2020) complex', '   NELM   =     60;   NELMIN=  2; NELMDL= -5', '   NSW    =      5    number of steps for IOM', '   IBRION =      2    ionic relax']
    for i in range(1, max(1, steps) + 1):
        out += [f'--------------------------------------- Iteration {i:6d}(   1)  ---------------------------------------',
                f'--------------------------------------- Iteration {i:6d}(   2)  ---------------------------------------']
    out += [f' POTLOK:  cpu time    {rng.random():.4f}: real time    0.0300' for _ in range(noise)]
    if atoms:
        out += [' magnetization (x)', ' ', '# of ion       s       p       d       tot', '-' * 42]
        out += [f'{i:5d}        {rng.uniform(-1, 1):6.3f}  {rng.uniform(-1, 1):6.3f}  {rng.uniform(-1, 1):6.3f}  {rng.uniform(-1, 1):6.3f}' for i in range(1, atoms + 1)]
        out += ['-' * 42, 'tot          0.001   0.002   0.003   0.006', '']
    out += [' General timing and accounting informations for this job:', ' ========================================================', '                  Total CPU time used (sec):       10.000', ' Voluntary context switches:         1000']
    return '\n'.join(out) + '\n'


def outcar_steps(rng, n):
    return outcar(rng, n, steps=n)


def outcar_noise(rng, n):
    return outcar(rng, n, noise=n)


def outcar_atoms(rng, n):
    return outcar(rng, n, atoms=n)


def stdout(rng, n):
    from rvlib import stream_gen
    return '\n'.join([stream_gen.STARTS[0]] + stream_gen.lines(rng, n, wide=False)) + '\n'


def doscar(rng, energies, atoms, projected):
    first = f'{9.0:16.8f}{-9.0:16.8f}{energies:5d}{1.5:16.8f}{1.0:16.8f}'
    out = [f'{atoms:4d}{atoms:4d}{1 if projected else 0:4d}   0', '  0.1E+02  0.1E-09  0.1E-09  0.1E-09  0.5E-15', '  1.0E-004', '  CAR ', ' big', first]
    block = [f'{-9 + 18 * i / energies:11.3f}  {rng.random():.4E}  {rng.random():.4E}' for i in range(energies)]
    out += block
    if projected:
        for _ in range(atoms):
            out += [first] + [f'{-9 + 18 * i / energies:11.3f}  {rng.random():.4E}  {rng.random():.4E}  {rng.random():.4E}' for i in range(energies)]
    return '\n'.join(out) + '\n'


def doscar_energies(rng, n):
    return doscar(rng, n, 2, False)


def doscar_atoms(rng, n):
    return doscar(rng, 4, n, True)


def eigenval(rng, nk, nb):
    out = ['    2    2    1    1', '  0.1E+02  0.2E-09  0.2E-09  0.2E-09  0.5E-15', '  1.0E-004', '  CAR ', ' big', f'{8:7d}{nk:7d}{nb:7d}']
    for _ in range(nk):
        out += ['', ' '.join(f'{rng.random():.7E}' for _ in range(4))] + [f'{b + 1:5d}   {_real(rng, 6, 13)}' for b in range(nb)]
    return '\n'.join(out) + '\n'


def eigenval_kpoints(rng, n):
    return eigenval(rng, n, 3)


def eigenval_bands(rng, n):
    return eigenval(rng, 3, n)


def chgcar_grid(rng, n):
    out = ['big', '1.0', ' 9.0 0.0 0.0', ' 0.0 9.0 0.0', ' 0.0 0.0 9.0', ' H', ' 1', 'Direct', ' 0.0 0.0 0.0', '', f' {n} 5 2']
    vals = [f' {rng.random():.11E}' for _ in range(n * 10)]
    return '\n'.join(out + [''.join(vals[i:i + 5]) for i in range(0, len(vals), 5)]) + '\n'


def potcar_data(rng, n):
    from rvlib import chg_gen
    text = chg_gen.potcar(rng)[0]
    return text + ''.join('  0.12345678E+01  0.12345678E+02 -0.12345678E+01  0.12345678E+01\n' for _ in range(n))


def xml(rng, atoms=2, nk=2, nb=2, energies=3, steps=1, electronic=1, projected=False):
    out = ['<?xml version="1.0" encoding="ISO-8859-1"?>', '<modeling>', ' <generator>', '  <i name="program" type="string">vasp </i>',
           '  <i name="version" type="string">5.4.4  </i>', ' </generator>']
    put = out.append

    def block(name, rows, form=_three):
        put(f'<varray name="{name}" >')
        for _ in range(rows):
            put(f'<v> {form(rng)} </v>')
        put('</varray>')

    def structure(*head):
        put('<structure' + ''.join(head) + '>')
        put('<crystal>')
        block('basis', 3)
        put(f'<i name="volume"> {9.0:16.8f} </i>')
        block('rec_basis', 3)
        put('</crystal>')
        block('positions', atoms)
        put('</structure>')

    put('<kpoints>')
    block('kpointlist', nk)
    put('<varray name="weights" >')
    for _ in range(nk):
        put(f'<v> {1 / nk:16.8f} </v>')
    put('</varray>')
    put('</kpoints>')
    put('<parameters><separator name="electronic">')
    put(f'<i type="int" name="NBANDS">{nb:6d}</i>')
    put('<separator name="electronic spin"><i type="int" name="ISPIN">     1</i></separator>')
    put('<separator name="electronic convergence"><i type="int" name="NELM">    60</i></separator>')
    put('</separator><separator name="ionic"><i type="int" name="NSW">     5</i></separator></parameters>')
    put(f'<atominfo><atoms> {atoms} </atoms><types> 1 </types><array name="atoms" ><dimension dim="1">ion</dimension><field type="string">element</field><field type="int">atomtype</field><set>')
    for _ in range(atoms):
        put('<rc><c>Si</c><c>   1</c></rc>')
    put('</set></array></atominfo>')
    structure(' name="initialpos" ')
    for step in range(steps):
        put('<calculation>')
        for _ in range(electronic):
            put('<scstep><time name="diis">    0.11    0.11</time><energy>' + ''.join(f'<i name="{name}"> {_real(rng)} </i>' for name in ('e_fr_energy', 'e_wo_entrp', 'e_0_energy')) + '</energy></scstep>')
        structure()
        block('forces', atoms)
        block('stress', 3)
        put('<energy>' + ''.join(f'<i name="{name}"> {_real(rng)} </i>' for name in ('e_fr_energy', 'e_wo_entrp', 'e_0_energy')) + '</energy>')
        if step == steps - 1:
            put('<eigenvalues><array><dimension dim="1">band</dimension><dimension dim="2">kpoint</dimension><dimension dim="3">spin</dimension><field>eigene</field><field>occ</field><set><set comment="spin 1">')
            for k in range(nk):
                put(f'<set comment="kpoint {k + 1}">')
                for _ in range(nb):
                    put(f'<r> {_real(rng, 4)} {1.0:8.4f} </r>')
                put('</set>')
            put('</set></set></array></eigenvalues>')
            put(f'<dos><i name="efermi"> {_real(rng)} </i><total><array><dimension dim="1">gridpoints</dimension><dimension dim="2">spin</dimension>'
                '<field>energy</field><field>total</field><field>integrated</field><set><set comment="spin 1">')
            for _ in range(energies):
                put(f'<r> {_three(rng, 4)} </r>')
            put('</set></set></array></total>')
            if projected:
                put('<partial><array><dimension dim="1">gridpoints</dimension><dimension dim="2">spin</dimension><dimension dim="3">ion</dimension><field>energy</field><field>s</field><field>p</field><field>d</field><set>')
                for atom in range(atoms):
                    put(f'<set comment="ion {atom + 1}"><set comment="spin 1">')
                    for _ in range(energies):
                        put(f'<r> {_three(rng, 4)} {_real(rng, 4)} </r>')
                    put('</set></set>')
                put('</set></array></partial>')
            put('</dos>')
            if projected:
                put('<projected><array><dimension dim="1">ion</dimension><dimension dim="2">band</dimension><dimension dim="3">kpoint</dimension><dimension dim="4">spin</dimension>'
                    '<field>s</field><field>p</field><field>d</field><set><set comment="spin1">')
                for k in range(nk):
                    put(f'<set comment="kpoint {k + 1}">')
                    for band in range(nb):
                        put(f'<set comment="band {band + 1}">')
                        for _ in range(atoms):
                            put(f'<r> {_three(rng, 4)} </r>')
                        put('</set>')
                    put('</set>')
                put('</set></set></array></projected>')
        put('</calculation>')
    structure(' name="finalpos" ')
    put('</modeling>')
    return '\n'.join(out) + '\n'


def incar_statements(rng, n):
    return 'SYSTEM = one line\n' + ' ; '.join(f'{rng.choice(["ENCUT", "sigma", "ISMEAR"])} = {rng.randint(1, 5)}' for _ in range(n)) + '\n'


def incar_tags(rng, n):
    return ''.join(f'TAG{i} = {rng.randint(1, 99)} # {i}\n' for i in range(n))


def incar_name(rng, n):
    return 'SYSTEM = ' + 'long name ' * n + '\nENCUT = 300\n'


def poscar_blanks(rng, n):
    return poscar(rng, 3) + '\n' * n + ' \n' * n


def poscar_comment(rng, n):
    return 'x' * n + poscar(rng, 3)


def kpoints_comment(rng, n):
    return 'x' * n + kpoints_explicit(rng, 3)


def outcar_tables(rng, n):
    """A table of moments in each of many steps."""
    step = ''.join(' magnetization (x)\n \n# of ion       s       p       d       tot\n' + '-' * 42 + '\n'
                   + f'{1:5d}        {rng.uniform(-1, 1):6.3f}  {rng.uniform(-1, 1):6.3f}  {rng.uniform(-1, 1):6.3f}  {rng.uniform(-1, 1):6.3f}\n' + '-' * 42
                   + '\ntot          0.001   0.002   0.003   0.006\n\n' for _ in range(n))
    head, tail = outcar(rng, 1).split(' General timing')
    return head + step + ' General timing' + tail


def outcar_electronic(rng, n):
    head, tail = outcar(rng, 1).split(' General timing')
    return head + ''.join(f'--------------------------------------- Iteration {1:6d}({i:4d})  ---------------------------------------\n' for i in range(3, n + 3)) + ' General timing' + tail


def stdout_found(rng, n):
    from rvlib import stream_gen
    return stream_gen.STARTS[0] + '\n' + rng.choice([' ZBRENT: fatal error in bracketing\n', ' Error EDDDAV: Call to ZHEGV failed\n', ' BRMIX: very serious problems\n']) * n


def doscar_projected(rng, n):
    return doscar(rng, n, 3, True)


def chgcar_atoms(rng, n):
    head = ['big', '1.0', ' 9.0 0.0 0.0', ' 0.0 9.0 0.0', ' 0.0 0.0 9.0', ' H', f' {n}', 'Direct'] + [_three(rng) for _ in range(n)]
    vals = [f' {rng.random():.11E}' for _ in range(20)]
    grid = [''.join(vals[i:i + 5]) for i in range(0, 20, 5)]
    extra = []
    for i in range(n):
        extra += [f'augmentation occupancies{i + 1:4d}  4', '  0.1E+00  0.2E+00  0.3E+00  0.4E+00']
    return '\n'.join(head + ['', ' 2 5 2'] + grid + extra + [' 1.0' * 5] * (n // 5) + [' 2 5 2'] + grid + extra) + '\n'


def potcar_lines(rng, n):
    from rvlib import chg_gen
    head, tail = chg_gen.potcar(rng)[0].split('END of PSCTR', 1)
    return head + '   note    text that says nothing\n' * n + 'END of PSCTR' + tail


def xml_noise(rng, n):
    text = xml(rng)
    return text.replace('<structure name="initialpos"', ''.join(f'<separator name="other {i}"><i name="X{i}"> 1.0 </i><v name="Y{i}"> 1.0 2.0 </v></separator>\n' for i in range(n)) + '<structure name="initialpos"')


def xml_matrix(rng, n):
    """The matrix of second derivatives of so many atoms: 9 n n numbers."""
    rows = max(1, int(n ** .5))
    text = xml(rng, atoms=rows)
    row = lambda _: ' '.join(_real(rng) for _ in range(3 * rows))  # noqa: E731
    block = '<dynmat><varray name="hessian" >\n' + ''.join(f'<v> {row(0)} </v>\n' for _ in range(3 * rows)) + f'</varray><v name="eigenvalues"> {row(0)} </v>\n<varray name="eigenvectors" >\n' \
        + ''.join(f'<v> {row(0)} </v>\n' for _ in range(3 * rows)) + '</varray></dynmat>\n'
    return text.replace('</calculation>', block + '</calculation>')


def xml_dielectric(rng, n):
    part = ''.join('<r> ' + ' '.join(_real(rng, 4, 10) for _ in range(7)) + ' </r>\n' for _ in range(n))
    fields = ''.join(f'<field type="float">{name}</field>' for name in ('energy', 'xx', 'yy', 'zz', 'xy', 'yz', 'zx'))
    return xml(rng).replace('</calculation>', '<dielectricfunction>' + ''.join(f'<{what}><array><dimension dim="1">gridpoints</dimension>{fields}<set>\n{part}</set></array></{what}>' for what in ('imag', 'real'))
                            + '</dielectricfunction></calculation>')


def xml_cut(rng, n):
    """A run that is not finished."""
    text = xml(rng, steps=n)
    return text[:text.rindex('<forces') if '<forces' in text else text.rindex('<varray name="stress"')]


# name: (format, text of (rng, size), smallest size)
SCALES = {
    'incar values': ('INCAR', incar_values, 250), 'incar repeated': ('INCAR', incar_repeated, 40), 'incar comments': ('INCAR', incar_comments, 250),
    'poscar sites': ('POSCAR', poscar, 60), 'poscar groups': ('POSCAR', poscar_groups, 40), 'poscar velocities': ('POSCAR', poscar_velocities, 50), 'poscar predictors': ('POSCAR', poscar_predictors, 50),
    'kpoints explicit': ('KPOINTS', kpoints_explicit, 60), 'kpoints tetra': ('KPOINTS', kpoints_tetra, 80), 'kpoints line': ('KPOINTS', kpoints_line, 50),
    'outcar steps': ('OUTCAR', outcar_steps, 40), 'outcar noise': ('OUTCAR', outcar_noise, 120), 'outcar atoms': ('OUTCAR', outcar_atoms, 60),
    'stdout lines': ('stdout', stdout, 40), 'doscar energies': ('DOSCAR', doscar_energies, 150), 'doscar atoms': ('DOSCAR', doscar_atoms, 30),
    'eigenval kpoints': ('EIGENVAL', eigenval_kpoints, 60), 'eigenval bands': ('EIGENVAL', eigenval_bands, 80), 'chgcar grid': ('CHGCAR', chgcar_grid, 60),
    'potcar data': ('POTCAR', potcar_data, 200),
    'xml steps': ('vasprun.xml', lambda rng, n: xml(rng, steps=n), 12), 'xml electronic': ('vasprun.xml', lambda rng, n: xml(rng, electronic=n), 60),
    'xml atoms': ('vasprun.xml', lambda rng, n: xml(rng, atoms=n, projected=True), 15), 'xml kpoints': ('vasprun.xml', lambda rng, n: xml(rng, nk=n, projected=True), 20),
    'xml bands': ('vasprun.xml', lambda rng, n: xml(rng, nb=n, projected=True), 20), 'xml energies': ('vasprun.xml', lambda rng, n: xml(rng, energies=n, projected=True), 40),
    'incar statements': ('INCAR', incar_statements, 60), 'incar tags': ('INCAR', incar_tags, 40), 'incar name': ('INCAR', incar_name, 400),
    'poscar blanks': ('POSCAR', poscar_blanks, 1500), 'poscar comment': ('POSCAR', poscar_comment, 3000), 'kpoints comment': ('KPOINTS', kpoints_comment, 3000),
    'outcar tables': ('OUTCAR', outcar_tables, 20), 'outcar electronic': ('OUTCAR', outcar_electronic, 60), 'stdout found': ('stdout', stdout_found, 60), 'doscar projected': ('DOSCAR', doscar_projected, 40),
    'chgcar atoms': ('CHGCAR', chgcar_atoms, 30), 'potcar lines': ('POTCAR', potcar_lines, 60), 'xml noise': ('vasprun.xml', xml_noise, 60), 'xml matrix': ('vasprun.xml', xml_matrix, 9),
    'xml dielectric': ('vasprun.xml', xml_dielectric, 40), 'xml cut': ('vasprun.xml', xml_cut, 12),
}
