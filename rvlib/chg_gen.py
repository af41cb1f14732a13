"""CHGCAR and POTCAR generators with their models."""


def _triple(lat):
    a, b, c = lat
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def chgcar(rng, grid=None):
    """Return (lines, model, features, total_end)."""
    feats = set()
    kind = rng.choice(['nospin', 'spin', 'ncl'])
    feats.add(kind)
    scaling = rng.choice([1.0, 1.0, 3.5, 0.529177, 5.43])
    while True:
        lat_txt = [[f'{rng.uniform(-4, 4) if rng.random() < .7 else 0:12.6f}' for _ in range(3)] for _ in range(3)]
        lat = [[float(x) for x in row] for row in lat_txt]
        if abs(_triple(lat)) > .05:
            break
    if _triple(lat) < 0:
        if rng.random() < .8:
            lat_txt[0], lat_txt[1] = lat_txt[1], lat_txt[0]
            lat[0], lat[1] = lat[1], lat[0]
        else:
            feats.add('left-handed')
    volume = abs(_triple(lat)) * scaling ** 3
    nspecies = rng.choice([1, 1, 2, 3])
    counts = [rng.randint(1, 3) for _ in range(nspecies)]
    natoms = sum(counts)
    names = rng.sample(['Ni', 'O', 'H', 'Ga', 'As'], nspecies)
    lines = [rng.choice(['unknown system', 'CHGCAR of Si', '', 'a 2 3 4', 'x  y']), f'   {scaling:.16f}']
    lines += [' ' + ''.join(row) for row in lat_txt]
    if rng.random() < .9:
        lines.append('   ' + '   '.join(names))
    lines.append('   ' + '   '.join(map(str, counts)))
    lines.append('Direct')
    for _ in range(natoms):
        lines.append(''.join(f'{rng.random():10.6f}' for _ in range(3)))
    lines.append(rng.choice(['', '', '', ' ', '  ']))
    if lines[-1]:
        feats.add('blanks-in-separator')
    if grid is not None:
        pass
    elif rng.random() < .9:
        grid = [rng.choice([1, 2, 3, 4, 5, 8]) for _ in range(3)]
    else:
        grid = [rng.choice([10, 24]), rng.choice([7, 12]), rng.choice([3, 9])]
    if len(set(grid)) == 3:
        feats.add('grid-all-different')
    gtext = rng.choice([''.join(f'{n:5d}' for n in grid), ' ' + ''.join(f'{n:5d}' for n in grid) + ' ', '   ' + '   '.join(map(str, grid))])
    ndata = {'nospin': 1, 'spin': 2, 'ncl': 4}[kind]
    aug = rng.random() < .7
    feats.add('augmentation' if aug else 'no-augmentation')
    per_line = rng.choice([5, 5, 10, 1])
    style = rng.choice(['E', 'E', 'int', 'F'])
    if rng.random() < .1:
        feats.add('negative')
    sets = []
    ends = []
    for d in range(ndata):
        if d and rng.random() < .5:
            # VASP prints the moment of each ion before the grid
            moments = [f'{rng.uniform(-3, 3):20.12E}' for _ in range(natoms)]
            lines += [''.join(moments[i:i + 5]) for i in range(0, natoms, 5)]
            feats.add('moments' if aug else 'moments-alone')
        lines.append(gtext)
        texts = []
        for i in range(grid[0] * grid[1] * grid[2]):
            if style == 'E':
                texts.append(f' {rng.uniform(-1, 1) * 10 ** rng.randint(-20, 3):.11E}')
            elif style == 'int':
                texts.append(f' {rng.randint(-9, 999)}')
            else:
                texts.append(f' {rng.uniform(-9, 99):.6f}')
        vals = [float(t) for t in texts]
        lines += [''.join(texts[i:i + per_line]) for i in range(0, len(texts), per_line)]
        ends.append(len(lines))
        nx, ny, nz = grid
        # x runs fastest in the file; the density is indexed [z][y][x] here
        cube = [[[vals[x + nx * (y + ny * z)] / volume for x in range(nx)] for y in range(ny)] for z in range(nz)]
        sets.append(cube)
        if aug:
            for i in range(natoms):
                naug = rng.choice([1, 4, 8])
                lines.append(f'augmentation occupancies {i + 1:3d}{naug:4d}')
                occ = [f'{rng.uniform(-1, 1):15.7E}' for _ in range(naug)]
                lines += [''.join(occ[k:k + 5]) for k in range(0, naug, 5)]
    model = {'total': sets[0], 'magnetization': None}
    if kind == 'spin':
        model['magnetization'] = sets[1]
    elif kind == 'ncl':
        model['magnetization'] = dict(zip('xyz', sets[1:]))
    return lines, model, feats, ends


FUNCTIONALS = {'PE': ('PBE', 'GGA'), '91': ('PW91', 'GGA'), 'RP': ('revPBE', 'GGA'), 'AM': ('AM05', 'GGA'), 'PS': ('PBEsol', 'GGA'),
               'PW': ('PW86', 'GGA'), 'LM': ('Langreth-Mehl-Hu', 'GGA'), 'PB': ('Perdew-Becke', 'GGA'), 'CA': ('Perdew-Zunger81', 'LDA'),
               'HL': ('Hedin-Lundquist', 'LDA'), 'WI': (None, 'LDA'), 'QQ': (None, None)}
TITELS = [('PAW_PBE {s} 05Jan2001', 1), ('PAW {s} 11Feb1111', 1), ('US {s}', 1), ('{s}', 0), ('PAW_PBE {s} 06Sep2000 extra', 1)]
SYMBOLS = [('In_d', 'In'), ('W_pv', 'W'), ('H', 'H'), ('Si', 'Si'), ('Fe_sv_GW', 'Fe'), ('H.5', 'H'), ('H1.25', 'H'), ('Ga_d', 'Ga'),
           ('O_s', 'O'), ('Zr_sv', 'Zr'), ('H_AE', 'H'), ('Li_AE_GW', 'Li'), ('C_h_nc', 'C')]


def potcar(rng):
    """Return (text, metadata, properties, features)."""
    feats = set()
    meta = {}
    symbol, element = rng.choice(SYMBOLS)
    titel = rng.choice(TITELS)[0].format(s=symbol)
    lexch = rng.choice(list(FUNCTIONALS))
    exponents = rng.random() < .1
    if exponents:
        feats.add('exponents')
    if ' ' in titel and rng.random() < .1:
        titel = titel.replace(' ', '  ', 1)
        feats.add('wide-title')
    if rng.random() < .2:
        shown = lexch.lower()
        feats.add('lower-functional')
    else:
        shown = lexch

    def real(width=9, low=0.0, high=999.0, digits=3):
        text = f'{rng.uniform(low, high):{width}.{digits}f}'
        if rng.random() < .1:
            text = f'{0.0:{width}.{digits}f}'
        if exponents:
            text = ' ' + f'{rng.uniform(-low or -9, high) * 10. ** rng.randint(-9, 9):.{digits}{rng.choice("eE")}}'
        return text, float(text)

    def truth(key):
        val = rng.random() < .5
        text = rng.choice(['T', '.TRUE.', 'True', 't'] if val else ['F', '.FALSE.', 'False', 'f']) if rng.random() < .3 else 'FT'[val]
        meta[key] = val
        return text

    def put(key, *args, **kwargs):
        text, val = real(*args, **kwargs)
        meta[key] = val
        return text

    def whole(key, low, high):
        meta[key] = rng.randint(low, high)
        return f'{meta[key]:9d}'

    vrhfin = f'{element}: ' + rng.choice(['s1p1', 's2p2', 'd10s1', '5p64f145d106s2'])
    meta['VRHFIN'] = vrhfin
    meta['LEXCH'] = shown
    meta['TITEL'] = titel
    out = [f'  {titel}', f'   {rng.uniform(1, 20):.13f}', ' parameters from PSCTR are:']
    if rng.random() < .3:
        feats.add('hash')
        out.append(f'   SHA256 =  {rng.getrandbits(256):064x} {symbol}/POTCAR')
        out.append('   COPYR  = (c) Copyright 05Jan2001 Georg Kresse')
    out.append(f'   VRHFIN ={rng.choice(["", " "])}{vrhfin}' + rng.choice(['', '  ']))
    out.append(f'   LEXCH  = {shown}' + rng.choice(['', '  ']))
    text, val = real(10, 0, 9999, 4)
    meta['EATOM'] = val
    out.append(f'   EATOM  ={text} eV, {val / 13.605698:10.4f} Ry')
    out.append('')
    out.append(f'   TITEL  = {titel}' + rng.choice(['', ' ']))
    body = []
    body.append(f'   LULTRA =        {truth("LULTRA")}    use ultrasoft PP ?')
    body.append(f'   IUNSCR ={whole("IUNSCR", *rng.choice([(-1, 2), (-1, 2), (10, 12)]))}    unscreen: 0-lin 1-nonlin 2-no')
    body.append(f'   RPACOR ={put("RPACOR")}    partial core radius')
    body.append(f'   POMASS ={put("POMASS")}; ZVAL   ={put("ZVAL")}    mass and valenz')
    body.append(f'   RCORE  ={put("RCORE")}    outmost cutoff radius')
    au, _ = real()
    body.append(f'   RWIGS  ={au}; RWIGS  ={put("RWIGS")}    wigner-seitz radius (au A)')
    body.append(f'   ENMAX  ={put("ENMAX")}; ENMIN  ={put("ENMIN")} eV')
    if rng.random() < .5:
        body.append(f'   RCLOC  ={put("RCLOC")}    cutoff for local pot')
    body.append(f'   ICORE  ={whole("ICORE", *rng.choice([(0, 3), (0, 3), (10, 99), (-2, -1)]))}    local potential')
    body.append(f'   LCOR   =        {truth("LCOR")}    correct aug charges')
    body.append(f'   LPAW   =        {truth("LPAW")}    paw PP')
    body.append(f'   EAUG   ={put("EAUG")}')
    body.append(f'   DEXC   ={put("DEXC", 9, -9, 9)}')
    body.append(f'   RMAX   ={put("RMAX")}    core radius for proj-oper')
    body.append(f'   RAUG   ={put("RAUG")}    factor for augmentation sphere')
    body.append(f'   RDEP   ={put("RDEP")}    radius for radial grids')
    body.append(f'   RDEPT  ={put("RDEPT")}    core radius for aug-charge')
    if rng.random() < .3:
        body.append('   QCUT   =   -4.246; QGAM   =    8.493    optimization parameters')
        feats.add('other-keys')
    out += body
    out += ['', '   Atomic configuration', '    3 entries', '     n  l   j            E        occ.',
            '     1  0  0.50     -1785.8828   2.0000', '    Description', '     l       E           TYP  RCUT    TYP  RCUT',
            '     0   -10.8223600     23  1.900', '   Error from kinetic energy argument (eV)']
    if rng.random() < .8:
        out.append(f'   NDATA  ={whole("NDATA", 1, 200)}')
        steps = [real() for _ in range(2)]
        meta['STEP'] = [v for _, v in steps]
        out.append('   STEP   =' + '  '.join(t for t, _ in steps))
    out += ['  11.1      11.1      11.1      11.1', 'END of PSCTR-controll parameters',
            rng.choice([' local part', ' ENMAX  =  777.777; ZVAL = 99.9', ' ... DATA ...']), '   0.1E+01 0.2E+02', ' End of Dataset']
    name, cls = FUNCTIONALS[lexch]
    props = {'symbol': symbol, 'element': element, 'functional': name, 'functional_class': cls}
    return '\n'.join(out) + '\n', meta, props, feats, lexch
