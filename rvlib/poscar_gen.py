"""Generator and reference model of POSCAR content (independent of parsevasp)."""
import numpy as np

SPECIES = ['H', 'He', 'Li', 'C', 'N', 'O', 'Si', 'Fe', 'Co', 'Au', 'U', 'Xx', 'K', 'Cl', 'F', 'S', 'D']
LONG = ['Fe_pv', 'Ga_d_gw', 'H.125', 'Hydrogen', 'Fe_sv', 'Gax', 'Ga']


def inv(mat):
    """3x3 inverse by cofactors (independent of the code under test)."""
    a, b, c = [np.asarray(r, dtype=float) for r in mat]
    vol = float(np.dot(a, np.cross(b, c)))
    return np.array([np.cross(b, c), np.cross(c, a), np.cross(a, b)]).T / vol


def cell(rng):
    """A well conditioned cell, of either handedness, orthogonal or skew."""
    while True:
        style = rng.randrange(5)
        if style == 0:
            length = round(rng.uniform(1, 12), rng.randint(0, 9))
            mat = np.diag([length] * 3)
        elif style == 1:
            mat = np.diag([round(rng.uniform(1, 20), 6) for _ in range(3)])
        elif style == 2:
            mat = np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]) * round(rng.uniform(2, 12), 6)
        elif style == 3:
            mat = np.array([[round(rng.uniform(-9, 9), 8) for _ in range(3)] for _ in range(3)])
        else:
            mat = np.array([[round(rng.uniform(-9, 9), 8) for _ in range(3)] for _ in range(3)])
            mat[1] = mat[1][::-1]
        vol = abs(np.linalg.det(mat))
        if vol > 1.0 and np.linalg.cond(mat) < 100:
            return mat


def num(rng, val):
    """A spelling of a number, and the number that spelling stands for."""
    style = rng.randrange(5)
    if style == 0:
        text = f'{val:.16f}'
    elif style == 1:
        text = f'{val:.8f}'
    elif style == 2:
        text = f'{val:.10E}'
    elif style == 3:
        text = repr(float(val))
    else:
        text = f'{val:.5f}'
    return text, float(text)


def row(rng, vec):
    toks, vals = [], []
    for val in vec:
        tok, num_val = num(rng, val)
        toks.append(tok)
        vals.append(num_val)
    return toks, np.array(vals)


def coordinate(rng):
    style = rng.randrange(6)
    if style == 0:
        return [rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 1 / 3., 2 / 3.]) for _ in range(3)]
    if style == 1:
        return [rng.uniform(-2, 3) for _ in range(3)]
    return [rng.random() for _ in range(3)]


def flag(rng, val):
    return rng.choice(['T', '.TRUE.', 't', '.True.'] if val else ['F', '.FALSE.', 'f', '.False.'])


def species_runs(rng, max_atoms=8):
    """Species line and counts; the same element may come back later, a species may have no atoms."""
    runs = []
    names = LONG if rng.random() < .1 else SPECIES
    for _ in range(rng.randint(1, 4)):
        runs.append((rng.choice(names), rng.randint(1, max(1, max_atoms // 3))))
    if rng.random() < .1:
        runs.insert(rng.randrange(len(runs) + 1), (rng.choice(SPECIES), 0))
    return runs


def build(rng, velocities=None, predictors=None, plain=False, atoms=8):
    """Returns (text, model) - model = {'comment', 'unitcell', 'sites': [...direct...]}, features."""
    feats = set()
    sep = '  ' if plain else rng.choice([' ', '  ', '\t', '   '])
    lead = rng.choice(['', ' ', '   '])
    comment_text = rng.choice(['', 'Si8', '# comment', '  my cell  ', '# Compound: Si2.', 'x # y', 'generated 1 2 3', '   ', 'pasted\u2028text', 'form\x0cfeed'])
    scale_text = rng.choice(['1.0', '1', '1.00000000000000', '2.5', '0.529177', '5.43E+00', ' 3.0 comment', '3.571234567890123', '1.0000000001', '1e-1', '0.01', '0.99999999999999', '1000.0', '1889.7', '2e-4'])
    scale = float(scale_text.split()[0])
    if scale != 1.0:
        feats.add('scaling')
    lines = [comment_text, lead + scale_text]
    want = cell(rng)
    if scale > 100 or scale < 1e-3:
        # the units may be odd, the cell is not
        want = [[x / scale for x in vec] for vec in want]
        feats.add('scaling-odd')
    rows = []
    for vec in want:
        toks, vals = row(rng, vec)
        behind = '' if plain or rng.random() < .9 else rng.choice(['  ! a', ' # x', ' 3.0', '\tsome words'])
        if behind:
            feats.add('comments-behind')
        lines.append(lead + sep.join(toks) + behind)
        rows.append(vals)
    unitcell = np.array(rows) * scale
    runs = species_runs(rng, atoms)
    while sum(n for _, n in runs) == 0:
        runs = species_runs(rng, atoms)
    if any(n == 0 for _, n in runs):
        feats.add('empty-species')
    lines.append(lead + sep.join(s for s, _ in runs))
    lines.append(lead + sep.join(str(n) for _, n in runs))
    selective = rng.random() < .4
    direct = rng.random() < .55
    if selective:
        feats.add('selective')
        lines.append(rng.choice(['Selective dynamics', 'selective', 'S', 'sel', ' Selective dynamics']))
    header = rng.choice(['Direct', 'direct', 'D', 'd', 'DIRECT configuration', 'Direct', ' Direct', 'Fractional', 'x', '  d', 'Reciprocal lattice', '']) if direct else rng.choice(
        ['Cartesian', 'cartesian', 'C', 'c', 'K', 'Cart', 'Kartesian', 'k'])
    if header[:1] not in tuple('DdCcK'):
        feats.add('odd-header')
    lines.append(header)
    feats.add('direct' if direct else 'cartesian')
    icell = inv(unitcell)
    sites = []
    for specie, count in runs:
        for _ in range(count):
            frac = coordinate(rng)
            if direct:
                toks, vals = row(rng, frac)
                pos = vals
            else:
                cart = np.dot(frac, unitcell) / scale
                toks, vals = row(rng, cart)
                pos = np.dot(vals * scale, icell)
            line = lead + sep.join(toks)
            flags = [True, True, True]
            if selective:
                flags = [rng.random() < .5 for _ in range(3)]
                line += sep + sep.join(flag(rng, f) for f in flags)
            if rng.random() < .1:
                line += '  ' + specie
            lines.append(line)
            sites.append({'specie': specie.capitalize(), 'position': pos, 'selective': flags, 'velocities': None,
                          'predictors': None, 'direct': True})
    has_vel = rng.random() < .4 if velocities is None else velocities
    has_pre = rng.random() < .3 if predictors is None else predictors
    if has_vel:
        vdirect = rng.random() < .5
        feats.add('velocities-' + ('direct' if vdirect else 'cartesian'))
        if vdirect != direct:
            feats.add('velocities-unlike-positions')
        lines.append(rng.choice(['Direct', 'direct', 'd', ' Direct']) if vdirect else rng.choice(['Cartesian', 'cartesian', 'c', 'K', 'k']))
        # VASP starts with and prints velocities of nothing but zeros, too
        rest = rng.choice(['none', 'none', 'none', 'some', 'all'])
        feats.add('resting-' + rest)
        for site in sites:
            vec = [rng.uniform(-1, 1) * 10 ** rng.randint(-3, 1) for _ in range(3)]
            if rest == 'all' or rest == 'some' and rng.random() < .5:
                vec = [0.0, 0.0, 0.0]
            toks, vals = row(rng, vec)
            lines.append(lead + sep.join(toks))
            site['velocities'] = vals if vdirect else np.dot(vals, icell)
    if has_pre:
        feats.add('predictors')
        zeros = rng.random() < .2
        lines.append(rng.choice(['', ' ', '   ', '\t']))
        for site in sites:
            toks, vals = row(rng, [0.0, 0.0, 0.0] if zeros else [rng.uniform(-1, 1) for _ in range(3)])
            lines.append(lead + sep.join(toks))
            site['predictors'] = vals
    tail = rng.choice(['', '\n', '\n', '\n', '\n\n', '\n\n\n', '\n \n'])
    if len(tail) > 1:
        feats.add('blank-lines-at-end')
    if len({s for s, _ in runs}) < len(runs):
        feats.add('split-species')
    text = '\n'.join(lines) + tail
    model = {'comment': comment_text.replace('#', '').strip(), 'unitcell': unitcell, 'sites': sites}
    return text, model, feats


def to_cart(model):
    """The same model with Cartesian coordinates."""
    out = []
    for site in model['sites']:
        new = dict(site)
        new['position'] = np.dot(site['position'], model['unitcell'])
        if site['velocities'] is not None:
            new['velocities'] = np.dot(site['velocities'], model['unitcell'])
        new['direct'] = False
        out.append(new)
    return {**model, 'sites': out}


def sites_for_dict(rng, model):
    """A caller's dictionary describing the model, sites in the two accepted representations."""
    from parsevasp.poscar import Site
    sites = []
    for site in model['sites']:
        direct = rng.random() < .6
        pos, vel = site['position'], site['velocities']
        if not direct:
            pos = np.dot(pos, model['unitcell'])
            vel = None if vel is None else np.dot(vel, model['unitcell'])
        pre = site['predictors']
        if rng.random() < .5:
            sites.append(Site(site['specie'], pos.copy(), list(site['selective']), vel, pre, direct))
        else:
            sites.append({'specie': site['specie'], 'position': pos.copy(), 'selective': list(site['selective']),
                          'velocities': vel, 'predictors': pre, 'direct': direct})
    return {'comment': model['comment'], 'unitcell': model['unitcell'].copy(), 'sites': sites}


def view_site(site):
    """Observe a Site object or a dictionary alike."""
    if isinstance(site, dict):
        return dict(site)
    return {'specie': site.get_specie(), 'position': site.get_position(), 'selective': site.get_selective(),
            'velocities': site.get_velocities(), 'predictors': site.get_predictors(), 'direct': site.get_direct()}


def read_back(text):
    """A minimal independent POSCAR reader for files written by the code under test.

    Returns (comment, cell, species, counts, sites) or raises ValueError saying what is malformed.
    """
    lines = text.split('\n')
    if lines[-1] != '':
        raise ValueError('the last line is not terminated')
    lines = lines[:-1]
    scale = float(lines[1])
    mat = np.array([[float(x) for x in lines[i].split()] for i in (2, 3, 4)]) * scale
    species, counts = lines[5].split(), [int(x) for x in lines[6].split()]
    if len(species) != len(counts):
        raise ValueError('species and counts do not match')
    pos = 7
    selective = False
    if lines[pos][0] in 'sS':
        selective = True
        pos += 1
    if lines[pos][0] not in 'dDcC':
        raise ValueError(f'coordinate type {lines[pos]!r}')
    direct = lines[pos][0] in 'dD'
    pos += 1
    names = [s for s, n in zip(species, counts) for _ in range(n)]
    imat = inv(mat)
    sites = []
    for name in names:
        toks = lines[pos].split()
        if len(toks) != (6 if selective else 3):
            raise ValueError(f'position line {lines[pos]!r}')
        vec = np.array([float(x) for x in toks[:3]])
        flags = [t == 'T' for t in toks[3:]] if selective else [True] * 3
        if selective and any(t not in 'TF' for t in toks[3:]):
            raise ValueError(f'flags {lines[pos]!r}')
        sites.append({'specie': name, 'position': vec if direct else np.dot(vec, imat), 'selective': flags, 'velocities': None,
                      'predictors': None, 'direct': True})
        pos += 1
    if pos < len(lines) and lines[pos].strip():
        if lines[pos][0] not in 'dDcC':
            raise ValueError(f'velocity type {lines[pos]!r}')
        vdirect = lines[pos][0] in 'dD'
        pos += 1
        for site in sites:
            vec = np.array([float(x) for x in lines[pos].split()])
            site['velocities'] = vec if vdirect else np.dot(vec, imat)
            pos += 1
    if pos < len(lines):
        if lines[pos].strip():
            raise ValueError(f'expected a blank line, found {lines[pos]!r}')
        pos += 1
        for site in sites:
            site['predictors'] = np.array([float(x) for x in lines[pos].split()])
            pos += 1
    if pos != len(lines):
        raise ValueError('text after the end')
    return lines[0], mat, species, counts, sites


def written_order(model_sites, conserve):
    """Acceptable orders: as held, or grouped by species with the rarest species first (ties free)."""
    if conserve:
        return None
    groups = {}
    for site in model_sites:
        groups.setdefault(site['specie'], []).append(site)
    return groups
