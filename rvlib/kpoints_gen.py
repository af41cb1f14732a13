"""Generator and reference model of KPOINTS content (independent of parsevasp)."""
import numpy as np

MODES = ['gamma', 'monkhorst', 'generating', 'explicit', 'tetra', 'line']


def num(rng, val=None):
    if val is None:
        val = rng.choice([0.0, 0.5, 0.25, 1.0, -0.5, 1 / 3., rng.uniform(-1, 1) * 10 ** rng.randint(-12, 1), rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(0, 1)])
    style = rng.randrange(5)
    text = [f'{val:.9f}', f'{val:.14f}', f'{val:.6E}', repr(float(val)), f'{val:.3f}'][style]
    if rng.random() < .2 and float(val).is_integer():
        text = str(int(val))
    return text, float(text)


def row(rng, count=3):
    pairs = [num(rng) for _ in range(count)]
    return [p[0] for p in pairs], [p[1] for p in pairs]


def build(rng, mode=None, size=9):
    """Returns (text, model, features); model is what get_dict has to report."""
    mode = mode or rng.choice(MODES)
    feats = {mode}
    lead = rng.choice(['', ' ', '   '])
    sep = rng.choice([' ', '  ', '\t'])
    comment_text = rng.choice(['Example file', '# Example file', '', '  k-points  ', 'a # b', '4 4 4', 'pasted\u2028text', 'form\x0cfeed'])
    model = {'comment': comment_text.replace('#', '').strip(), 'divisions': None, 'generating_vectors': None, 'shifts': None,
             'points': None, 'tetra': None, 'tetra_volume': None, 'mode': 'automatic', 'centering': None, 'num_kpoints': 0}
    lines = [comment_text]

    def behind():
        text = rng.choice(['', '', '', '', '', ' ! grid', ' # x', '  some words', '\t! 1 2 3', ' 0'])
        if text:
            feats.add('comments-behind')
        return text

    if mode in ('gamma', 'monkhorst', 'generating'):
        count = rng.choice([0, 0, 0, -1]) if mode != 'generating' else 0
        model['num_kpoints'] = count
        lines.append(lead + str(count) + rng.choice(['', '', ' automatic mesh']))
        if mode == 'generating':
            lines.append(rng.choice(['Reciprocal', 'r', 'rec']))
            model['centering'] = 'Reciprocal'
            vectors = []
            for _ in range(3):
                toks, vals = row(rng)
                lines.append(lead + sep.join(toks) + behind())
                vectors.append(vals)
            model['generating_vectors'] = vectors
            toks, vals = row(rng)
            lines.append(lead + sep.join(toks) + behind())
            model['shifts'] = vals
        else:
            lines.append(lead + (rng.choice(['Gamma', 'G', 'gamma', 'g', 'Gamma centered']) if mode == 'gamma' else
                                 rng.choice(['Monkhorst-Pack', 'M', 'm', 'monkhorst'])))
            model['centering'] = 'Gamma' if mode == 'gamma' else 'Monkhorst-Pack'
            model['divisions'] = [rng.randint(1, 21) for _ in range(3)]
            lines.append(lead + sep.join(str(x) for x in model['divisions']) + behind())
            if rng.random() < .6:
                feats.add('shift')
                toks, vals = row(rng)
                model['shifts'] = vals
                lines.append(lead + sep.join(toks) + behind())
                if rng.random() < .15:
                    feats.add('extra-lines')
                    lines.append(rng.choice(['generated by hand', 'x']))
    elif mode in ('explicit', 'tetra'):
        count = rng.randint(1, size)
        model['mode'], model['num_kpoints'] = 'explicit', count
        lines.append(lead + str(count) + rng.choice(['', '', ' points']))
        lines.append(lead + rng.choice(['Direct', 'D', 'd', 'Reciprocal', 'rec', 'direct lattice', 'Fractional', 'b1 b2 b3', 'x']))
        weights = rng.random() < .85
        if not weights:
            feats.add('no-weights')
        points = []
        for _ in range(count):
            toks, vals = row(rng)
            weight = None
            if weights:
                tok, weight = num(rng, rng.choice([1.0, 2.0, 4.0, 0.125, 0.0, rng.uniform(0, 8)]))
                toks = toks + [tok]
            lines.append(lead + sep.join(toks) + (behind() if weights else ''))
            points.append([np.array(vals), weight, True])
        model['points'] = points
        if mode == 'tetra':
            lines.append(rng.choice(['Tetrahedra', 'T', 'tetra', ' Tetrahedra']))
            tetra = [[rng.randint(1, 48)] + [rng.randint(1, count) for _ in range(4)] for _ in range(rng.randint(1, max(6, size)))]
            tok, vol = num(rng, rng.choice([rng.uniform(0.001, 1), rng.uniform(1, 40), rng.uniform(0, 1e-6)]))
            if '.' not in tok and 'e' not in tok and 'E' not in tok:
                tok, vol = '0.125', 0.125
            lines.append(f'{lead}{len(tetra)}{sep}{tok}')
            for entry in tetra:
                lines.append(lead + sep.join(str(x) for x in entry))
            model['tetra'], model['tetra_volume'] = tetra, vol
        elif rng.random() < .15:
            feats.add('extra-lines')
            lines += rng.choice([['generated by hand'], ['x', '1 2 3'], ['0.5 0.5 0.5 1.0'], ['! the end'], ['  end'], ['', 'after a gap'], [' ', '0.1 0.2 0.3 1']])
    else:
        count = rng.randint(2, 60)
        model['mode'], model['num_kpoints'] = 'line', count
        lines.append(lead + str(count) + rng.choice(['', ' ! intersections']))
        lines.append(lead + rng.choice(['Line-mode', 'line', 'L', 'l']))
        lines.append(lead + rng.choice(['Reciprocal', 'rec', 'Direct', 'd', 'R']))
        points = []
        segments = rng.randint(1, max(5, size // 2))
        for seg in range(segments):
            for _ in range(2):
                toks, vals = row(rng)
                lines.append(lead + sep.join(toks) + rng.choice(['', '', ' ! X', '  \\Gamma', ' 1']))
                points.append([np.array(vals), 1.0, True])
            if seg < segments - 1:
                blanks = rng.choice([[''], [''], ['  '], [], ['', ''], ['\t']])
                if blanks != ['']:
                    feats.add('odd-separator')
                lines += blanks
        model['points'] = points
    tail = rng.choice(['', '\n', '\n', '\n', '\n\n', '\n  \n'])
    if len(tail) > 1:
        feats.add('blank-lines-at-end')
    return '\n'.join(lines) + tail, model, feats


def dict_source(model):
    """The same content as a caller's dictionary (points as Kpoint objects)."""
    from parsevasp.kpoints import Kpoint
    out = dict(model)
    if model['points'] is not None:
        out['points'] = [Kpoint(p.copy(), w, direct=d) for p, w, d in model['points']]
    for key in ('divisions', 'shifts'):
        if model[key] is not None:
            out[key] = list(model[key])
    for key in ('generating_vectors', 'tetra'):
        if model[key] is not None:
            out[key] = [list(x) for x in model[key]]
    return out


def read_back(text):
    """Minimal independent KPOINTS reader for files written by the code under test."""
    lines = text.split('\n')
    while lines and not lines[-1].strip():
        lines = lines[:-1]
    out = {'comment': lines[0], 'count': int(lines[1].split()[0])}
    char = lines[2].strip()[0].lower()
    if char == 'l':
        out['mode'] = 'line'
        if lines[3].strip()[0].lower() not in 'dr':
            raise ValueError('coordinate type')
        rest = lines[4:]
        points, group = [], []
        for line in rest + ['']:
            if line.strip():
                group.append([float(x) for x in line.split()])
            else:
                if len(group) not in (2, 1):
                    raise ValueError(f'a segment of {len(group)} points')
                points += group
                group = []
        out['points'] = points
    elif out['count'] > 0:
        out['mode'] = 'explicit'
        if char not in 'dr':
            raise ValueError('coordinate type')
        rows = [[float(x) for x in line.split()] for line in lines[3:3 + out['count']]]
        if len(rows) != out['count'] or any(len(r) != 4 for r in rows):
            raise ValueError('point lines')
        out['points'] = rows
        rest = lines[3 + out['count']:]
        out['tetra'] = None
        if rest:
            if rest[0].strip()[0].lower() != 't':
                raise ValueError(f'expected tetrahedra, found {rest[0]!r}')
            number, volume = rest[1].split()
            out['tetra_volume'] = float(volume)
            out['tetra'] = [[int(x) for x in line.split()] for line in rest[2:]]
            if len(out['tetra']) != int(number):
                raise ValueError('number of tetrahedra')
    else:
        out['mode'] = 'automatic'
        rest = lines[3:]
        if char in 'gm':
            out['centering'] = 'Gamma' if char == 'g' else 'Monkhorst-Pack'
            out['divisions'] = [int(x) for x in rest[0].split()]
            rest = rest[1:]
        elif char == 'r':
            out['centering'] = 'Reciprocal'
            out['generating_vectors'] = [[float(x) for x in line.split()] for line in rest[:3]]
            rest = rest[3:]
        else:
            raise ValueError(f'mode line {lines[2]!r}')
        out['shifts'] = [float(x) for x in rest[0].split()] if rest else [0.0, 0.0, 0.0]
        if len(rest) > 1:
            raise ValueError('lines after the shift')
    return out


def check_written(cx, text, model, tol, how):
    """The independent reader must find exactly the model in the written file."""
    from rvlib import cmp
    try:
        out = read_back(text)
    except (ValueError, IndexError) as exc:
        cx.fail('malformed-output', f'{how}: {type(exc).__name__} {exc}\n{text}')
        return
    cx.event('oracle.read-back')
    cx.check(out['mode'] == model['mode'], 'wrong-mode', f'{how}: {out["mode"]}\n{text}')
    want = {'comment': '# ' + (model['comment'] if model['comment'] is not None else 'No comment')}
    got = {'comment': out['comment']}
    if model['mode'] == 'explicit':
        want['points'] = np.array([list(p) + [1.0 if w is None else w] for p, w, _ in model['points']])
        want['tetra'] = model['tetra']
        want['tetra_volume'] = model['tetra_volume']
        got['points'] = np.array(out['points'])
        got['tetra'] = out['tetra']
        got['tetra_volume'] = out.get('tetra_volume')
    elif model['mode'] == 'line':
        want['points'] = np.array([list(p) for p, _, _ in model['points']])
        want['count'] = model['num_kpoints']
        got['points'] = np.array(out['points'])
        got['count'] = out['count']
    else:
        for key in ('centering', 'divisions', 'generating_vectors'):
            want[key] = model[key]
            got[key] = out.get(key)
        want['shifts'] = model['shifts'] if model['shifts'] is not None else [0.0, 0.0, 0.0]
        got['shifts'] = out['shifts']
    res = cmp.diff(want, got, rtol=1e-13, atol=tol, where=how)
    cx.check(res is None, 'wrong-content-written', f'{res}\n{text}')
