"""Generator and reference model of INCAR content (independent of parsevasp's parser)."""
import os

import yaml

from rvlib import core

_TAGS = None
RAW = ('system', 'magmom', 'm_constr')
WORDS = ['Accurate', 'Normal', 'A', 'V', 'Fast', 'RMM-DIIS', 'PE', 'None', 'sp', 'THIS', 'that', 'Auto', 'path/to-x', 'a_b',
         '10*1.0', '3*0.5', '0.5*', 'x1', 'ALL', 'CHI', 'T', 'F', 'on', 'R', 'L2e', '1a', 'd3', '--', '1.0d-3', '1,2', '(abc)', 'f.t',
         '!now', 'e5', 'E', '.5.', '1e', '+', '-', '.', 'TRUE', 'False', '.TRUE', 'true.', '1-2', '0x1F', '1:4']
TRUES = ['.True.', '.TRUE.', '.true.', '.t.', '.T.']
FALSES = ['.False.', '.FALSE.', '.false.', '.f.', '.F.']
COMMENTS = ['a comment', 'comment; with semicolon', 'has = sign', 'two # signs', 'x', '123', 'FLOAT = 1.45', '  spaced  ',
            'tab\there', '#', 'unicode \u00e5', '.TRUE.', 'pasted\u2028text', 'form\x0cfeed', 'next\x85line', 'v\x0bt ENCUT 3']


def tags():
    """The catalogue of officially supported tags shipped with the package."""
    global _TAGS
    if _TAGS is None:
        with open(os.path.join(core.VERIF, 'rvlib', 'incar_tags.txt'), encoding='utf8') as handle:
            _TAGS = handle.read().split()
    return _TAGS


def plain_tags():
    return [t for t in tags() if t not in RAW]


def random_case(rng, text):
    mode = rng.randrange(4)
    if mode == 0:
        return text.upper()
    if mode == 1:
        return text.lower()
    if mode == 2:
        return text.capitalize()
    return ''.join(c.upper() if rng.random() < .5 else c.lower() for c in text)


def int_token(rng):
    val = rng.choice([0, 1, -1, 2, 5, -5, 350, 100000, 2 ** 31, -7, 10 ** 18, rng.randint(-10 ** 6, 10 ** 6)])
    text = str(val)
    style = rng.randrange(6)
    if style == 0 and val >= 0:
        text = '+' + text
    elif style == 1 and val >= 0:
        text = '00' + text
    return text, val


def float_token(rng):
    style = rng.randrange(9)
    if rng.random() < .03:
        text = rng.choice(['nan', 'NaN', 'inf', 'Infinity', '-inf', '+Inf'])
        return text, float(text)
    mant = rng.randint(-99999, 99999)
    if style == 0:
        text = f'{mant / 1000.0:.3f}'
    elif style == 1:
        text = f'{mant}.'
    elif style == 2:
        text = f'{mant}e{rng.randint(-12, 8)}'
    elif style == 3:
        text = f'{mant}.5E{rng.randint(-12, 8):+03d}'
    elif style == 4:
        text = f'.{abs(mant)}'
    elif style == 5:
        text = f'-.{abs(mant)}e-1'
    elif style == 6:
        text = repr(rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20))
    elif style == 7:
        text = rng.choice(['0.0', '-0.0', '1.0', '1E-6', '1e5', '+0.5', '1.0E+03'])
    else:
        text = f'{rng.uniform(-500, 500):.12f}'
    if '.' not in text and 'e' not in text and 'E' not in text:
        text += '.0'
    # the reference value: exact decimal arithmetic on the text
    return text, float(text)


def bool_token(rng):
    if rng.random() < .5:
        return rng.choice(TRUES), True
    return rng.choice(FALSES), False


def word_token(rng):
    text = rng.choice(WORDS)
    return text, text


KINDS = ['int', 'float', 'bool', 'word', 'ints', 'floats', 'bools', 'words', 'mixedwords', 'empty']


def value(rng, kind=None):
    """Returns (kind, text, python value)."""
    kind = kind or rng.choice(KINDS)
    maker = {'int': int_token, 'float': float_token, 'bool': bool_token, 'word': word_token}
    if kind in maker:
        text, val = maker[kind](rng)
        return kind, text, val
    if kind == 'empty':
        return kind, '', []
    if kind == 'mixedwords':
        items = [rng.choice([bool_token, word_token])(rng) for _ in range(rng.randint(2, 5))]
    else:
        # now and then one value for each of many atoms
        count = rng.randint(2, 7) if rng.random() < .95 else rng.randint(60, 400)
        items = [maker[kind[:-1]](rng) for _ in range(count)]
        pattern = rng.random()
        if pattern < .1:
            # the same for all of them
            items = [items[0]] * count
        elif pattern < .2:
            # in groups, as for the atoms of a species
            few = items[:rng.randint(2, 3)]
            items = sorted((rng.choice(few) for _ in range(count)), key=lambda item: item[0])
        elif pattern < .25 and kind == 'ints':
            first = rng.randint(-3, 30)
            items = [(str(number), number) for number in range(first, first + count)]
    sep = rng.choice([' ', '  ', '\t', ' \t '])
    return kind, sep.join(i[0] for i in items), [i[1] for i in items]


def raw_value(rng):
    kind = rng.choice(['word', 'words', 'ints', 'floats', 'int', 'special'])
    if kind == 'special':
        text = rng.choice(['2*0.5 3*-1.0', 'my system  with   spaces', '5*0', 'C2H6 bulk, run 3', '.TRUE. story', '1 0.5 x', 'pasted\u2028text'])
    else:
        _, text, _ = value(rng, kind)
    return 'raw', text, text


def comment(rng):
    return rng.choice(COMMENTS)


def pad(rng):
    return rng.choice(['', ' ', '  ', '\t', ' \t'])


def build(rng, max_lines=12, raw=True, comments=True, semicolons=True, unknown=False):
    """Generate INCAR text. Returns (text lines, model {tag: value}, comments {tag: comment}, features)."""
    lines, model, coms, feats = [], {}, {}, set()
    pool = list(plain_tags())
    used = []
    for _ in range(rng.randint(1, max_lines)):
        style = rng.random()
        if style < .08:
            lines.append(rng.choice(['', ' ', '\t', '   \t ']))
            feats.add('blank')
            continue
        if style < .18 and comments:
            lines.append(pad(rng) + '#' + rng.choice(['', ' ', 'ENCUT = 1', '!x', ' a = b = c; d', '#']))
            feats.add('commentline')
            continue
        nentries = 1 if not semicolons or rng.random() < .65 else rng.randint(2, 4)
        parts = []
        here = []
        for _ in range(nentries):
            if used and rng.random() < .12:
                tag = rng.choice(used)
                feats.add('duplicate')
            elif raw and rng.random() < .12:
                tag = rng.choice(RAW)
            elif unknown and rng.random() < .4:
                tag = 'my' + rng.choice(['tag', 'other', 'x1', 'flag'])
            else:
                tag = rng.choice(pool)
            used.append(tag)
            kind, text, val = raw_value(rng) if tag in RAW else value(rng)
            feats.add(kind)
            parts.append(f'{pad(rng)}{random_case(rng, tag)}{pad(rng)}={pad(rng)}{text}{pad(rng)}')
            here.append((tag, val))
        if semicolons and rng.random() < .06:
            # an entry that is not there
            parts.insert(rng.randint(0, len(parts)), rng.choice(['', ' ', '\t']))
            feats.add('blank-entry')
        line = ';'.join(parts)
        if nentries > 1:
            feats.add('semicolon')
        if semicolons and rng.random() < .15:
            line += ';' + rng.choice(['', ' ', '\t', ' ;', ';'])
            feats.add('trailing-semicolon')
        com = None
        if comments and rng.random() < .3:
            com = comment(rng)
            line += '#' + rng.choice(['', ' ']) + com
            com = com.strip()
            feats.add('comment')
        for tag, val in here:
            model[tag] = val
            coms[tag] = com
        lines.append(line)
    return lines, model, coms, feats
