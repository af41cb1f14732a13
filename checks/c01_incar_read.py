"""C01: reading an INCAR yields exactly the typed settings written in it, from every kind of source."""
import io

from parsevasp.incar import Incar, IncarItem

from rvlib import cmp, incar_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C01'
RULE = ('Random INCAR texts: 1-12, some up to 600, lines of tags from the official catalogue (or unknown tags with validation off) in random letter '
        'case, integer/float/boolean/word values and lists of them in many spellings, free-text tags, empty values, comments, comment '
        'lines, blank lines, grouped entries with ";", duplicates; read through path, open handle, string and dictionary. '
        'Non-trivial: at least one entry; distinct by the set of features and value kinds.')
ASSUMPTIONS = ['Values are compared with a reference reader that knows what was generated (value, type and comment per tag); it never parses.']
REQUIRED = {'read.large': 50, 'read.path': 50, 'read.handler': 50, 'read.string': 50, 'read.dict': 50, 'kind.comment': 20, 'kind.duplicate': 20,
            'kind.trailing-semicolon': 20, 'kind.bools': 10, 'kind.raw': 10}


def compare(cx, incar, model, coms, how):
    got = cx.must(call(incar.get_dict), 'read-result', f'get_dict after reading from {how}')
    res = cmp.diff(model, got, where=f'{how}')
    cx.check(res is None, 'wrong-setting', res)
    for tag, val in model.items():
        res = cmp.diff(val, incar.get(tag), where=f'{how} get({tag})')
        cx.check(res is None, 'wrong-setting', res)
        if coms is not None:
            pair = cx.must(call(incar.get, tag, comment=True), 'read-result')
            res = cmp.diff((val, coms[tag]), pair, where=f'{how} get({tag}, comment=True)')
            cx.check(res is None, 'wrong-comment', res)
    missing = next(t for t in gen.plain_tags() if t not in model)
    cx.check(incar.get(missing) is None, 'invented-setting', f'get({missing}) should give None')


def read(rng, cx, **kwargs):
    unknown = rng.random() < .2
    lines, model, coms, feats = gen.build(rng, unknown=unknown, **kwargs)
    eol = rng.choice(['\n', '\n', '\n', '\r\n'])
    text = eol.join(lines) + rng.choice(['', eol, eol + eol])
    cx.sample(text=text, model={k: repr(v) for k, v in model.items()})
    for feat in feats:
        cx.event('kind.' + feat)
    if model:
        cx.shape(sorted(feats), len(model))
    kwargs = {'validate_tags': False} if unknown else {}
    path = cx.write(text, 'INCAR')
    compare(cx, cx.must(call(Incar, file_path=path, **kwargs), 'valid-rejected', 'reading the path'), model, coms, 'path')
    cx.event('read.path')
    with open(path, encoding='utf8') as handle:
        incar = cx.must(call(Incar, file_handler=handle, **kwargs), 'valid-rejected', 'reading the handle')
    compare(cx, incar, model, coms, 'handle')
    cx.event('read.handler')
    with io.StringIO(text.replace('\r\n', '\n')) as handle:
        incar = cx.must(call(Incar, file_handler=handle, **kwargs), 'valid-rejected', 'reading the in-memory handle')
    compare(cx, incar, model, coms, 'memory handle')
    incar = cx.must(call(Incar, incar_string=text, **kwargs), 'valid-rejected', 'reading the string')
    compare(cx, incar, model, coms, 'string')
    cx.event('read.string')


def large(rng, cx):
    """Hundreds of lines."""
    read(rng, cx, max_lines=600)
    cx.event('read.large')


def from_dict(rng, cx):
    """Dictionaries with typed values or with what one would write in the file, comment included."""
    source, model, coms = {}, {}, {}
    kinds = []
    for tag in rng.sample(gen.plain_tags(), rng.randint(1, 8)) + (['system'] if rng.random() < .3 else []):
        kind, text, val = gen.raw_value(rng) if tag in gen.RAW else gen.value(rng)
        typed = rng.random() < .5
        key = gen.random_case(rng, tag)
        if typed and not isinstance(val, str):
            source[key] = list(val) if isinstance(val, list) else val
            coms[tag] = None
        else:
            com = gen.comment(rng) if rng.random() < .4 else None
            if com is not None and '#' in com:
                com = 'plain'
            source[key] = gen.pad(rng) + text + gen.pad(rng) + ('#' + com if com is not None else '')
            coms[tag] = com.strip() if com is not None else None
        model[tag] = val
        kinds.append((kind, typed))
    keep = cmp.freeze(source)
    cx.sample(source=repr(source))
    cx.shape(sorted(set(kinds)))
    incar = cx.must(call(Incar, incar_dict=source), 'valid-rejected', 'reading the dictionary')
    compare(cx, incar, model, coms, 'dictionary')
    cx.check(cmp.same(keep, source), 'source-modified', 'the dictionary given was changed')
    cx.event('read.dict')


def item(rng, cx):
    """A single entry."""
    tag = rng.choice(gen.plain_tags())
    kind, text, val = gen.value(rng)
    com = gen.comment(rng) if rng.random() < .5 else None
    given = text if rng.random() < .6 or isinstance(val, str) else val
    cx.sample(tag=tag, given=given, comment=com)
    cx.shape(kind, isinstance(given, str), com is None)
    entry = cx.must(call(IncarItem, gen.pad(rng) + gen.random_case(rng, tag) + gen.pad(rng), given, com), 'valid-rejected')
    res = cmp.diff([tag, val, None if com is None else com.strip()], [entry.get_tag(), entry.get_value(), entry.get_comment()])
    cx.check(res is None, 'wrong-entry', res)


def catalogue(rng, cx):
    """Every officially supported tag is accepted, in any letter case (one slice of the catalogue per case)."""
    part = [t for i, t in enumerate(gen.tags()) if i % 16 == cx.index % 16]
    cx.sample(tags=part)
    cx.shape(cx.index % 16)
    text = '\n'.join(f'{gen.random_case(rng, t)} = {i + 3}' for i, t in enumerate(part))
    model = {t: (str(i + 3) if t in gen.RAW else i + 3) for i, t in enumerate(part)}
    incar = cx.must(call(Incar, incar_string=text), 'supported-tag-rejected', part)
    res = cmp.diff(model, incar.get_dict())
    cx.check(res is None, 'wrong-setting', res)
    cx.event('catalogue.tags', len(part))


STREAMS = [Stream('large', large, 96, 1200), Stream('read', read, 32000, 384000), Stream('from_dict', from_dict, 24000, 288000), Stream('item', item, 24000, 288000),
           Stream('catalogue', catalogue, 48, 576)]
