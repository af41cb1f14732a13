"""C02: writing an INCAR and reading it back loses and changes nothing."""
import io
import os
import re

from parsevasp.incar import Incar

from rvlib import cmp, incar_gen as gen
from rvlib.core import Stream, call

PROPERTY = 'C02'
RULE = ('Random settings (every value kind, typed or from text, with comments) held by an Incar; written through path, handler, '
        'in-memory handler and string, with and without comments, then read back. Distinct by value kinds, source and comments.')
ASSUMPTIONS = ['Read back with the reader decided by C01 and, independently, with a line splitter of the harness.']
REQUIRED = {'written.path': 100, 'written.handler': 100, 'written.string': 100, 'written.comments': 50, 'written.prec': 20, 'kind.bools': 20,
            'kind.floats': 20, 'kind.raw': 20}


def splitter(text):
    """Independent view of the file: tag -> text of the value, comment."""
    out = []
    for line in text.split("\n")[:-1]:
        match = re.fullmatch(r'([A-Z0-9_]+) = ([^#]*?)( # (.*))?', line)
        if not match:
            return None, line
        out.append((match.group(1).lower(), match.group(2).strip(), match.group(4)))
    return out, None


def token(val):
    """What VASP has to find in the file for a value: checked by meaning, not by spelling."""
    return val if isinstance(val, list) else [val]


def means(tok, val):
    if isinstance(val, bool):
        return tok.upper().startswith('.T' if val else '.F')
    if isinstance(val, int):
        return re.fullmatch(r'[+-]?\d+', tok) is not None and int(tok) == val
    if isinstance(val, float):
        try:
            return cmp.num_close(float(tok), val, 0., 0.) and re.fullmatch(r'[+-]?\d+', tok) is None
        except ValueError:
            return False
    return tok == val


def verify(cx, text, model, coms, with_comments, how):
    entries, bad = splitter(text)
    cx.check(entries is not None, 'bad-line', f'{how}: {bad!r}')
    keys = [e[0] for e in entries]
    cx.check(sorted(keys) == sorted(model), 'lost-setting', f'{how}: wrote {keys}, held {sorted(model)}')
    cx.check(keys == sorted(keys), 'order', f'{how}: the tags are not in alphabetical order: {keys}')
    for key, value, com in entries:
        exp = model[key]
        if isinstance(exp, str):
            ok = value == exp
        else:
            toks = value.split()
            ok = len(toks) == len(token(exp)) and all(means(t, v) for t, v in zip(toks, token(exp)))
        cx.check(ok, 'wrong-value-written', f'{how}: {key} = {exp!r} was written as {value!r}')
        want = coms[key] if with_comments else None
        if want is not None or com is not None:
            cx.check((com or '').strip() == (want or '').strip(), 'wrong-comment-written', f'{how}: {key}: {want!r} became {com!r}')
    again = cx.must(call(Incar, incar_string=text, validate_tags=False), 'own-output-rejected', how)
    res = cmp.diff(model, again.get_dict(), where=how)
    cx.check(res is None, 'roundtrip-differs', res)
    if with_comments:
        for key in model:
            _, com = again.get(key, comment=True)
            cx.check((com or None) == (coms[key] or None), 'wrong-comment-written', f'{how}: comment of {key}: {coms[key]!r} -> {com!r}')
    return again


def roundtrip(rng, cx):
    unknown = rng.random() < .15
    kwargs = {'validate_tags': False} if unknown else {}
    if rng.random() < .1:
        # as many decimals as any float needs
        kwargs['prec'] = rng.choice([17, 20, 25])
        cx.event('written.prec')
    if rng.random() < .6:
        lines, model, coms, feats = gen.build(rng, unknown=unknown)
        incar = cx.must(call(Incar, incar_string='\n'.join(lines), **kwargs), 'valid-rejected')
        source = 'text'
    else:
        source = 'dict'
        model, given, coms, feats = {}, {}, {}, set()
        for tag in rng.sample(gen.plain_tags(), rng.randint(1, 8)):
            kind, text, val = gen.value(rng)
            feats.add(kind)
            model[tag] = val
            coms[tag] = None
            if isinstance(val, str) or rng.random() < .3:
                # as it would be written in the file
                given[tag] = gen.pad(rng) + text + gen.pad(rng)
                if rng.random() < .3:
                    coms[tag] = rng.choice(['a comment', 'has = sign', 'x; y', 'unicode \u00e5'])
                    given[tag] += '#' + gen.pad(rng) + coms[tag] + gen.pad(rng)
            else:
                given[tag] = val
        keep = cmp.freeze(given)
        incar = cx.must(call(Incar, incar_dict=given, **kwargs), 'valid-rejected')
        cx.check(cmp.same(keep, given) and list(keep) == list(given), 'arguments-changed', lambda: f'{keep} became {given}')
    for feat in feats:
        cx.event('kind.' + feat)
    if model:
        cx.shape(source, sorted(feats), len(model))
    before = cmp.freeze(incar.get_dict())
    cx.sample(model={k: repr(v) for k, v in model.items()}, source=source)
    comments = rng.random() < .5
    extra = {'comments': True} if comments else {}
    # in memory
    handle = io.StringIO()
    cx.must(call(incar.write, file_handler=handle, **extra), 'write-failed', 'in-memory handle')
    text = handle.getvalue()
    verify(cx, text, model, coms, comments, 'in-memory handle')
    if comments:
        cx.event('written.comments')
    # string
    string = cx.must(call(incar.get_string), 'write-failed', 'string')
    verify(cx, string, model, coms, False, 'string')
    cx.event('written.string')
    # path, over an existing longer file
    path = cx.path('INCAR')
    if rng.random() < .5:
        cx.event('written.over-existing')
        with open(path, 'w', encoding='utf8') as old:
            old.write('ENCUT = 1\n' * 400)
    cx.must(call(incar.write, file_path=path, **extra), 'write-failed', 'path')
    with open(path, encoding='utf8') as handle:
        content = handle.read()
    cx.check(content == text, 'sinks-differ', f'path got {content!r}, handle got {text!r}')
    again = cx.must(call(Incar, file_path=path, validate_tags=False), 'own-output-rejected')
    res = cmp.diff(model, again.get_dict(), where='path')
    cx.check(res is None, 'roundtrip-differs', res)
    cx.event('written.path')
    with open(cx.path('INCAR'), 'w+', encoding='utf8') as handle:
        cx.must(call(incar.write, file_handler=handle, **extra), 'write-failed', 'handle')
        cx.check(not handle.closed, 'handle-closed', 'the handle of the caller was closed by writing')
        handle.flush()
        handle.seek(0)
        content = handle.read()
    cx.check(content == text, 'sinks-differ', 'a file handle got another text than an in-memory one')
    cx.event('written.handler')
    # a second generation is identical to the first
    second = again.get_string()
    cx.check(second == string, 'not-stable', f'first {string!r}\nsecond {second!r}')
    cx.check(cmp.same(before, incar.get_dict()), 'write-changed-object', 'writing changed the settings held')
    os.unlink(path)


STREAMS = [Stream('roundtrip', roundtrip, 48000, 576000)]
