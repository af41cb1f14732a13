"""C25: the same content gives the same answers and the same written files in every setting of the process."""
import os
import pickle
import random
import subprocess
import sys

import parsevasp
from checks import c23_refusals
from rvlib import cmp, formats
from rvlib.core import Stream

PROPERTY = 'C25'
RULE = ('Batches of random content of all ten formats, valid and damaged, answered by fresh processes in random settings: hash seed, optimization, locale and encoding, development mode, '
        'warnings as errors, print options and error handling of numpy, random state, decimal context, logging, missing standard channels, missing lxml, order of imports, a tracer, threads, an event loop, '
        'garbage collection, a folder that is gone. Every answer, refusal and written file is compared with the ones of a process in the standard setting.')
ASSUMPTIONS = ['Damaged content is compared in settings that turn no warning into an error, and with lxml as in the standard setting, as recovery is up to lxml.']
CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rvlib', 'setting_child.py')
VERIF = os.path.dirname(os.path.dirname(CHILD))
REPO = os.path.dirname(os.path.dirname(os.path.abspath(parsevasp.__file__)))
PARTS = ['base', 'chgcar', 'constants', 'doscar', 'eigenval', 'incar', 'kpoints', 'outcar', 'poscar', 'potcar', 'stream', 'utils', 'vasprun']


def settings(rng):
    """name -> (environment, flags, inner setting, may damaged content be compared)."""
    ascii_env = {'LC_ALL': rng.choice(['C', 'POSIX']), 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}
    return {
        'hash': ({'PYTHONHASHSEED': str(rng.randrange(1, 4000000000))}, [], {}, True),
        'optimized': ({}, [rng.choice(['-O', '-OO'])], {}, True),
        'ascii': (ascii_env, [], {}, True),
        'utf8-mode': ({'LC_ALL': 'C'}, ['-X', 'utf8'], {}, True),
        'locale': ({'LC_ALL': 'C.utf8'}, [], {'locale': ''}, True),
        'comma': ({}, [], {'comma': True}, True),
        'development': ({}, ['-X', 'dev'], {}, True),
        'bytes': ({}, ['-bb'], {}, True),
        'warnings': ({}, [], {'warnings': True}, False),
        'printing': ({}, [], {'print_options': rng.choice([{'precision': 2, 'suppress': True}, {'threshold': 3, 'edgeitems': 1, 'linewidth': 20}, {'legacy': '1.13'}, {'floatmode': 'fixed', 'precision': 1},
                                                           {'sign': '+', 'precision': 3, 'nanstr': 'x', 'infstr': 'y'}])}, True),
        'numpy-errors': ({}, [], {'seterr': {'all': 'raise'}}, False),
        'numpy-silent': ({}, [], {'seterr': {'all': 'ignore'}}, True),
        'random': ({}, [], {'seed': rng.randrange(1000)}, True),
        'garbage': ({}, [], {'gc': rng.choice([None, 1, 3])}, True),
        'decimal': ({}, [], {'decimal': rng.choice([1, 3])}, True),
        'recursion': ({}, [], {'recursion': 250}, True),
        'logging': ({}, [], {'logging': rng.choice(['debug', 'off', 'class'])}, True),
        'umask': ({}, [], {'umask': rng.choice([0, 0o77])}, True),
        'closed': ({}, [], {'closed': rng.choice([['stdout'], ['stderr'], ['stdin', 'stdout', 'stderr']])}, True),
        'no-lxml': ({}, [], {'no_lxml': True}, False),
        'import-order': ({}, [], {'first': rng.choice(PARTS)}, True),
        'traced': ({}, [], {'trace': True}, True),
        'thread': ({}, [], {'thread': True, 'switch': 1e-6}, True),
        'loop': ({}, [], {'loop': True}, True),
        'root': ({}, [], {'cwd': '/'}, True),
        'gone': ({}, [], {'gone': True}, True),
        'home': ({'HOME': '/nonexistent', 'TZ': 'Asia/Tokyo', 'COLUMNS': '20', 'TMPDIR': '/nonexistent', 'USER': ''}, [], {}, True),
        'memory': ({'PYTHONMALLOC': 'debug'}, [], {}, True),
        'digits': ({'PYTHONINTMAXSTRDIGITS': '640'}, [], {}, True),
        'isolated': ({}, ['-s'], {}, True),
    }


NAMES = sorted(settings(random.Random(0)))
APART = {('no-lxml', 'warnings'), ('locale', 'ascii'), ('locale', 'utf8-mode'), ('ascii', 'utf8-mode'), ('gone', 'root')}
REQUIRED = {'setting.' + name: 4 for name in NAMES}
REQUIRED.update({'format.' + name: 30 for name in formats.FORMATS})
REQUIRED.update({'compared': 800, 'compared.damaged': 400, 'compared.written': 200, 'compared.mistake': 1000, 'fact.optimized': 4, 'fact.ascii': 4, 'fact.no-lxml': 4, 'fact.hash-differs': 4})


def damage(rng, raw):
    """Something goes missing, is doubled, or is replaced."""
    lines = raw.split(b'\n')
    at = rng.randrange(len(lines))
    how = rng.choice(['drop', 'double', 'cut', 'byte', 'word'])
    if how == 'drop':
        del lines[at]
    elif how == 'double':
        lines.insert(at, lines[at])
    elif how == 'cut':
        return raw[:rng.randrange(len(raw) + 1)]
    elif how == 'byte':
        pos = rng.randrange(len(raw) + 1)
        return raw[:pos] + rng.choice([b'x', b'0', b'-', b' ', b'\n', b'*', b'=', b'9']) + raw[pos + 1:]
    else:
        words = lines[at].split(b' ')
        words[rng.randrange(len(words))] = rng.choice([b'abc', b'1.5', b'-3', b'', b'0', b'T', b'***', b'1e400', b'nan'])
        lines[at] = b' '.join(words)
    return b'\n'.join(lines)


def run(cx, name, jobs, wrong, env, flags, setting):
    batch = cx.path('batch')
    result = cx.path('answers')
    with open(batch, 'wb') as handle:
        pickle.dump({'jobs': jobs, 'mistakes': wrong, 'setting': setting}, handle)
    base = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    base.update({'PYTHONPATH': os.pathsep.join([REPO, VERIF]), 'PYTHONHASHSEED': '0', 'LC_ALL': 'C.utf8', 'OPENBLAS_NUM_THREADS': '1', 'PYTHONPYCACHEPREFIX': os.path.join(cx.scratch, 'keep')})
    base.update(env)
    done = subprocess.run([sys.executable, *flags, CHILD, batch, result], env=base, capture_output=True, timeout=300, check=False, cwd=cx.scratch)
    if not os.path.exists(result):
        cx.check(False, 'setting-not-survived', f'{name} {env} {flags} {setting}: exit {done.returncode}\n{done.stderr.decode("latin-1")[-2500:]}')
    with open(result, 'rb') as handle:
        answers, refusals, facts = pickle.load(handle)
    cx.check(facts['repo'] == os.path.dirname(os.path.abspath(parsevasp.__file__)), 'other-package', facts)
    cx.check(not done.stdout, 'printed', f'{name}: {done.stdout[:400]!r}')
    return answers, refusals, facts


def compare(rng, cx):
    jobs, plans = [], []
    for fmt in sorted(formats.FORMATS):
        one = formats.case(rng, fmt)
        raw = formats.data(one)
        jobs.append((fmt, cx.write(raw, fmt), one.kwargs, cx.path('written')))
        plans.append(False)
        cx.event('format.' + fmt)
        for _ in range(rng.choice([0, 1, 2])):
            bad = damage(rng, raw)
            try:
                bad.decode('latin-1' if fmt == 'vasprun.xml' else 'utf8')
            except UnicodeDecodeError:
                continue
            jobs.append((fmt, cx.write(bad, fmt), one.kwargs, cx.path('written')))
            plans.append(True)
    offered = settings(rng)
    chosen = []
    for turn in range(3):
        # each has its turn, with others now and then
        names = {NAMES[(cx.index * 3 + turn) % len(NAMES)]} | set(rng.sample(NAMES, rng.choice([0, 0, 1, 2])))
        for pair in APART:
            if names >= set(pair):
                names.discard(pair[0])
        chosen.append(sorted(names))
    cx.sample(jobs=[(j[0], j[2]) for j in jobs], chosen=chosen)
    wrong = [(name, rng.randrange(1 << 30)) for name in (rng.sample(sorted(c23_refusals.NAMES), 20))]
    base, refused, facts0 = run(cx, 'standard', jobs, wrong, {}, [], {})
    for mistake, got in zip(wrong, refused):
        cx.check(got[0] != 'ok', 'mistake-accepted', mistake)
    for i, got in enumerate(base):
        cx.check(plans[i] or got[0] == 'ok', 'valid-rejected', f'{jobs[i][0]}: {got}')
    for names in chosen:
        env, flags, inner, damaged = {}, [], {}, True
        for name in names:
            more = offered[name]
            env.update(more[0])
            flags += more[1]
            inner.update(more[2])
            damaged = damaged and more[3]
            cx.event('setting.' + name)
        if inner.get('gone'):
            inner['gone'] = cx.path('gone')
        if 'locale' in inner and 'LC_ALL' not in env:
            env['LC_ALL'] = 'C.utf8'
        mine = [(j[0], j[1], j[2], cx.path('written')) for j in jobs]
        got, again, facts = run(cx, '+'.join(names), mine, wrong if damaged else [], env, flags, inner)
        for fact, true in (('optimized', facts['optimize'] > 0), ('ascii', facts['encoding'].upper() in ('ANSI_X3.4-1968', 'ASCII', 'US-ASCII')), ('no-lxml', facts['lxml'] is False),
                           ('hash-differs', facts['hash'] != facts0['hash'])):
            if true:
                cx.event('fact.' + fact)
        for i, (want, have) in enumerate(zip(base, got)):
            if plans[i] and not damaged:
                continue
            label = f'{jobs[i][0]}{" (damaged)" if plans[i] else ""} with {"+".join(names)} ({env}, {flags}, {inner})'
            cx.check(want[0] == have[0] and (want[0] == 'ok' or want[1] == have[1]), 'setting-decides', f'{label}: {want[:2] if want[0] != "ok" else "ok"} / {have if have[0] != "ok" else "ok"}')
            cx.event('compared.damaged' if plans[i] else 'compared')
            if want[0] == 'ok':
                for question, answer in want[1].items():
                    res = cmp.diff(answer, have[1].get(question), where=f'{label}: {question}')
                    cx.check(res is None, 'setting-decides', res)
                if 'written' in want[1]:
                    cx.event('compared.written')
        for mistake, want, have in zip(wrong, refused, again):
            cx.check(want[:3] == have[:3], 'setting-decides', lambda: f'{mistake} with {"+".join(names)} ({env}, {flags}, {inner}): {want[:3]} / {have}')
            cx.event('compared.mistake')
        cx.shape(tuple(names), tuple(flags), tuple(g[0] for g in got))


STREAMS = [Stream('compare', compare, 64, 2400)]
