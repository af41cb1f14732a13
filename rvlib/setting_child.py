"""Answers a batch of questions in a process of its own: setting_child.py BATCH.pickle ANSWERS.pickle

Everything this process does is what a user would do; the settings it runs in come from the environment, the flags of the interpreter and the batch.
"""
import os
import pickle
import sys


def prepare(setting):
    """Settings from within, before parsevasp is imported."""
    if setting.get('closed'):
        # no standard channels at all, as for a service; nothing of ours is printed
        for name in setting['closed']:
            setattr(sys, name, None)
    if setting.get('no_lxml'):
        class Blocked:
            def find_spec(self, name, path=None, target=None):
                if name.split('.')[0] == 'lxml':
                    raise ImportError('not installed here')
                return None
        sys.meta_path.insert(0, Blocked())
    if setting.get('first'):
        # the part that is imported first
        __import__('parsevasp.' + setting['first'])
    if setting.get('warnings'):
        import warnings
        import numpy  # noqa: F401, what numpy and lxml do while they are imported is theirs
        try:
            import lxml.etree  # noqa: F401
        except ImportError:
            pass
        warnings.simplefilter('error')
    if 'print_options' in setting:
        import numpy as np
        np.set_printoptions(**setting['print_options'])
    if 'seterr' in setting:
        import numpy as np
        np.seterr(**setting['seterr'])
    if 'seed' in setting:
        import random
        import numpy as np
        random.seed(setting['seed'])
        np.random.seed(setting['seed'])
    if 'gc' in setting:
        import gc
        gc.disable() if setting['gc'] is None else gc.set_threshold(setting['gc'])
    if 'decimal' in setting:
        import decimal
        decimal.getcontext().prec = setting['decimal']
        decimal.DefaultContext.prec = setting['decimal']
    if 'recursion' in setting:
        sys.setrecursionlimit(setting['recursion'])
    if 'logging' in setting:
        import logging
        how = setting['logging']
        if how == 'debug':
            logging.basicConfig(level=1, stream=open(os.devnull, 'w'))
        elif how == 'off':
            logging.disable(logging.CRITICAL)
        elif how == 'class':
            class Own(logging.Logger):
                pass
            logging.setLoggerClass(Own)
    if 'umask' in setting:
        os.umask(setting['umask'])
    if 'switch' in setting:
        sys.setswitchinterval(setting['switch'])
    if setting.get('trace'):
        def tracer(frame, event, arg):
            return tracer
        sys.settrace(tracer)
    if setting.get('locale'):
        import locale
        locale.setlocale(locale.LC_ALL, setting['locale'])
    if setting.get('comma'):
        # numbers are written as in many countries; none of these locales is installed here, so say so in their place
        import locale
        conv = dict(locale.localeconv(), decimal_point=',', thousands_sep='.', grouping=[3, 3, 0])
        locale._override_localeconv.update(conv)


def answers(batch):
    from rvlib import cmp, formats
    from rvlib.core import call

    class Nobody:
        def event(self, *_):
            pass

    out = []
    for name, path, kwargs, target in batch['jobs']:
        one = formats.Case(name, formats.FORMATS[name][0], None, kwargs)
        made = call(one.cls, file_path=path, **kwargs)
        if not made.ok:
            out.append((made.kind, made.value if made.kind == 'exit' else type(made.exc).__name__, made.trace))
            continue
        obj = made.value
        got = formats.observe(Nobody(), one, obj)
        if name in formats.WRITABLE:
            wrote = call(obj.write, file_path=target)
            if wrote.ok:
                with open(target, 'rb') as handle:
                    got['written'] = handle.read()
            else:
                got['written'] = (wrote.kind, repr(wrote.value))
        out.append(('ok', got, ''))
    return out


def mistakes(batch):
    """What becomes of mistakes that are to be refused."""
    import random
    import shutil

    from checks import c23_refusals
    from rvlib.core import Context, call

    cx = Context('C23', 0, 'quick', {})
    out = []
    try:
        for name, seed in batch['mistakes']:
            thunk, _, _ = c23_refusals.NAMES[name](random.Random(seed), cx)
            recorder = c23_refusals.Recorder()
            got = call(thunk, logger=recorder)
            told = [r.getMessage().replace(cx.scratch, '') for r in recorder.records if r.levelno >= 40]
            out.append((got.kind, got.value if got.kind == 'exit' else type(got.exc).__name__ if got.kind == 'exc' else '', told, got.trace))
    finally:
        shutil.rmtree(cx.scratch, ignore_errors=True)
    return out


def everything(batch):
    return answers(batch), mistakes(batch)


def main():
    with open(sys.argv[1], 'rb') as handle:
        batch = pickle.load(handle)
    result = os.path.abspath(sys.argv[2])
    setting = batch['setting']
    if setting.get('gone'):
        # the folder this process stands in does not exist any more
        os.mkdir(setting['gone'])
        os.chdir(setting['gone'])
        os.rmdir(setting['gone'])
    elif setting.get('cwd'):
        os.chdir(setting['cwd'])
    prepare(setting)
    if setting.get('thread'):
        import threading
        box = []
        thread = threading.Thread(target=lambda: box.append(everything(batch)))
        thread.start()
        thread.join()
        out = box[0]
    elif setting.get('loop'):
        import asyncio

        async def inside():
            return everything(batch)
        out = asyncio.run(inside())
    else:
        out = everything(batch)
    sys.settrace(None)
    facts = {'optimize': sys.flags.optimize, 'hash': hash('parsevasp'), 'filesystem': sys.getfilesystemencoding(), 'utf8': sys.flags.utf8_mode,
             'dev': sys.flags.dev_mode, 'lxml': sys.modules['parsevasp.vasprun'].USE_LXML, 'repo': os.path.dirname(sys.modules['parsevasp'].__file__)}
    import locale
    facts['encoding'] = locale.getpreferredencoding(False)
    with open(result, 'wb') as handle:
        pickle.dump((out[0], out[1], facts), handle)


if __name__ == '__main__':
    main()
