"""Comparison of observed results with the oracle's."""
import math

import numpy as np


def num_close(a, b, rtol=1e-10, atol=1e-12):
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def diff(expected, observed, rtol=0.0, atol=0.0, where='', strict=True):
    """Return None when equal, otherwise a text saying where they differ.

    strict: Python scalar types must agree (int/float/bool/str are told apart).
    """
    if isinstance(expected, np.ndarray) or isinstance(observed, np.ndarray):
        if observed is None or expected is None:
            return f'{where}: expected {expected!r}, observed {observed!r}'
        try:
            exp = np.asarray(expected)
            obs = np.asarray(observed)
        except Exception as exc:  # pylint: disable=broad-except
            return f'{where}: not an array: {exc}'
        if exp.shape != obs.shape:
            return f'{where}: expected shape {exp.shape}, observed {obs.shape}'
        if exp.dtype.kind in 'OUS' or obs.dtype.kind in 'OUS':
            return diff(exp.tolist(), obs.tolist(), rtol, atol, where, strict=False)
        if exp.dtype.kind == 'b' or obs.dtype.kind == 'b':
            same = exp.astype(bool) == obs.astype(bool)
        else:
            exp = exp.astype(float)
            obs = obs.astype(float)
            with np.errstate(all='ignore'):
                same = np.abs(exp - obs) <= atol + rtol * np.maximum(np.abs(exp), np.abs(obs))
                same |= (np.isnan(exp) & np.isnan(obs)) | (exp == obs)
        if np.all(same):
            return None
        bad = np.argwhere(~same)
        first = tuple(int(x) for x in bad[0])
        return (f'{where}{list(first)}: expected {exp[first]!r}, observed {obs[first]!r} '
                f'({len(bad)} of {exp.size} elements differ)')
    if isinstance(expected, dict):
        if not isinstance(observed, dict):
            return f'{where}: expected a dictionary, observed {observed!r}'
        if set(expected) != set(observed):
            return f'{where}: expected keys {sorted(map(str, expected))}, observed {sorted(map(str, observed))}'
        for key in expected:
            res = diff(expected[key], observed[key], rtol, atol, f'{where}[{key!r}]', strict)
            if res:
                return res
        return None
    if isinstance(expected, (list, tuple)):
        if not isinstance(observed, (list, tuple)) or (strict and isinstance(expected, list) != isinstance(observed, list)):
            return f'{where}: expected {expected!r}, observed {observed!r}'
        if len(expected) != len(observed):
            return f'{where}: expected {len(expected)} elements {expected!r}, observed {len(observed)} {observed!r}'
        for i, (exp, obs) in enumerate(zip(expected, observed)):
            res = diff(exp, obs, rtol, atol, f'{where}[{i}]', strict)
            if res:
                return res
        return None
    if isinstance(expected, bool) or isinstance(observed, (bool, np.bool_)):
        if expected is None or observed is None or bool(expected) != bool(observed) or \
                (strict and not (isinstance(expected, (bool, np.bool_)) and isinstance(observed, (bool, np.bool_)))):
            return f'{where}: expected {expected!r}, observed {observed!r}'
        return None
    if isinstance(expected, (int, float, np.integer, np.floating)):
        if isinstance(observed, bool) or not isinstance(observed, (int, float, np.integer, np.floating)):
            return f'{where}: expected {expected!r}, observed {observed!r}'
        if strict and isinstance(expected, (int, np.integer)) != isinstance(observed, (int, np.integer)):
            return f'{where}: expected {expected!r}, observed {observed!r} (type)'
        if not num_close(float(expected), float(observed), rtol, atol):
            return f'{where}: expected {expected!r}, observed {observed!r}'
        return None
    if type(expected) is not type(observed) or expected != observed:
        return f'{where}: expected {expected!r}, observed {observed!r}'
    return None


def same(a, b):
    """Exact structural equality of two observations."""
    return diff(a, b) is None


def freeze(obj):
    """A deep, independent copy of an observation."""
    if isinstance(obj, np.ndarray):
        return obj.copy()
    if isinstance(obj, dict):
        return {k: freeze(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [freeze(v) for v in obj]
    if isinstance(obj, tuple):
        return tuple(freeze(v) for v in obj)
    return obj
