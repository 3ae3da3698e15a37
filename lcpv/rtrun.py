"""Runs run-time contracts on the real code."""
import json, sys, time, traceback
import numpy as np
from . import env
from .rt.base import Skip, Fail


def registry():
    from .rt import geo
    mods = [geo]
    for n in ('dyn', 'lcpr', 'grad', 'types_', 'steps'):
        try:
            mods.append(__import__('lcpv.rt.' + n, fromlist=['x']))
        except ModuleNotFoundError as e:
            if 'lcpv.rt.' + n not in str(e): raise
    out = {}
    for m in mods:
        for k, v in m.RUNTIME.items():
            out.setdefault(k, []).extend(v)
    return out


def in_repo(tb):
    """Was the exception raised by code under check (innermost repo/library frame called from it)?"""
    frames = traceback.extract_tb(tb)
    last = None
    for f in frames:
        if f.filename.startswith(env.REPO + '/'): last = 'repo'
        elif f.filename.startswith(env.VERIF + '/'): last = 'harness'
    return last == 'repo'


def run_case(rt, case):
    """-> None | 'skip' | message"""
    try:
        rt.check(case)
        return None
    except Skip:
        return 'skip'
    except Fail as e:
        return str(e)
    except Exception as e:
        if in_repo(sys.exc_info()[2]):
            tb = traceback.extract_tb(sys.exc_info()[2])
            f = [x for x in tb if x.filename.startswith(env.REPO + '/')][-1]
            return 'raised %s: %s at %s:%d on an input inside the precondition' % (type(e).__name__, str(e)[:200], f.filename, f.lineno)
        raise


TWIST = {'C01', 'C03', 'C04', 'C05', 'C13', 'C14', 'C15', 'C17', 'C19', 'C21', 'C22'}
MOTION = ('vel', 'vs', 'ops', 'kick', 'v')


def twist(rng, x, key=None, mode=None):
    """bodies at rest, motion along one axis, slow motion, round numbers: a share of the cases, in any vector of motion"""
    if mode is None:
        if rng.random() < .7: return x
        mode = str(rng.choice(['rest', 'axis', 'slow', 'round']))
    if isinstance(x, dict): return {k: twist(rng, v, k, mode) for k, v in x.items()}
    if not isinstance(x, list): return x
    if key in MOTION and x and all(isinstance(e, (int, float)) and not isinstance(e, bool) for e in x):
        out = []
        for i in range(0, len(x), 3):
            c = x[i:i + 3]; b = rng.random() < .5
            if mode == 'rest': c = [0.] * len(c) if b else c
            elif mode == 'axis': c = [e if rng.random() < .5 else 0. for e in c]
            elif mode == 'slow': c = [e * 1e-3 for e in c] if b else c
            else: c = [float(round(e)) for e in c]
            out += c
        return out
    return [twist(rng, e, key, mode) for e in x]


def campaign(prop, rts, seconds, seed, maxcases=None):
    """-> dict(stats), violation or None"""
    stats = []
    tw = sum(r.weight for r in rts)
    import warnings; warnings.filterwarnings('ignore')
    for k, rt in enumerate(rts):
        rng = np.random.default_rng([seed, k, int(prop[1:])])
        t0 = time.time(); n = sk = 0; samples = []
        errors = 0
        while time.time() - t0 < seconds * rt.weight / tw or n - sk < 3:
            case = rt.gen(rng)
            if prop in TWIST: case = twist(rng, case)
            case = json.loads(json.dumps(case))
            n += 1
            res = run_case(rt, case)
            if res == 'skip': sk += 1
            elif res is not None:
                return stats, dict(property=prop, contract=rt.name, case=case, message=res)
            elif len(samples) < 2: samples.append(case)
            if maxcases and n >= maxcases: break
            if n > 50 and sk == n: break
        stats.append(dict(contract=rt.name, cases=n, skipped=sk, samples=samples))
    return stats, None
