"""Running plans: one seed -> one plan -> one result; minimisation; replay files."""
import copy
import importlib
import json
import os
import sys
import time
import traceback

from . import core, wear
from .gens import R

PROPS = ['C%02d' % i for i in range(1, 15)]


def scenario(prop):
    return importlib.import_module('sim.sc.' + prop.lower())


def seed_for(base, prop, i):
    """one integer per run"""
    import hashlib
    h = core.REAL.sha256(('%d/%s/%d' % (base, prop, i)).encode()).digest()
    return int.from_bytes(h[:7], 'big')


def make_plan(prop, seed, tier='quick'):
    sc = scenario(prop)
    plan = sc.gen(R(seed), tier)
    if not plan.setdefault('cfg', {}).get('real_ec'):
        plan['cfg']['wear'] = wear.gen(R(seed ^ 0x77656172), prop)
    text = json.dumps(plan)
    plan = json.loads(text)                   # exactly what a replay file can hold
    if plan['cfg'].get('gran') == 'instr' and len(text) > 60000:
        plan['cfg']['gran'] = 'line'          # scripts this long take tens of millions of instructions
    plan['prop'] = prop
    plan['seed'] = seed
    return plan


def run_plan(plan, keep_log=False):
    """pure function of plan and code"""
    sc = scenario(plan['prop'])
    plan = copy.deepcopy(plan)
    cfg = dict(plan.get('cfg') or {})
    cfg['_prop'] = plan['prop']
    if keep_log:
        cfg['_keep_log'] = True
    core.install()
    if hasattr(sc, 'prepare'):
        sc.prepare()
    res = {'violation': None}
    sim = core.Sim(cfg)
    try:
        sc.run(plan, sim)
    except core.Violation as e:
        res['violation'] = {'cls': e.cls, 'detail': e.detail}
    except core.BadPlan as e:
        res['badplan'] = str(e)
    except core.HarnessError:
        res['error'] = traceback.format_exc()
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]
        res['violation'] = {'cls': 'unexpected-' + type(e).__name__,
                            'detail': '%s at %s' % (core.str_exc(e), ' > '.join(where)), 'tb': traceback.format_exc()}
    finally:
        core.CUR = None
    if res['violation']:
        sim.log('VIOLATION', res['violation']['cls'], res['violation']['detail'])
    res.update(stats=dict(sim.stats), checks=sim.checks, digest=sim.digest(), switch=sim.switch_hash.hexdigest()[:16],
               states=sorted(sim.states), simtime=sim.now, known=sim.known, boots=sim.boots, lines=sim.lines)
    return res


# ---------------------------------------------------------------- minimisation

def _lists(node, path=()):
    """paths of lists whose elements can be dropped (lists of dicts or of lists)"""
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _lists(node[k], path + (k,))
    elif isinstance(node, list):
        if node and all(isinstance(x, (dict, list)) for x in node):
            yield path
        for i, x in enumerate(node):
            yield from _lists(x, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _with(plan, path, value):
    p = copy.deepcopy(plan)
    if not path:
        return value
    _get(p, path[:-1])[path[-1]] = value
    return p


def _scalars(node, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            if k not in ('prop', 'seed'):
                yield from _scalars(node[k], path + (k,))
    elif isinstance(node, list):
        for i, x in enumerate(node):
            yield from _scalars(x, path + (i,))
    else:
        yield path, node


def minimise(plan, cls, budget=40.0, log=None):
    """greedy: drop list elements, then simplify scalars, while the same violation class persists"""
    end = core.REAL.monotonic() + budget
    tries = [0]

    def fails(p):
        tries[0] += 1
        try:
            r = run_plan(p)
        except Exception:
            return False
        return bool(r['violation']) and r['violation']['cls'] == cls

    changed = True
    while changed and core.REAL.monotonic() < end:
        changed = False
        for path in sorted(_lists(plan), key=lambda p: (len(p), str(p))):
            try:
                cur = _get(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list):
                continue
            n = max(1, len(cur) // 2)
            while n >= 1 and core.REAL.monotonic() < end:
                i, hit = 0, False
                while i < len(cur) and core.REAL.monotonic() < end:
                    cand = cur[:i] + cur[i + n:]
                    q = _with(plan, path, cand)
                    if fails(q):
                        plan, cur, hit, changed = q, cand, True, True
                    else:
                        i += n
                if not hit:
                    n //= 2
        for path, v in list(_scalars(plan)):
            if core.REAL.monotonic() >= end:
                break
            try:
                if _get(plan, path) != v:
                    continue
            except (KeyError, IndexError, TypeError):
                continue
            cands = []
            if isinstance(v, bool):
                cands = [False] if v else []
            elif isinstance(v, int):
                cands = [c for c in (0, 1, v // 2) if c != v and abs(c) < abs(v)]
            elif isinstance(v, float):
                cands = [c for c in (0.0, 0.5) if c != v] if v not in (0.0, 0.5) else []
            elif v is not None and isinstance(v, str) and len(v) > 8:
                cands = ['00' * (len(v) // 2)] if set(v) <= set('0123456789abcdef') and len(v) % 2 == 0 and set(v) != {'0'} else []
            if v is not None and not isinstance(v, (bool, str, int)):
                cands.append(None)
            for c in cands:
                q = _with(plan, path, c)
                if fails(q):
                    plan, changed = q, True
                    break
    return plan, tries[0]


# ---------------------------------------------------------------- replay files

def write_replay(path, plan, res, tries):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    full = run_plan(plan, keep_log=True)
    with core.REAL.open(path, 'w') as f:
        json.dump({'property': plan['prop'], 'seed': plan['seed'], 'violation': full['violation'] or res['violation'],
                   'digest': full['digest'], 'minimisation_runs': tries, 'plan': plan,
                   'trace': full['lines'][-400:]}, f, indent=1, sort_keys=True)
    return full
