"""C09: threads sharing the library's objects under a preemptive scheduler."""
from .. import core, ops
from ..core import BadPlan, Entropy, Sched, Violation, hash_small, out_view, run_op, short

TITLE = 'threads of one process working on the same keys, scripts, transactions, wallets and payment requests'
REAL = ['every module of bitforge (public operations catalogue in sim/ops.py)', 'python-ecdsa signing']
STUB = ['thread scheduler (one thread runs at a time; preemption at source lines or bytecode instructions is decided by the plan)',
        'random source', 'curve point multiplication in most runs']
RULE = ('a run = one seed: 2-4 threads run mixed operations on shared objects under one preemption schedule; every result is compared with '
        'the same call made alone in a fresh process, and all shared objects and library tables are compared before and after')
RUNS = {'quick': 6400, 'thorough': 90000}
ASSUME = ['interpreters are not shared between threads (their documented state is per check)']


def gen(r, tier):
    world = ops.gen_world(r)
    nt = r.weighted([(2, 5), (3, 3), (4, 1)])
    pool = []
    focus = r.pick(ops.NAMES) if r.chance(.4) else None
    for _ in range(r.randrange(2, 9)):
        o = ops.gen_op(r, pool)
        if focus and r.chance(.6):
            o[0] = focus
        pool.append(o)
    long = r.chance(.015)
    tasks = [[r.randrange(len(pool)) for _ in range(r.randrange(1, 6) if not long else 40)] for _ in range(nt)]
    gran = r.weighted([('line', 6), ('instr', 3), ('deep', 1)])
    cfg = {'gran': gran, 'real_ec': r.chance(.01)}
    mean = None
    if gran == 'instr':
        mean = r.pick([5, 30, 100, 400, 2000])
    focus = ops.gen_focus(r, pool)
    return {'cfg': cfg, 'world': world, 'pool': pool, 'focus': focus, 'tasks': tasks, 'sched': r.schedule(nt, mean=mean, touch=1 if focus else None), 'after': [r.randrange(len(pool)) for _ in range(r.randrange(0, 4))],
            'scribble': r.chance(.3), 'warm': r.chance(.2), 'cold': r.chance(.4)}


def scribble(v):
    """a caller changing what it was handed is its own business"""
    if isinstance(v, list):
        for x in v:
            scribble(x)
        v.append('scribble')
    elif isinstance(v, bytearray):
        v.extend(b'scribble')
    elif isinstance(v, dict):
        v['scribble'] = 1


def solo(sim, world, o, k):
    """the call made alone in a fresh process"""
    n = sim.boot()
    W = ops.W(n, world)
    out = sim.op(n, lambda: ops.OPS[o[0]](W, o[1], o[2], o[3]), None, entropy(world, k))
    return out_view(out)


def entropy(world, k): return Entropy({'pre': [], 'seed': 'op%d/%d' % (k, world['salt'])})


prepare = ops.survey                   # once per process, see runner.run_plan


def run(plan, sim):
    world = plan['world']
    pool, core.FOCUS[0] = ops.apply_focus(plan)
    if any(i >= len(pool) for t in plan['tasks'] + [plan['after']] for i in t) or any(o[0] not in ops.OPS for o in pool):
        raise BadPlan('pool')
    used = sorted({i for t in plan['tasks'] + [plan['after']] for i in t})
    want = {}
    for i in used:
        want[i] = solo(sim, world, pool[i], i)
    n = sim.boot()
    fresh = ops.W(n, world)
    sim.need(n, 'building the shared objects', fresh.build_all)
    before = fresh.views()                  # as built, before any other call
    ref_tables = sim.need(n, 'reading tables', lambda: ops.tables(n))
    n = sim.boot(worn=True)
    W = ops.W(n, world)
    if not plan['cold']:                    # cold: the threads also race through whatever the library sets up lazily
        sim.need(n, 'building the shared objects', W.build_all)

    def judge(who, i, o):
        got = out_view(o)
        sim.checks += 1
        sim.log(who, i, hash_small(got))
        sim.probe(pool[i][0])
        if got != want[i]:
            raise Violation('result-differs', '%s: %s%r gave %s, alone it gives %s' % (who, pool[i][0], tuple(pool[i][1:]), short(repr(got), 500), short(repr(want[i]), 500)))
        if plan['scribble'] and o.kind == 'ok':
            scribble(o.value)

    call = lambda i: lambda: ops.OPS[pool[i][0]](W, pool[i][1], pool[i][2], pool[i][3])
    if plan['warm']:
        for i in used[:2]:
            judge('before', i, sim.op(n, call(i), None, entropy(world, i)))
    sch = Sched(sim, plan['sched'])
    for ti, t in enumerate(plan['tasks']):
        def body(ctx, ti=ti, t=t):
            for i in t:
                judge('thread %d' % ti, i, run_op(ctx, n, call(i), None, entropy(world, i)))
        sch.add('t%d' % ti, body)
    sch.run()
    sim.state(*sorted((pool[i][0] for t in plan['tasks'] for i in t)))
    for i in plan['after']:
        judge('afterwards', i, sim.op(n, call(i), None, entropy(world, i)))
    now = W.views()
    for k in now:
        sim.check(now[k] == before[k], 'object-changed', lambda: '%r was %s, is now %s' % (k, short(repr(before[k]), 400), short(repr(now[k]), 400)))
    t = sim.need(n, 'reading tables', lambda: ops.tables(n))
    sim.check(t == ref_tables, 'table-changed', lambda: 'library tables changed: %s' % [(k, ref_tables.get(k), t.get(k)) for k in set(t) | set(ref_tables) if t.get(k) != ref_tables.get(k)])
