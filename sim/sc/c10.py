"""C10: operations cut short at any point, then the same process carries on."""
from .. import core, ops
from ..core import BadPlan, Sched, Violation, hash_small, out_view, run_op, short
from .c09 import entropy, scribble

TITLE = 'one process whose operations are interrupted, run out of memory, or lose their hash or random source, and which carries on'
REAL = ['every module of bitforge (public operations catalogue in sim/ops.py)', 'python-ecdsa signing']
STUB = ['asynchronous interrupts, allocation failures, hash and random-source failures (placed by the plan)', 'thread scheduler in a share of runs',
        'curve point multiplication in most runs']
RULE = ('a run = one seed: a history of operations on long-lived objects in one process, many of them cut short at a chosen source line, '
        'instruction or hash/random call, followed by retries and other calls; every completed result is compared with the same call '
        'made alone in a fresh process, and objects and tables are compared at the end')
RUNS = {'quick': 6400, 'thorough': 90000}
ASSUME = ['a fault lands between source lines or bytecode instructions of bitforge, or inside a hash or random-source call']

KINDS = ['interrupt', 'interrupt', 'memory', 'memory', 'alarm', 'hash', 'entropy']


def gen(r, tier):
    world = ops.gen_world(r)
    pool = []
    focus = r.pick(ops.NAMES) if r.chance(.5) else None
    for _ in range(r.randrange(2, 7)):
        o = ops.gen_op(r, pool)
        if focus and r.chance(.6):
            o[0] = focus
        pool.append(o)
    nt = 1 if r.chance(.8) else 2
    focused = ops.gen_focus(r, pool)
    long = r.chance(.02)
    tasks = []
    for _ in range(nt):
        steps = []
        for _ in range(r.randrange(3, 12) if not long else 60):
            i = r.randrange(len(pool))
            f = [r.pick(KINDS), round(r.random(), 5), r.chance(.85 if focused else .35)] if r.chance(.6) else None
            steps.append([i, f])
            if f and r.chance(.6):
                for _ in range(r.pick([1, 1, 2])):
                    steps.append([i, None])
        tasks.append(steps)
    gran = r.weighted([('line', 6), ('instr', 3), ('deep', .7)])
    return {'cfg': {'gran': gran, 'real_ec': r.chance(.005)}, 'world': world, 'pool': pool, 'focus': focused, 'tasks': tasks, 'sched': r.schedule(nt) if nt > 1 else [],
            'scribble': r.chance(.2), 'warm': r.chance(.4)}


def negative(v, want):
    """an answer of 'no' where a verdict was asked for"""
    if v is False:
        return want is True or want is False
    if isinstance(v, list) and isinstance(want, list) and len(v) == len(want):
        return all(a == b or negative(a, b) for a, b in zip(v, want))
    return False


prepare = ops.survey                   # once per process, see runner.run_plan


def run(plan, sim):
    world = plan['world']
    pool, core.FOCUS[0] = ops.apply_focus(plan)
    if any(s[0] >= len(pool) for t in plan['tasks'] for s in t) or any(o[0] not in ops.OPS for o in pool):
        raise BadPlan('pool')
    want, size = {}, {}
    f = lambda W, i: lambda: ops.OPS[pool[i][0]](W, pool[i][1], pool[i][2], pool[i][3])
    for i in sorted({s[0] for t in plan['tasks'] for s in t}):
        n = sim.boot()
        W = ops.W(n, world)
        o = sim.op(n, f(W, i), None, entropy(world, i), count=True)
        want[i] = out_view(o)
        first = (max(1, o.n), o.hash_n, o.ent_n, o.touches)                     # its length when it has to build the objects
        o = sim.op(n, f(W, i), None, entropy(world, i), count=True)  # and when they are there
        size[i] = [first, (max(1, o.n), o.hash_n, o.ent_n, o.touches)]
        sim.check(out_view(o) == want[i], 'repeat-differs', lambda: '%r gave %s, and when repeated %s' % (pool[i], short(repr(want[i]), 400), short(repr(out_view(o)), 400)))
    n = sim.boot()
    W = ops.W(n, world)
    sim.need(n, 'building the objects', W.build_all)
    base = W.views()                                # as built, before any other call
    ref_tables = sim.need(n, 'reading tables', lambda: ops.tables(n))
    n = sim.boot(worn=True)
    W = ops.W(n, world)
    if plan['warm']:
        sim.need(n, 'building the objects', W.build_all)
        seen = set(want)
    else:
        seen = set()                                # the first calls also initialise whatever the library sets up lazily

    def place(i, fault):
        if not fault:
            return None
        kind, frac, touch = fault
        sz = size[i][i in seen]
        seen.add(i)
        k = {'hash': sz[1], 'entropy': sz[2]}.get(kind, sz[0])
        if touch and sz[3] and kind not in ('hash', 'entropy'):
            return (kind, -(1 + int(frac * sz[3])))        # at an access to lasting state
        return (kind, 1 + int(frac * k)) if k else None

    last = {}

    def judge(who, i, o, fault):
        got = out_view(o)
        sim.checks += 1
        sim.log(who, i, hash_small(got) if not o.fired else got[0])
        desc = '%s%r' % (pool[i][0], tuple(pool[i][1:]))
        if o.fired:
            sim.stats['fault:' + o.fired] += 1
            sim.probe('cut-' + pool[i][0])
            sim.state(pool[i][0], o.fired, o.where)
            last[who] = '%s cut short by %s at %s' % (desc, o.fired, o.where)
            if o.kind == 'raise':
                return
            if got == want[i] or (want[i][0] == 'ok' and negative(got[1], want[i][1])):
                return
            raise Violation('wrong-after-fault', '%s, hit by %s at %s, gave %s instead of %s' % (desc, o.fired, o.where, short(repr(got), 400), short(repr(want[i]), 400)))
        if got != want[i]:
            raise Violation('later-call-differs', '%s gave %s, in a fresh process %s (last fault: %s)' % (desc, short(repr(got), 400), short(repr(want[i]), 400), last.get(who)))
        if plan['scribble'] and o.kind == 'ok':
            scribble(o.value)

    if len(plan['tasks']) == 1:
        for i, fault in plan['tasks'][0]:
            judge('main', i, run_op(sim.ctx, n, f(W, i), place(i, fault), entropy(world, i)), fault)
    else:
        sch = Sched(sim, plan['sched'])
        for ti, t in enumerate(plan['tasks']):
            def body(ctx, ti=ti, t=t):
                for i, fault in t:
                    judge('thread %d' % ti, i, run_op(ctx, n, f(W, i), place(i, fault), entropy(world, i)), fault)
            sch.add('t%d' % ti, body)
        sch.run()
    now = W.views()
    for k in now:
        sim.check(now[k] == base[k], 'object-changed', lambda: '%r was %s, is now %s' % (k, short(repr(base[k]), 400), short(repr(now[k]), 400)))
    t = sim.need(n, 'reading tables', lambda: ops.tables(n))
    sim.check(t == ref_tables, 'table-changed', lambda: 'library tables changed: %s' % [(k, ref_tables.get(k), t.get(k)) for k in set(t) | set(ref_tables) if t.get(k) != ref_tables.get(k)])
