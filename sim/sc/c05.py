"""C05: key generation against a simulated random source."""
import random as _random

from .. import core, ref
from ..core import Entropy, Sched, Violation, run_op, short

TITLE = 'threads, clones and restarts that generate keys from a controlled random source'
REAL = ['bitforge.privkey', 'bitforge.hdprivkey', 'the standard library random.SystemRandom']
STUB = ['the operating system random source (os.urandom, os.getrandom, /dev/urandom)', 'clock, process id, pseudo-random state',
        'thread scheduling', 'curve point multiplication in most runs']
RULE = ('a run = one seed: several threads on several cloned processes generate keys from given random byte streams (hostile values '
        'first, failures at chosen draws), each key is regenerated alone, with other clocks and with single bits of its entropy changed')
RUNS = {'quick': 7000, 'thorough': 130000}

W = lambda v: (v % 2**256).to_bytes(32, 'big').hex()


def stream(r):
    k = r.randrange(8)
    pre = []
    if k >= 4:
        edge = [0, 1, 2, ref.N - 3, ref.N - 2, ref.N - 1, ref.N, ref.N + 1, 2**256 - 1, 2**255, 1 << 128, 2**256 - 2**128]
        for _ in range(r.pick([1, 1, 1, 2, 3, 6, 20])):
            v = r.pick(edge)
            pre.append(W(v) if r.chance(.8) else W(v)[::-1] if r.chance(.3) else bytes.fromhex(W(v))[::-1].hex())
    elif k == 3:
        pre = [r.hexb(r.randrange(1, 70))]
    return {'pre': pre, 'seed': r.getrandbits(60)}


def gen(r, tier):
    tasks = []
    for _ in range(r.weighted([(1, 2), (2, 4), (3, 2), (4, 1)])):
        ops = []
        for _ in range(r.randrange(12, 30) if r.chance(.06) else r.randrange(1, 5)):
            ops.append({'kind': r.weighted([('key', 8), ('net', 2), ('hd', 2), ('pos', 2)]), 'ent': stream(r), 'net': r.net(), 'c': r.chance(.6),
                        'fail': r.weighted([(0, 7), (1, 2), (2, 1), (3, .5)]), 'exc': r.pick(['os', 'os', 'notimpl', 'blocking']),
                        'cut': [r.pick(['interrupt', 'memory', 'alarm']), round(r.random(), 4)] if r.chance(.15) else None,
                        'flips': [r.getrandbits(16) for _ in range(4)]})
        tasks.append({'node': r.randrange(3), 'ops': ops})
    if r.chance(.15) and len(tasks) > 1:                         # identical streams on purpose
        tasks[1]['ops'][0]['ent'] = dict(tasks[0]['ops'][0]['ent'])
    return {'cfg': {'gran': r.weighted([('line', 4), ('instr', 2)])}, 'tasks': tasks, 'sched': r.schedule(len(tasks), mean=r.pick([1, 2, 4, 12, 40])),
            'full': r.chance(.04), 'clock': r.getrandbits(40)}


def make(n, op):
    kind = op['kind']
    if kind == 'key':
        return lambda: n.PrivateKey()
    if kind == 'net':
        return lambda: n.PrivateKey(network=getattr(n.networks, op['net']), compressed=op['c'])
    if kind == 'pos':
        return lambda: n.PrivateKey(None, getattr(n.networks, op['net']), op['c'])
    return lambda: n.HDPrivateKey.from_seed()


def ident(kind, v):
    """the secret material of a fresh key"""
    if kind == 'hd':
        return (v.privkey.secret, bytes(v.chain))
    return (v.secret,)


def run(plan, sim):
    nodes = {}
    for t in plan['tasks']:
        if t['node'] not in nodes:
            nodes[t['node']] = sim.boot(worn=True)           # clones: same clock, same pseudo-random state, same pid
    made = []

    def judge(kind, op, o, who):
        """a finished generation"""
        what = lambda: '%s: %s generation with draws %s %r' % (who, kind, [d.hex() for d in o.draws][:6], o)
        if o.fired == 'entropy':
            sim.fault('entropy-' + op['exc'])
            sim.check(o.kind == 'raise', 'key-without-entropy', lambda: what() + ' although the random source failed at draw %d' % op['fail'])
            return None
        if o.fired:
            sim.fault(o.fired)
            if o.kind == 'raise':
                return None
        sim.check(o.kind == 'ok', 'generation-failed', what)
        v = o.value
        k = ident(kind, v)
        sim.check(type(k[0]) is int and 1 <= k[0] < ref.N, 'key-out-of-range', what)
        drawn = b''.join(o.draws)
        sim.check(len(drawn) >= 32, 'too-little-entropy', lambda: what() + ': only %d bytes were drawn' % len(drawn))
        if kind in ('net', 'pos'):
            sim.check((v.network.name, bool(v.compressed)) == (op['net'], op['c']), 'key-attributes', what)
        if kind == 'hd':
            sim.check(len(k[1]) == 32, 'key-attributes', what)
        return k, drawn

    def task(ti, t):
        def body(ctx):
            n = nodes[t['node']]
            for oi, op in enumerate(t['ops']):
                who = 'task%d op%d' % (ti, oi)
                ctx.ent_exc = op['exc']
                o = run_op(ctx, n, make(n, op), ('entropy', op['fail']) if op['fail'] else core.aim(op['cut'], 60 if op['kind'] == 'hd' else 25) if op['cut'] else None, Entropy(op['ent']))
                sim.log(who, o.kind, o.ent_n, o.fired or '')
                j = judge(op['kind'], op, o, who)
                if j is None:
                    o = run_op(ctx, n, make(n, op), None, Entropy(op['ent']))     # the source recovered
                    j = judge(op['kind'], op, o, who + ' retry')
                    sim.probe('retry-after-failure')
                made.append((who, op, j[0], j[1]))
        return body

    if len(plan['tasks']) == 1:
        task(0, plan['tasks'][0])(sim.ctx)
    else:
        s = Sched(sim, plan['sched'])
        for ti, t in enumerate(plan['tasks']):
            s.add('task%d' % ti, task(ti, t))
        s.run()

    # the same bytes give the same key on another machine, another day, with other pseudo-random state
    solo = sim.boot()
    core.CLOCK[0] += plan['clock'] * 1000
    _random.seed(plan['clock'])
    sim.fault('clock-jump')
    for who, op, k, drawn in made:
        o = sim.op(solo, make(solo, op), entropy=Entropy({'pre': [drawn.hex()], 'seed': 'tail'}))
        sim.check(o.kind == 'ok' and ident(op['kind'], o.value) == k, 'depends-on-more-than-entropy',
                  lambda: '%s made %r from draws %s; alone on another clock the same bytes give %r' % (who, k, drawn.hex(), o))
    # keys differ unless the bytes are identical
    seen = {}
    for who, op, k, drawn in made:
        key = (op['kind'] == 'hd', k)
        if key in seen and seen[key][1] != drawn:
            # rejected draws may differ while the accepted ones agree
            a, b = seen[key][1], drawn
            sim.check(a[-32:] == b[-32:], 'same-key-from-different-entropy', lambda: '%s and %s both made %r from %s and %s' % (seen[key][0], who, k, a.hex(), b.hex()))
        seen[key] = (who, drawn)
        sim.state(op['kind'], len(drawn), bool(op['fail']))
    # every bit counts
    for who, op, k, drawn in made:
        if len(drawn) == 32:
            bits = [f % 256 for f in op['flips']][:1 if op['kind'] == 'hd' else 4]
            if plan['full'] and op['kind'] != 'hd':
                bits = range(256)
                plan['full'] = False
            for b in bits:
                other = bytearray(drawn)
                other[b // 8] ^= 1 << (b % 8)
                o = sim.op(solo, make(solo, op), entropy=Entropy({'pre': [bytes(other).hex()], 'seed': 'tail2'}))
                sim.probe('bit-flip')
                sim.check(o.kind == 'ok' and ident(op['kind'], o.value) != k, 'bit-ignored',
                          lambda: '%s: changing bit %d of the drawn bytes %s leaves the key %r: %r' % (who, b, drawn.hex(), k, o))
        elif plan['full'] and op['kind'] != 'hd' and len(drawn) <= 256:
            plan['full'] = False
            n = 0
            for b in range(8 * len(drawn)):
                other = bytearray(drawn)
                other[b // 8] ^= 1 << (b % 8)
                o = sim.op(solo, make(solo, op), entropy=Entropy({'pre': [bytes(other).hex()], 'seed': 'tail2'}))
                n += o.kind == 'ok' and ident(op['kind'], o.value) != k
            sim.probe('bit-count')
            sim.check(n >= 256, 'too-little-entropy', lambda: '%s: only %d bits of %s matter' % (who, n, drawn.hex()))
