"""C14: deterministic signers, verifiers and key recovery with the exported curve helpers."""
from .. import core, ref
from ..core import Entropy, Sched, run_op
from .c05 import stream
from .c06 import digest

TITLE = 'signers that crash and retry, threads that share one generator, verifiers that recover the signer from what a lossy network delivers'
REAL = ['bitforge.utils.ecdsa', 'bitforge.utils.ellipticcurve', 'bitforge.utils.numbertheory', 'bitforge.utils.secp256k1']
STUB = ['thread scheduling', 'network', 'the operating system random source (must not matter)', 'point multiplication in a share of runs']
RULE = ('a run = one seed: threads on several machines sign digests and combine points, cut short at chosen instructions and retried; the '
        'signatures travel with loss, repetition and damage to verifiers; every result is compared with an independent RFC 6979 / curve model')
RUNS = {'quick': 1500, 'thorough': 22000}

BENT = ['none', 'none', 'rbit', 'sbit', 'dbit', 'swap', 'r+n', 's+n', 'r0', 's0', 'r-', 's-', 'n-s', 'n-r', 'otherkey', 'negkey', 'inf-verify', 'inf-recover', 'rrand', 'rn', 'sn',
        's1', 'r-p', 'bigx']


def scalar(r, pool):
    if pool and r.chance(.4):
        s = r.pick(pool)
        return r.pick([s, ref.N - s, s + 1, s - 1, 2 * s % ref.N, s ^ 1])
    return r.weighted([(r.randrange(1, ref.N), 5), (r.randrange(0, 20), 3), (r.pick([ref.N - 1, ref.N, ref.N + 1, ref.N - 2, ref.N - 3, 2 * ref.N, 2**256 - 1, ref.N // 2, ref.N // 2 + 1]), 3),
                       (1 << r.randrange(257), 2), ((1 << r.randrange(1, 257)) - 1, 2), (r.getrandbits(256) & r.getrandbits(256) & r.getrandbits(256), 1)])


def gen(r, tier):
    keys, digs, tasks, pool = [], [], [], []
    for _ in range(r.randrange(1, 4)):
        keys.append(r.key(keys))
    pool += [int(k['s'], 16) for k in keys]
    real = r.chance(.5)
    room = 12 if real else 40
    for _ in range(r.weighted([(1, 3), (2, 4), (3, 1)])):
        ops = []
        for _ in range(r.randrange(1, 5 if real else 8)):
            do = r.weighted([('sign', 6), ('pub', 2), ('lift', 1.5), ('sum', 2), ('mul', 2)])
            op = {'do': do, 'k': r.randrange(len(keys)), 'cut': None, 'ent': stream(r)}
            if do == 'sign':
                op['d'] = digest(r, digs)
                digs.append(op['d'])
            elif do == 'lift':
                op['x'] = r.pick([0, 1, 2, 3])
                op['even'] = r.chance(.5)
            elif do == 'sum':
                op['s'] = []
                for _ in range(r.randrange(2, 5)):
                    op['s'].append(scalar(r, pool + op['s']))
                op['tree'] = r.chance(.5)
            elif do == 'mul':
                op['s'] = [scalar(r, pool)]
                op['base'] = r.pick([1, 1, r.pick(pool)])
            if r.chance(.25):
                op['cut'] = [r.pick(['interrupt', 'memory', 'alarm', 'hash', 'crash']), r.pick([1, 2, 3, r.randrange(1, 12), r.randrange(1, 60), r.randrange(1, 4000), -r.randrange(1, 9), -r.randrange(1, 200)])]
                if op['cut'][0] == 'hash':
                    op['cut'][1] = abs(op['cut'][1])
            ops.append(op)
        tasks.append({'node': r.randrange(2), 'ops': ops[:room]})
    msgs = []
    for _ in range(r.randrange(1, 4 if real else 9)):
        msgs.append({'sig': r.getrandbits(16), 'bent': r.pick(BENT), 'v': r.getrandbits(256) or 1, 'delay': r.randrange(1, 10**6), 'lost': r.weighted([(0, 4), (1, 1), (2, 1)]),
                     'dup': r.chance(.2), 'recover': r.chance(.6), 'cut': [r.pick(['interrupt', 'memory', 'alarm']), r.pick([1, 2, 5, r.randrange(1, 40), r.randrange(1, 3000)])] if r.chance(.2) else None})
    return {'cfg': {'real_ec': real, 'gran': r.weighted([('line', 3), ('deep', 1.5), ('instr', 1)])}, 'keys': keys, 'tasks': tasks, 'msgs': msgs,
            'sched': r.schedule(len(tasks), mean=r.pick([2, 5, 15, 60, 400]))}


def pair(p):
    """a Point (or pair) as reference value"""
    if p is None:
        return None
    x, y = p if isinstance(p, tuple) else p.pair()
    return None if x is None else (x, y % ref.P)


def run(plan, sim):
    keys = [int(k['s'], 16) for k in plan['keys']]
    nodes, gen0 = {}, {}

    def boot(i):
        n = nodes[i] = sim.boot(worn=True)
        gen0[i] = n.mods['bitforge.utils'].generator_secp256k1
        return n
    for t in plan['tasks']:
        if t['node'] not in nodes:
            boot(t['node'])
    sigs = []

    def action(n, op):
        """(call, reference value)"""
        u = n.mods['bitforge.utils']
        G, k = u.generator_secp256k1, keys[op['k'] % len(keys)]
        do = op['do']
        if do == 'sign':
            d = bytes.fromhex(op['d'])
            return lambda: tuple(u.sign(G, k, int.from_bytes(d, 'big'))), ref.det_sign(k, d)
        if do == 'pub':
            return lambda: tuple(u.public_pair_for_secret_exponent(G, k)), ref.pub(k)
        if do == 'lift':
            x, i = ref.pub(k)[0], 0
            if op['x']:
                x, i = x * op['x'] % ref.P, 0
                while ref.lift_x(x) is None:
                    x = (x + 1) % ref.P
            ev, od = ref.lift_x(x)
            return lambda: tuple(u.public_pair_for_x(G, x, op['even'])), (x, ev if op['even'] else od)
        INF = 0 * G

        def point(s):
            q = ref.mul(s)
            return INF if q is None else u.Point(G.curve(), q[0], q[1], G.order())
        if do == 'mul':
            s, b = op['s'][0], op['base']

            def f():
                return [pair(s * point(b)), pair(point(b) * s)]
            v = ref.mul(s * b % ref.N)
            return f, [v, v]

        def f():
            ps = [point(s) for s in op['s']]
            if op['tree'] and len(ps) > 2:
                left, right = ps[:len(ps) // 2], ps[len(ps) // 2:]
            else:
                left, right = ps, []
            out = []
            for part in (left, right):
                acc = INF
                for p in part:
                    acc = acc + p
                out.append(acc)
            return [pair(out[0] + out[1]), pair(out[1] + out[0]), [pair(p) for p in ps], [pair(p + p) for p in ps[:2]], [pair(p.double()) for p in ps[:2]]]
        tot = ref.mul(sum(op['s']) % ref.N)
        qs = [ref.mul(s) for s in op['s']]
        dbl = [ref.mul(2 * s) for s in op['s'][:2]]
        return f, [tot, tot, qs, dbl, dbl]

    def body(ti, t):
        def go(ctx):
            for oi, op in enumerate(t['ops']):
                n = nodes[t['node']]
                who = 'task%d op%d %s' % (ti, oi, op['do'])
                call, want = action(n, op)
                show = lambda: {k: v for k, v in op.items() if k not in ('ent', 'cut')}
                if op['cut']:
                    o = run_op(ctx, n, call, tuple(op['cut']), Entropy(op['ent']))
                    if o.fired:
                        sim.fault(o.fired)
                        sim.check(o.kind != 'ok' or o.value == want, 'wrong-after-fault', lambda: '%s key %x: %s, cut by %s at %s, returned %r instead of %r' %
                                  (who, keys[op['k'] % len(keys)], show(), o.fired, o.where, o.value, want))
                    else:
                        sim.check(o.kind == 'ok' and o.value == want, 'wrong-' + op['do'], lambda: '%s key %x: %s %r instead of %r' % (who, keys[op['k'] % len(keys)], show(), o, want))
                    if o.kind == 'crash' and len(plan['tasks']) == 1:
                        n = boot(t['node'])
                        call, want = action(n, op)
                        sim.probe('restart')
                o = run_op(ctx, n, call, None, Entropy(op['ent']))
                sim.log(who, o.kind, o.n)
                sim.check(o.kind == 'ok' and o.value == want, 'wrong-' + op['do'], lambda: '%s key %x: %s %r instead of %r' % (who, keys[op['k'] % len(keys)], show(), o, want))
                if op['do'] == 'sign':
                    sigs.append((op['k'] % len(keys), op['d'], o.value))
                    sim.state('sign', len('%x' % o.value[0]), o.value[1] > ref.N // 2, int(op['d'], 16) >= ref.N)
        return go

    if len(plan['tasks']) == 1:
        body(0, plan['tasks'][0])(sim.ctx)
    else:
        s = Sched(sim, plan['sched'])
        for ti, t in enumerate(plan['tasks']):
            s.add('task%d' % ti, body(ti, t))
        s.run()

    # no nonce serves two digests
    byr = {}
    for k, d, (r_, s_) in sigs:
        e = int(d, 16) % ref.N
        sim.check(byr.setdefault((k, r_), e) == e, 'nonce-reuse', lambda: 'key %x signed two digests with one nonce (r=%x), one of them %s' % (keys[k], r_, d))

    if not sigs:
        return
    V = sim.boot()
    accepted, sent = {}, {}

    def bend(m, k, d, r_, s_):
        e, b, v = int(d, 16), m['bent'], m['v']
        if b == 'rbit':
            r_ ^= 1 << v % 256
        elif b == 'sbit':
            s_ ^= 1 << v % 256
        elif b == 'dbit':
            d = '%064x' % (e ^ 1 << v % 256)
        elif b == 'swap':
            r_, s_ = s_, r_
        elif b in ('r+n', 's+n'):
            r_, s_ = (r_ + ref.N, s_) if b[0] == 'r' else (r_, s_ + ref.N)
        elif b in ('r0', 's0'):
            r_, s_ = (0, s_) if b[0] == 'r' else (r_, 0)
        elif b in ('rn', 'sn'):
            r_, s_ = (ref.N, s_) if b[0] == 'r' else (r_, ref.N)
        elif b in ('r-', 's-'):
            r_, s_ = (-r_, s_) if b[0] == 'r' else (r_, -s_)
        elif b == 'n-s':
            s_ = ref.N - s_
        elif b == 'n-r':
            r_ = ref.N - r_
        elif b == 's1':
            s_ = 1
        elif b == 'r-p':
            r_ = r_ + ref.P
        elif b == 'rrand':
            r_ = v % ref.N
        elif b == 'inf-verify':                # e*G + r*Q is the point at infinity
            r_ = -e * pow(keys[k], -1, ref.N) % ref.N
        elif b == 'inf-recover':               # s*R - e*G is
            t = v % (ref.N - 1) + 1
            r_, s_ = ref.mul(t)[0], e * pow(t, -1, ref.N) % ref.N
        return d, r_, s_, None

    def bigx(v):
        """a true signature whose point R has an x coordinate of at least the order (nobody knows the key)"""
        x = ref.N + 1 + v % [50, 1 << 60, ref.P - ref.N - 2000][v >> 200 & 1 or v % 3]
        while ref.lift_x(x) is None:
            x += 1
        u1, u2 = v * v % ref.N, (v * 3 + 1) % ref.N or 1
        R = (x, ref.lift_x(x)[v >> 90 & 1])
        pt = ref.mul(pow(u2, -1, ref.N), ref.add(R, ref.mul(-u1 % ref.N)))
        r_ = x - ref.N
        s_ = r_ * pow(u2, -1, ref.N) % ref.N
        return '%064x' % (u1 * s_ % ref.N), r_, s_, pt

    def deliver(m, tries):
        k, d, (r_, s_) = sigs[m['sig'] % len(sigs)]
        if tries < m['lost']:
            sim.fault('message-lost')
            sim.after(50000, deliver, m, tries + 1)
            return
        if m['bent'] != 'none':
            sim.fault('message-bent')
        d0, r0, s0 = d, r_, s_
        d, r_, s_, pt = bigx(m['v']) if m['bent'] == 'bigx' else bend(m, k, d, r_, s_)
        pt = pt or ref.pub(keys[k])
        if m['bent'] == 'otherkey':
            pt = ref.pub(keys[(k + 1) % len(keys)])
        elif m['bent'] == 'negkey':
            pt = (pt[0], ref.P - pt[1])
        db = bytes.fromhex(d)
        u = V.mods['bitforge.utils']
        G, e = u.generator_secp256k1, int(d, 16)
        want = ref.ecdsa_ok(pt, db, r_, s_)
        text = lambda: 'signature (%d, %d) over %s for key %r (%s)' % (r_, s_, d, pt, m['bent'])
        call = lambda: u.verify(G, pt, e, (r_, s_))
        if m['cut']:
            o = sim.op(V, call, tuple(m['cut']))
            sim.check(o.kind == 'raise' if o.fired and o.kind != 'ok' else o.kind == 'ok' and bool(o.value) == want, 'wrong-verdict', lambda: 'verify of %s %r, should be %r' % (text(), o, want))
        o = sim.op(V, call)
        sim.check(o.kind == 'ok' and bool(o.value) == want, 'wrong-verdict', lambda: 'verify of %s %r, should be %r' % (text(), o, want))
        if want and pt == ref.pub(keys[k]) and d == d0 and m['bent'] == 'none':
            accepted.setdefault((k, d), set()).add((r_, s_))
        if m['recover']:
            want = ref.recover(db, r_, s_)
            if m['bent'] in ('none', 'bigx'):
                assert pt in want
            o = sim.op(V, lambda: set(tuple(q) for q in u.possible_public_pairs_for_signature(G, e, (r_, s_))))
            sim.check(o.kind == 'ok' and o.value == want or not want and o.kind == 'raise' and isinstance(o.exc, ValueError), 'wrong-recovery',
                      lambda: 'recovery from %s %r, should be %r' % (text(), o, want))
            sim.state('recover', m['bent'], len(want))

    for m in plan['msgs']:
        k, d, _ = sigs[m['sig'] % len(sigs)]
        if m['bent'] == 'none':
            sent[k, d] = 1
        sim.after(m['delay'], deliver, m, 0)
        if m['dup']:
            sim.fault('message-repeated')
            sim.after(m['delay'] * 2, deliver, m, 0)
    sim.drain()
    for kd in sent:
        sim.check(len(accepted.get(kd, ())) == 1, 'not-exactly-one', lambda: 'key %x over %s: the verifier holds %d signatures' % (keys[kd[0]], kd[1], len(accepted.get(kd, ()))))
    for i, n in nodes.items():
        G = n.mods['bitforge.utils'].generator_secp256k1
        sim.check(pair(G) == ref.G and G.order() == ref.N, 'generator-changed', lambda: 'the generator is now %r' % (G,))
