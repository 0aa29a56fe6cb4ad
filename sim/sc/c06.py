"""C06: signing threads and verifiers against a controlled random source."""
from .. import build, core, ref
from ..core import Entropy, Sched, run_op, short
from ..gens import apply_damage
from .c05 import stream

TITLE = 'signers on several threads and machines, verifiers elsewhere, links that damage signatures'
REAL = ['bitforge.privkey sign/verify', 'python-ecdsa signing, DER coding and verification (point multiplication real in a share of runs)']
STUB = ['the operating system random source', 'thread scheduling', 'links', 'curve point multiplication in most runs']
RULE = ('a run = one seed: threads sign digests (edge values included) with random streams that start with hostile values or fail at a '
        'chosen draw; every signature is judged by an independent DER parser and ECDSA verifier and offered, intact and damaged, '
        'to verifying processes')
RUNS = {'quick': 3200, 'thorough': 50000}


def digest(r, pool):
    W = lambda v: (v % 2**256).to_bytes(32, 'big').hex()
    if pool and r.chance(.3):
        d = bytearray.fromhex(r.pick(pool))
        if r.chance(.8):
            d[r.randrange(32)] ^= 1 << r.randrange(8)
        return bytes(d).hex()
    return r.weighted([(r.hexb(32), 8), ('00' * 32, 1), ('ff' * 32, 1), (W(ref.N), 1), (W(ref.N + 1), .5), (W(ref.N - 1), .5), (W(1), .5), ('00' * 16 + r.hexb(16), 1),
                       (r.hexb(16) + '00' * 16, 1), ('00' + r.hexb(31), 1), (r.hexb(31) + '00', 1), ('80' + '00' * 31, .5)])


def gen(r, tier):
    keys, digests, tasks = [], [], []
    for _ in range(r.randrange(1, 4)):
        keys.append(r.key(keys))
    for _ in range(r.weighted([(1, 2), (2, 4), (3, 2)])):
        ops = []
        for _ in range(r.randrange(8, 16) if r.chance(.06) else r.randrange(1, 4)):
            d = digest(r, digests)
            digests.append(d)
            ops.append({'k': r.randrange(len(keys)), 'd': d, 'ent': stream(r), 'fail': r.weighted([(0, 8), (1, 1.5), (2, .5)]),
                        'exc': r.pick(['os', 'notimpl', 'blocking']), 'dmg': [r.damage(72) for _ in range(2)],
                        'cut': [r.pick(['interrupt', 'memory', 'alarm']), round(r.random(), 4)] if r.chance(.15) else None,
                        'others': [r.getrandbits(20) for _ in range(2)], 'sim': r.randrange(8)})
        tasks.append({'node': r.randrange(2), 'ops': ops})
    real = r.chance(.006)
    if real:
        tasks = tasks[:2]
        for t in tasks:
            t['ops'] = t['ops'][:1]
            t['ops'][0]['dmg'] = t['ops'][0]['dmg'][:1]
            t['ops'][0]['others'] = t['ops'][0]['others'][:1]
    return {'cfg': {'real_ec': real, 'gran': r.weighted([('line', 4), ('instr', 2)])}, 'keys': keys, 'tasks': tasks,
            'sched': r.schedule(len(tasks), mean=r.pick([1, 2, 4, 10]))}


def format_variants(rs, x):
    """near misses of strict DER"""
    W = lambda tag, b: bytes([tag, len(b) & 255]) + b
    M = lambda v: v.to_bytes((v.bit_length() + 8) // 8 or 1, 'big')
    r_, s_ = M(rs[0]), M(rs[1])
    k, y = x % 12, x // 12
    if k == 0:
        r_ = b'\0' + r_
    elif k == 1:
        s_ = b'\0' + s_
    elif k == 2:
        r_ = r_.lstrip(b'\0')
    elif k == 3:
        s_ = s_[::-1]
    elif k == 4:
        r_ = b''
    elif k == 5:
        s_ = b''
    elif k == 6:
        r_, s_ = bytes([y & 255]), bytes([y >> 8 & 255])                # the shortest
    elif k == 7:
        r_, s_ = b'\0' + b'\xff' * 32, b'\0' + b'\x80' + b'\xff' * 31         # the longest
    elif k == 8:
        r_ = r_[:1 + y % 32]
    body = W(2 if k != 9 else 3, r_) + W(2 if k != 10 else y & 255, s_)
    out = [W(0x30 if k != 11 else 0x31, body)]
    out.append(out[0] + bytes([y & 255]))
    out.append(out[0][:-1])
    b = bytearray(out[0])
    b[(1, 3, 5 + len(r_))[y % 3] % len(b)] = y >> 2 & 255
    out.append(bytes(b))
    return out[:1 + y % 4]


def run(plan, sim):
    nodes, keys = {}, plan['keys']
    shared = {}
    for t in plan['tasks']:
        if t['node'] not in nodes:
            n = nodes[t['node']] = sim.boot(worn=True)
            for i, k in enumerate(keys):
                shared[t['node'], i] = sim.need(n, 'loading a key', lambda: build.priv(n, k))
    sigs = []

    def judge(op, o, who):
        what = lambda: '%s: sign(%s) with key %s %r' % (who, op['d'], keys[op['k']]['s'], o)
        if o.fired == 'entropy':
            sim.fault('entropy-' + op['exc'])
            sim.check(o.kind == 'raise', 'signature-without-entropy', what)
            return None
        if o.fired:
            sim.fault(o.fired)
            if o.kind == 'raise':
                return None
        sim.check(o.kind == 'ok', 'sign-failed', what)
        sig = o.value
        sim.check(type(sig) is bytes, 'sig-type', what)
        rs = ref.der_strict(sig)
        sim.check(rs is not None, 'not-strict-der', lambda: what() + ' = ' + sig.hex())
        sim.check(rs[1] <= ref.N // 2, 'high-s', lambda: what() + ' = ' + sig.hex())
        sim.check(ref.ecdsa_ok(ref.pub(int(keys[op['k']]['s'], 16)), bytes.fromhex(op['d']), *rs), 'invalid-signature', lambda: what() + ' = ' + sig.hex())
        return sig, rs, o.draws

    def task(ti, t):
        def body(ctx):
            n = nodes[t['node']]
            for oi, op in enumerate(t['ops']):
                who = 'task%d op%d' % (ti, oi)
                key, d = shared[t['node'], op['k']], bytes.fromhex(op['d'])
                ctx.ent_exc = op['exc']
                o = run_op(ctx, n, lambda: key.sign(d), ('entropy', op['fail']) if op['fail'] else core.aim(op['cut'], 12) if op['cut'] else None, Entropy(op['ent']))
                sim.log(who, o.kind, o.ent_n, o.n)
                j = judge(op, o, who)
                if j is None:
                    sim.probe('retry-after-failure')
                    o = run_op(ctx, n, lambda: key.sign(d), None, Entropy(op['ent']))
                    j = judge(op, o, who + ' retry')
                sigs.append((who, op, j[0], j[1], j[2]))
                v = run_op(ctx, n, lambda: key.verify(j[0], d))
                sim.check(v.kind == 'ok' and bool(v.value) is True, 'own-verify-refuses', lambda: '%s: verify of %s over %s %r' % (who, j[0].hex(), op['d'], v))
        return body

    if len(plan['tasks']) == 1:
        task(0, plan['tasks'][0])(sim.ctx)
    else:
        s = Sched(sim, plan['sched'])
        for ti, t in enumerate(plan['tasks']):
            s.add('task%d' % ti, task(ti, t))
        s.run()

    # no nonce is used for two digests unless the source repeated itself
    byr = {}
    for who, op, sig, (r_, s_), draws in sigs:
        sec, e = int(keys[op['k']]['s'], 16), int(op['d'], 16)
        k = pow(s_, -1, ref.N) * (e + r_ * sec) % ref.N
        sim.checks += 1
        if not op['ent']['pre']:
            sim.check(min(k, ref.N - k) >> 128, 'nonce-space', lambda: '%s: the nonce of a signature made from random bytes is only %x' % (who, min(k, ref.N - k)))
        elif not min(k, ref.N - k) >> 64:
            continue                    # a hostile stream asked for it (and k and -k share r)
        for who2, op2, sig2, draws2 in byr.get(r_, []):
            if op2['d'] != op['d'] and not set(draws) & set(draws2):
                sim.check(False, 'nonce-reuse', '%s and %s signed %s and %s with one nonce (r=%x)' % (who2, who, op2['d'], op['d'], r_))
        byr.setdefault(r_, []).append((who, op, sig, draws))

    # other machines verify; links damage what they carry
    V = sim.boot()
    vk = {}
    fmt = V.mods['bitforge.signature'].validate_signature

    def well_formed(sig, ht, text):
        b = sig + bytes([ht])
        want = ref.der_strict(sig) is not None
        o = sim.op(V, lambda: fmt(b))
        sim.probe('format-%s' % want)
        sim.check(o.kind == 'ok' and bool(o.value) is want, 'signature-format', lambda: 'validate_signature(%s), %s, %r, should be %r' % (b.hex(), text, o, want))
    for i, k in enumerate(keys):
        vk[i] = sim.need(V, 'loading a key', lambda: build.priv(V, k))
    for si, (who, op, sig, rs, draws) in enumerate(sigs):
        d, key = bytes.fromhex(op['d']), vk[op['k']]
        e = int(op['d'], 16)
        o = sim.op(V, lambda: key.verify(sig, d))
        sim.check(o.kind == 'ok' and bool(o.value), 'verify-refuses', lambda: '%s: %s over %s %r' % (who, sig.hex(), op['d'], o))

        def refuse(cls, k, s, dg, text):
            o = sim.op(V, lambda: k.verify(s, dg))
            sim.check(o.kind == 'raise' and isinstance(o.exc, Exception) or o.kind == 'ok' and not o.value, cls,
                      lambda: '%s: %s of signature %s over %s %r' % (who, text, s.hex(), dg.hex(), o))
        well_formed(sig, [1, 2, 3, 0x81, 1, 1, 0x83, 0][op['sim']], 'a fresh signature')
        for v in format_variants(rs, op['sim'] + 8 * (op['others'][0] if op['others'] else 0)):
            well_formed(v, 1, 'a variant')
        for dm in op['dmg']:
            bad = apply_damage(sig, dm)
            if bad == sig:
                continue
            sim.fault('signature-damage')
            q = ref.der_strict(bad)
            if q and q[0] == rs[0] and q[1] % ref.N in (rs[1], ref.N - rs[1]):
                continue
            refuse('accepts-damaged', key, bad, d, 'damaged copy')
            well_formed(bad, 1, 'damaged')
        for f in op['others']:
            d2 = bytearray(d)
            d2[f % 32] ^= 1 << (f >> 5) % 8
            if (int.from_bytes(d2, 'big') - e) % ref.N:
                refuse('accepts-other-digest', key, sig, bytes(d2), 'another digest')
        w2, op2, sig2, rs2, dr2 = sigs[(si * 3 + 1) % len(sigs)]
        if (int(op2['d'], 16) - e) % ref.N:
            refuse('accepts-other-digest', key, sig, bytes.fromhex(op2['d']), 'a digest signed elsewhere')
        for i, k2 in enumerate(keys):
            if int(k2['s'], 16) != int(keys[op['k']]['s'], 16):
                # a different key accepts only if the mathematics says so (e = 0 with negated keys never does)
                if not ref.ecdsa_ok(ref.pub(int(k2['s'], 16)), d, *rs):
                    refuse('accepts-other-key', vk[i], sig, d, 'another key')
        # crafted: zero or oversized components
        r_, s_ = rs
        crafted = [(0, s_), (r_, 0), (r_ + ref.N, s_), (r_, s_ + ref.N), (s_, r_), (ref.N - r_, s_), (r_, ref.N), (ref.N, s_)][op['sim']]
        if crafted != rs and not ref.ecdsa_ok(ref.pub(int(keys[op['k']]['s'], 16)), d, *crafted):
            sim.fault('crafted-signature')
            refuse('accepts-crafted', key, ref.der_enc(*crafted), d, 'crafted variant')
        sim.state(len(sig), len(draws), d[0] == 0, e >= ref.N)
