"""C08: script checkers with a history: reused interpreters, checking threads, faults inside checks."""
from .. import build, core, ref
from ..core import BadPlan, Sched, Violation, run_op, short
from ..gens import I, ref_tx

TITLE = 'script-checking workers that reuse interpreters, run side by side and get interrupted'
REAL = ['bitforge.script.interpreter', 'bitforge.script.*', 'bitforge.encoding script numbers and hashes', 'bitforge.tools.Buffer']
STUB = ['thread scheduler', 'interrupts, allocation and hash failures']
RULE = ('a run = one seed: pairs of scripts with flags (random programs pinned to their exact final stacks, limit cases, script-hash '
        'spends, near copies) are checked in a history on reused interpreters, sequentially or in preempted threads sharing the script '
        'objects, with faults inside checks; each verdict is compared with an independent machine')
RUNS = {'quick': 6000, 'thorough': 90000}
ASSUME = ['operations that look at a signature or compare a lock time are only required to fail closed']

N = ref.num_enc
FLAG_BITS = [ref.F_P2SH, ref.F_STRICTENC, ref.F_DERSIG, ref.F_LOW_S, ref.F_NULLDUMMY, ref.F_PUSHONLY, ref.F_MINIMAL, ref.F_NOPS, ref.F_CLTV]


def mpush(b):
    """minimal push of bytes"""
    if not b:
        return (0, None)
    if len(b) == 1 and 1 <= b[0] <= 16:
        return (80 + b[0], None)
    if b == b'\x81':
        return (79, None)
    return (ref.push_op(len(b)), bytes(b))


def number(r):
    n = r.weighted([(r.randrange(-3, 18), 8), (r.randrange(-300, 300), 3), ((1 << 31) - 1, 1), (-(1 << 31) + 1, 1), (1 << 31, .4),
                    (127, .6), (128, 1), (-127, .5), (-128, 1), (255, 1), (256, 1), (-255, .5), (32767, .6), (32768, .8), (-32768, .8), (8388607, .4), (8388608, .5),
                    (-8388608, .5), (r.randrange(-(1 << 31) + 1, 1 << 31), 3), (16, 1), (17, 1), (-1, 1), (0, 2)])
    b = N(n)
    k = r.random()
    if k < .06 and len(b) < 5:                      # not minimal
        if b and b[-1] & 0x80:
            b = b[:-1] + bytes([b[-1] & 0x7f]) + b'\x80'
        else:
            b = b + r.pick([b'\0', b'\x80', b'\0\0'])
    return b


def element(r):
    k = r.randrange(10)
    if k < 5:
        return number(r)
    if k == 5:
        return r.pick([b'\x80', b'\0', b'\0\0', b'\0\x80', b'\x01\0', b'\x80\0', b'\x80\x80', b'\0\x01', b''])
    return bytes.fromhex(r.data(r.weighted([(1, 2), (2, 2), (4, 1), (5, 1), (20, 2), (32, 1), (33, 1), (75, .5), (76, .5), (255, .2), (256, .2), (519, .1), (520, .4), (521, .05)])))


def pushi(r, b):
    i = mpush(b)
    if r.chance(.07):
        n = len(b)
        op = r.pick([o for o in ([n] if 1 <= n <= 75 else []) + [76, 77, 78] if o < 76 or n < 1 << (8 * {76: 1, 77: 2, 78: 4}[o])])
        i = (op, b)
    return i


NEED = {105: 1, 107: 1, 108: 0, 109: 2, 110: 2, 111: 3, 112: 4, 113: 6, 114: 4, 115: 1, 116: 0, 117: 1, 118: 1, 119: 2, 120: 2, 121: 2, 122: 2,
        123: 3, 124: 2, 125: 2, 130: 1, 135: 2, 136: 2, 139: 1, 140: 1, 143: 1, 144: 1, 145: 1, 146: 1, 147: 2, 148: 2, 154: 2, 155: 2, 156: 2, 157: 2,
        158: 2, 159: 2, 160: 2, 161: 2, 162: 2, 163: 2, 164: 2, 165: 3, 166: 1, 167: 1, 168: 1, 169: 1, 170: 1}
NUMERIC = {139, 140, 143, 144, 145, 146, 147, 148, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165}
OPS = list(NEED)


def nosig(r):
    n = r.weighted([(0, 3), (r.randrange(1, 4), 4), (19, .3), (20, 1), (21, .3), (-1, .2), (r.randrange(4, 20), .5)])
    return ([pushi(r, element(r) if r.chance(.15) else b'')] if not r.chance(.05) else []) + [pushi(r, r.pick([b'', b'', b'', b'', b'\x80', b'\0', N(-1)]) if r.chance(.2) else b'')] + \
        [pushi(r, element(r)) for _ in range(max(0, n))] + [pushi(r, N(n)), (r.pick([174, 174, 175]), None)]


def block(r, depth, st):
    """a balanced piece of program"""
    k = r.random()
    if k < .2:
        return [pushi(r, element(r)) for _ in range(r.randrange(1, 4))]
    if k < .3 and depth < 4:
        cond = [pushi(r, element(r))] if r.chance(.8) else []
        out = cond + [(r.pick([99, 100]), None)]
        dead = r.chance(.3)
        for j in range(r.weighted([(1, 3), (2, 5), (3, 1), (4, .5)])):
            if j:
                out.append((103, None))
            for _ in range(r.randrange(0, 3)):
                out += block(r, depth + 1, st)
            if dead and r.chance(.5):
                out.append((r.pick([80, 98, 106, 137, 138, 186, 200, 255, 172, 174, 175, 177, 101, 126, 141]), None))
        return out + [(104, None)]
    if k < .34:
        return [(r.pick([97, 97, 171, 176, 177, 178, 179, 185]), None)]
    if k < .37:                                     # multisig that asks for no signature
        return nosig(r)
    if k < .375:
        return [(r.pick([80, 98, 101, 102, 106, 137, 138, 126, 131, 141, 149, 153, 186, 255, 172, 173, 174, 175, 177]), None)]
    op = r.pick(OPS)
    out = []
    if op in NUMERIC and r.chance(.7):
        xs = [number(r) for _ in range(NEED[op])]
        if len(xs) > 1 and r.chance(.35):
            v = ref.num_dec(xs[0], False, 9) or 0
            xs[1] = r.pick([xs[0], N(v + 1), N(v - 1), N(-v)])
        if op == 165 and r.chance(.5):
            v = ref.num_dec(xs[0], False, 9) or 0
            xs[1], xs[2] = N(v + r.pick([-1, 0, 1])), N(v + r.pick([-1, 0, 1, 2]))
        out += [pushi(r, x) for x in xs]
    elif op in (121, 122):
        n = len(st)
        out += [pushi(r, element(r)) for _ in range(r.randrange(0, 4))]
        n += len(out)
        out.append(pushi(r, N(r.weighted([(r.randrange(0, max(1, n)), 6), (n, 1), (n - 1, 2), (-1, .5), (n + 1, .3)]))))
    elif op in (135, 136):
        e = element(r)
        out += [pushi(r, e), pushi(r, e if r.chance(.8) else element(r))]
    elif op == 108:
        out += [pushi(r, element(r)), (107, None)]
    elif len(st) < NEED[op] or r.chance(.2):
        if not r.chance(.04):
            out += [pushi(r, element(r)) for _ in range(NEED[op])]
    return out + [(op, None)]


def program(r, flags, length, stack=()):
    """(instrs, final stack or None): mostly a program that runs through"""
    ins, res = [], (list(stack), [])
    fail_ok = r.chance(.25)
    for _ in range(length):
        b = block(r, 0, res[0])
        t = ref.Machine(flags).eval(ins + b, list(stack))
        if t is None:
            if fail_ok and r.chance(.15):
                return ins + b, None
            continue
        ins, res = ins + b, t
    return ins, res


def pin(r, res):
    """check every element left on both stacks"""
    S, A = res
    out = []
    for a in reversed(A):
        out += [(108, None), mpush(a), (136, None)]
    for e in reversed(S):
        out += [mpush(e), (r.pick([136, 136, 136]), None)]
    return out + r.pick([[(81, None)], [(116, None), (0, None), (135, None)], [(116, None), (145, None)]])


def limits(r):
    """pairs at Bitcoin's limits"""
    k = r.randrange(14)
    if k > 11:
        sig = [pushi(r, element(r)) for _ in range(r.randrange(0, 3))]
        pk = nosig(r) + r.pick([[], [], [(81, None)], [(145, None)], [(116, None), (82, None), (135, None)]])
        m = r.randrange(0, len(pk))
        return (sig + pk[:m], pk[m:]) if r.chance(.3) else (sig, pk)
    if k == 11:                     # keys of a multisig count as operations
        j = r.pick([0, 1, 5])
        c = 9
        body = ([(0, None), (0, None)] + [(81, None)] * 20 + [(1, b'\x14'), (175, None)]) * c       # 9 * 21 = 189
        n = r.pick([200, 201, 202]) - 189 - j
        return [(81, None)] * r.pick([1, 2]), body + [(97, None)] * max(0, n - 1) + [(0, None), (0, None)] + [(81, None)] * j + [mpush(N(j)), (174, None)]
    if k == 0:                      # operation count
        n = r.pick([200, 201, 202])
        op = r.pick([97, 97, 118, 116])
        body = [(81, None)] + [(op, None)] * n
        if r.chance(.3):
            body = [(0, None), (99, None)] + [(r.pick([97, 186, 172]), None)] * (n - 2) + [(104, None), (81, None)]
        if r.chance(.3):
            return [(97, None)] * r.pick([0, 100, 201]), body
        return [(81, None)], body
    if k == 1:                      # stack size, across scripts
        n = r.pick([999, 1000, 1001])
        a = r.randrange(1, n)
        return [(81, None)] * a, [(r.pick([0, 81]), None)] * (n - a - 1) + [(81, None)]
    if k == 2:                      # stack + altstack
        n, al = r.pick([999, 1000, 1001]), r.randrange(1, 190)
        return [(81, None)] * (n - 5), [(107, None)] * al + [(81, None)] * 4 + [(r.pick([118, 116, 97]), None)] + ([(117, None)] if r.chance(.5) else [])
    if k == 3:                      # exceeded for a moment only
        n = r.pick([997, 998, 999])
        return [(81, None)] * n, [(r.pick([110, 111]), None), (109, None), (r.pick([109, 117]), None), (81, None)]
    if k == 4:                      # element size, also not executed
        n = r.pick([519, 520, 521])
        p = (77, bytes.fromhex(r.data(n)))
        return ([p], [(130, None), mpush(N(n)), (136, None), (81, None)]) if r.chance(.5) else ([(0, None)], [(99, None), p, (104, None), (81, None)])
    if k == 5:                      # script size
        n = r.pick([9999, 10000, 10001])
        body = [(77, b'\x07' * 520)] * 19                    # 19 * 523 = 9937
        rest = n - 9937 - 2
        body += [(rest - 1, b'\x07' * (rest - 1)), (97, None), (81, None)]
        return ([(81, None)], body) if r.chance(.5) else (body, [(81, None)])
    if k == 6:                      # conditions do not reach over scripts
        return [(81, None), (99, None)] + ([(81, None)] if r.chance(.5) else []), [(104, None), (81, None)]
    if k == 7:                      # nor does the altstack
        return [(81, None), (82, None), (107, None)], r.pick([[(108, None)], [(116, None), (81, None), (135, None)], [(108, None), (117, None), (81, None)]])
    if k == 8:                      # number sizes
        v = r.pick([(1 << 31) - 1, 1 << 31, -(1 << 31) + 1, -(1 << 31), (1 << 32) - 1])
        return [mpush(N(v))], [(r.pick([139, 140, 143, 144, 146]), None), (r.pick([118, 97]), None), (117, None), (81, None)]
    if k == 9:                      # nested conditions
        d = r.pick([5, 50, 99, 100])
        vals = [r.pick([(81, None), (0, None)]) for _ in range(d)]
        return vals, [(r.pick([99, 100]), None)] * d + [(r.pick([82, 80]), None)] + [(104, None)] * d + [(81, None)]
    return [], r.pick([[], [(0, None)], [(81, None)], [(79, None)], [(1, b'\x80')], [(1, b'\0')], [(2, b'\0\x80')], [(2, b'\x80\0')], [(76, b'')], [(77, b'')], [(78, b'')]])


def spend(r):
    """a pair whose verdict hangs on signatures or a lock time, with the transaction it belongs to"""
    t = {'v': 1, 'lt': r.pick([0, 1, 100, 499999999, 500000000, 500000001, 2**32 - 1]), 'in': [], 'out': [{'amt': r.randrange(10**6), 'script': []}]}
    for _ in range(r.randrange(1, 3)):
        t['in'].append({'id': r.txid(), 'ix': r.randrange(4), 'script': [], 'seq': r.pick([0, 1, 2**32 - 1, 2**32 - 2])})
    nin = r.randrange(len(t['in']))
    rt = ref_tx(t)
    k = r.randrange(6)
    bad = r.chance(.6)
    ks = [r.key([]) for _ in range(3)]
    pub = [ref.sec(ref.pub(int(x['s'], 16)), True) for x in ks]

    def sig(i, code):
        ht = 1
        d = ref.sighash(rt, nin, code, ht)
        a, b = ref.det_sign(int(ks[i]['s'], 16), d)
        f = r.randrange(8) if bad else -1
        if f == 0:
            a = a ^ 1
        elif f == 1:
            return b''
        elif f == 2:
            return bytes.fromhex(r.hexb(r.pick([1, 9, 71])))
        elif f == 3:
            a, b = ref.det_sign(int(ks[(i + 1) % 3]['s'], 16), d)
        elif f == 4:
            a, b = ref.det_sign(int(ks[i]['s'], 16), ref.dsha(d))
        s = ref.der_enc(a, min(b, ref.N - b))
        return s + bytes([ht if f != 5 else r.pick([0, 4])]) if f != 6 else s[:-1] + b'\1'
    if k < 2:                                                   # key or key hash
        pk = [ref.push(pub[0]), (172, None)] if k else [(118, None), (169, None), ref.push(ref.hash160(pub[0])), (136, None), (172, None)]
        s = [mpush(sig(0, ref.script_bytes(pk)))] + ([] if k else [ref.push(pub[0])])
        if r.chance(.15):
            pk[-1:] = [(173, None), (81, None)]
    elif k < 4:                                                 # multisig, bare
        n = r.randrange(1, 4)
        m = r.randrange(1, n + 1)
        pk = [ref.num_op(m)] + [ref.push(pub[i]) for i in range(n)] + [ref.num_op(n), (174, None)]
        s = [mpush(r.pick([b'', b'', b'\1']))] + [mpush(sig(i, ref.script_bytes(pk))) for i in sorted(r.sample(range(n), m))]
        if r.chance(.2):
            s[1:] = s[:0:-1]
    else:                                                       # lock time
        want = r.pick([0, 1, 99, 100, 101, 499999999, 500000000, 500000001, 2**31, 2**32 - 1, 2**32, -1, t['lt'], t['lt'], t['lt'] + 1])
        pk = [mpush(N(want)), (177, None)] + r.pick([[], [(117, None), (81, None)]])
        s = [(81, None)]
        if r.chance(.1):
            del pk[0]
            s = []
    fl = 0
    for b in FLAG_BITS[:5] + [ref.F_CLTV, ref.F_CLTV]:
        if r.chance(.35):
            fl |= b
    return {'sig': S(s), 'pk': S(pk), 'fl': fl, 'tx': t, 'nin': nin}


def rules(p):
    """sigcheck and cltv of the transaction the pair belongs to"""
    if not p.get('tx'):
        return {}
    t, n = ref_tx(p['tx']), p['nin']

    def check(sig, key, code):
        rs, pk = ref.der_strict(sig[:-1]), ref.unsec(key)
        return rs is not None and pk is not None and ref.ecdsa_ok(pk[0], ref.sighash(t, n, code, sig[-1]), *rs)

    def cltv(v):
        return (v < 500000000) == (t['lt'] < 500000000) and v <= t['lt'] and t['in'][n]['seq'] != 2**32 - 1
    return {'sigcheck': check, 'cltv': cltv}


def gen_pair(r, pool):
    if pool and r.chance(.35):                                  # near copy
        p = {k: v for k, v in r.pick(pool).items()}
        f = r.randrange(6)
        if f == 0:
            p['fl'] ^= r.pick(FLAG_BITS)
        elif f == 1:
            p['fl'] = 0
        else:
            w = r.pick(['sig', 'pk'])
            s = [list(x) for x in p[w]]
            if s:
                j = r.randrange(len(s))
                if f == 2:
                    del s[j]
                elif f == 3:
                    s.insert(j, list(S([(r.pick(OPS + [0, 81, 97]), None)])[0]))
                elif s[j][1]:
                    b = bytearray.fromhex(s[j][1])
                    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                    s[j][1] = bytes(b).hex()
                elif s[j][0] > 78:
                    s[j][0] = r.pick(OPS + [0, 81, 82, 97])
                p[w] = s
        return p
    flags = 0
    for b in FLAG_BITS:
        if r.chance(.08 if b == ref.F_PUSHONLY else .22):
            flags |= b
    if r.chance(.3):
        flags = 0
    k = r.random()
    if k > .96:
        return spend(r)
    if k < .12:
        sig, pk = limits(r)
    elif k < .18:                                               # anything
        mk = lambda: [pushi(r, element(r)) if r.chance(.5) else (r.randrange(79, 190), None) for _ in range(r.randrange(0, 6))]
        sig, pk = mk(), mk()
    else:
        sig, st = program(r, flags, r.randrange(0, 4)) if not r.chance(.3) else ([pushi(r, element(r)) for _ in range(r.randrange(0, 4))], 0)
        if st == 0:
            st = ref.Machine(flags).eval(sig, [])
        if st is None:
            pk = [(81, None)]
        elif k < .4:                                            # script hash
            red, t = program(r, flags, r.randrange(1, 6), st[0])
            red += pin(r, t) if t is not None else []
            if r.chance(.1):
                red = red[:-1]
            if r.chance(.12):                                   # what counts is the last element
                red += [mpush(r.pick([b'', b'', b'\1', b'\x80', b'\2\3'])) for _ in range(r.randrange(1, 3))]
            b = ref.script_bytes(red)
            if r.chance(.06):
                b = b + r.pick([b'\x4c', b'\x05ab', b'\x4d\x01', b'\x4e'])
            if r.chance(.1) and b:
                b = b[:520]
            if not b:
                b = b'\x51'
            sig = sig + [mpush(b)]
            h = ref.hash160(b)
            if r.chance(.08):
                h = bytes([h[0] ^ 1]) + h[1:]
            pk = [(169, None), (20, h), (135, None)]
            if r.chance(.05):
                pk = r.pick([[(169, None), (76, h), (135, None)], pk + [(97, None)], [(169, None), (20, h), (136, None), (81, None)]])
            if r.chance(.7):
                flags |= ref.F_P2SH
        else:
            pk, t = program(r, flags, r.weighted([(r.randrange(1, 5), 3), (r.randrange(3, 14), 3)]), st[0])
            if t is not None and r.chance(.85):
                pk = pk + pin(r, t)
            if r.chance(.06):
                pk = pk + [mpush(r.pick([b'', b'', b'\1', b'\x80', b'\2\3'])) for _ in range(r.randrange(1, 3))]
    return {'sig': S(sig), 'pk': S(pk), 'fl': flags}


def S(ins): return [[o, None if d is None else d.hex()] for o, d in ins]


def gen_fault(r):
    if not r.chance(.25):
        return None
    return r.pick([['interrupt', round(r.random(), 4)], ['memory', round(r.random(), 4)], ['hash', round(r.random(), 3)], ['alarm', round(r.random(), 4)]])


def gen(r, tier):
    long = r.chance(.02)
    pairs = []
    for _ in range(r.randrange(2, 8) if not long else 14):
        pairs.append(gen_pair(r, pairs))
    threads = not long and r.chance(.35)
    faults = r.chance(.6)
    nt = r.randrange(2, 5) if threads else 1
    tasks = []
    for _ in range(nt):
        n = r.randrange(2, 6) if threads else (r.randrange(3, 16) if not long else 120)
        tasks.append([[r.randrange(len(pairs)), r.weighted([(0, 5), (1, 2), (2, 1)]), gen_fault(r) if faults else None] for _ in range(n)])
    cfg = {'gran': r.weighted([('line', 8), ('instr', 2)])}
    return {'cfg': cfg, 'pairs': pairs, 'tasks': tasks, 'sched': r.schedule(nt) if nt > 1 else [], 'how': r.randrange(4), 'share': r.chance(.7)}


def run(plan, sim):
    pairs = plan['pairs']
    if any(c[0] >= len(pairs) for t in plan['tasks'] for c in t):
        raise BadPlan('pair')
    n = sim.boot(worn=True)
    want, objs = [], []
    for p in pairs:
        sig, pk = I(p['sig']), I(p['pk'])
        if any(o < 76 and (d is None) != (o == 0) or o < 76 and d is not None and len(d) != o for o, d in sig + pk):
            raise BadPlan('push')
        a, b = ref.Machine(p['fl'], **rules(p)), ref.Machine(p['fl'], quirk=True, **rules(p))
        want.append((a.verify(sig, pk), b.verify(sig, pk), a.used_sig or b.used_sig, a.why))
        mk = lambda: sim.need(n, 'building scripts', lambda: (build.script(n, p['sig'], plan['how']), build.script(n, p['pk'], plan['how'])))
        objs.append([mk() for _ in range(1 if plan['share'] else len(plan['tasks']))])
    txs = [sim.need(n, 'building a transaction', lambda: build.tx(n, p['tx'])) if p.get('tx') else None for p in pairs]
    bytes_before = [(ref.script_bytes(I(p['sig'])), ref.script_bytes(I(p['pk']))) for p in pairs]
    # how long each check is (for placing faults), on a throwaway interpreter in a twin process
    lens = {}
    if any(c[2] for t in plan['tasks'] for c in t):
        twin = sim.boot()
        for k in sorted({c[0] for t in plan['tasks'] for c in t if c[2]}):
            sc = sim.need(twin, 'building scripts', lambda: (build.script(twin, pairs[k]['sig'], plan['how']), build.script(twin, pairs[k]['pk'], plan['how'])))
            o = sim.op(twin, lambda: twin.Interpreter().verify(sc[0], sc[1], flags=pairs[k]['fl']))
            lens[k] = (max(1, o.n), max(1, o.hash_n))

    known = []

    def judge(k, o, t):
        strict, quirk, used, why = want[k]
        p = pairs[k]
        desc = lambda: 'unlocking %s locking %s flags %#x' % (short(ref.script_bytes(I(p['sig'])).hex(), 400), short(ref.script_bytes(I(p['pk'])).hex(), 700), p['fl'])
        sim.checks += 1
        if o.fired:
            if len(plan['tasks']) > 1:
                sim.fault(o.fired)
            sim.probe('fault-in-check')
            if o.kind == 'ok' and o.value and not (strict or quirk):
                raise Violation('fault-accepts', 'a check cut short by %s at %s accepted %s' % (o.fired, o.where, desc()))
            if o.kind == 'ok' and o.value not in (True, False):
                raise Violation('verdict', 'verify() returned %r for %s' % (o.value, desc()))
            return
        if o.kind != 'ok':
            raise Violation('check-raised', 'verify() %r for %s' % (o, desc()))
        got = bool(o.value)
        if used:
            sim.probe('sig-ops-accept' if got else 'sig-ops-refuse')
            if got and not (strict or quirk):
                raise Violation('sig-accepts', 'accepted although the rules refuse (%s): %s' % (why, desc()))
            return
        sim.probe('accept' if strict else 'refuse:' + (why or 'false'))
        if got != strict:
            if got == quirk:
                known.append(desc())
                return
            raise Violation('verdict', 'verdict %r, the rules say %r (%s): %s' % (got, strict, why, desc()))
        sim.state(p['fl'], strict, why, len(p['pk']) // 4)

    def about(k): return (txs[k], pairs[k]['nin']) if txs[k] is not None else ()

    def fault_of(c):
        if not c[2]:
            return None
        ln = lens.get(c[0], (50, 1))
        kind, frac = c[2]
        if kind == 'hash':
            return ('hash', 1 + int(frac * ln[1]))
        return core.aim((kind, frac), ln[0])

    if len(plan['tasks']) == 1:
        its = {}
        for c in plan['tasks'][0]:
            if c[1] not in its:
                its[c[1]] = sim.need(n, 'Interpreter()', n.Interpreter)
            a, b = objs[c[0]][0]
            o = sim.op(n, lambda: its[c[1]].verify(a, b, *about(c[0]), flags=pairs[c[0]]['fl']), fault_of(c))
            judge(c[0], o, 0)
    else:
        sch = Sched(sim, plan['sched'])
        for ti, t in enumerate(plan['tasks']):
            def body(ctx, ti=ti, t=t):
                its = {}
                for c in t:
                    if c[1] not in its:
                        o = run_op(ctx, n, n.Interpreter)
                        if o.kind != 'ok':
                            raise Violation('check-raised', 'Interpreter() %r' % o)
                        its[c[1]] = o.value
                    a, b = objs[c[0]][ti % len(objs[c[0]])]
                    o = run_op(ctx, n, lambda: its[c[1]].verify(a, b, *about(c[0]), flags=pairs[c[0]]['fl']), fault_of(c))
                    judge(c[0], o, ti)
            sch.add('t%d' % ti, body)
        sch.run()
        sim.probe('threads')
    if known:
        sim.known.append('cast_to_bool')
        sim.stats['probe:known-quirk'] += len(known)
    for k, ob in enumerate(objs):
        for a, b in ob:
            got = sim.need(n, 'serialising', lambda: (a.to_bytes(), b.to_bytes()))
            sim.check(got == bytes_before[k], 'scripts-changed', lambda: 'checking changed the scripts: %s/%s became %s/%s' % tuple(short(x.hex()) for x in bytes_before[k] + got))
