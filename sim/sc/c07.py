"""C07: signing ceremonies between machines over an unreliable network."""
from .. import build, core, ref
from ..core import BadPlan, Entropy, Violation, short
from ..gens import I, ref_tx

TITLE = 'a coordinator and co-signing machines that lose, repeat and reorder messages, crash and restart'
REAL = ['bitforge.transaction.*', 'bitforge.script.*', 'bitforge.privkey signing', 'bitforge.address', 'python-ecdsa signing']
STUB = ['network', 'process crashes and restarts', 'random source', 'the ledger that judges spends (reference script machine)',
        'curve point multiplication in most runs']
RULE = ('a run = one seed: a transaction with address, script-hash and multisig inputs is signed by several machines under message loss, '
        'duplication, reordering, crashes and interrupts inside signing, restarts of coordinator and signers; the combined wire bytes '
        'are judged by an independent script machine')
RUNS = {'quick': 2600, 'thorough': 40000}
ASSUME = ['signature types other than ALL are a known finding', 'redeem scripts of at most 520 bytes, as the network requires']


def gen(r, tier):
    keys, ins = [], []
    pad = r.chance(.02)
    n = r.weighted([(1, 3), (2, 4), (3, 2), (4, 1), (6, .5)])
    for _ in range(n):
        kind = r.weighted([('addr', 4), ('multi', 5), ('pk', 1), ('two', 1), ('drop', 1), ('smulti', 1)])
        nk = {'addr': 1, 'pk': 1, 'two': 2, 'drop': 1}.get(kind) or r.weighted([(1, 1), (2, 4), (3, 4), (4, 1), (5, 1), (7, .5), (15, .3)])
        ki = []
        for j in range(nk):
            if keys and r.chance(.3):
                i = r.randrange(len(keys))
                if i in ki and not r.chance(.2):
                    i = None
            else:
                i = None
            if i is None:
                k = r.key(keys)
                if nk > 7:
                    k['c'] = True
                keys.append(k)
                i = len(keys) - 1
            ki.append(i)
        if nk > 7:
            ki = [i if keys[i]['c'] else ki[0] for i in ki]
            ki = [i for i in ki if keys[i]['c']] or [len(keys) - 1]
        nk = len(ki)
        m = r.randrange(1, nk + 1) if kind in ('multi', 'smulti') else nk
        if kind == 'multi' and r.chance(.5):
            m = min(m, 3)
        signers = sorted(r.sample(range(nk), m))
        order = list(signers)
        r.shuffle(order)
        inp = {'kind': kind, 'keys': ki, 'm': m, 'signers': order, 'id': r.txid(), 'ix': r.u32(), 'seq': r.u32(),
               'mode': 'split' if kind in ('multi', 'smulti') and r.chance(.6) else 'direct', 'data': r.hexb(r.pick([2, 20, 75, 76, 300]))}
        if ins and r.chance(.3):
            inp['id'] = ins[-1]['id']
        ins.append(inp)
    if pad:
        for _ in range(r.pick([250, 252, 253, 255]) - 0):
            ins.append({'kind': 'pad', 'keys': [], 'm': 0, 'signers': [], 'id': r.txid(), 'ix': r.u32(), 'seq': r.u32(), 'mode': 'direct',
                        'script': [[1, '51']] if r.chance(.2) else []})
        r.shuffle(ins)
    outs = [r.output() for _ in range(r.count(False))]
    fates = []
    for _ in range(r.pick([0, 4, 10, 25])):
        fates.append(r.weighted([(['ok', r.log_int(1000, 2000000)], 6), (['lost', 0], 2), (['dup', r.log_int(1000, 3000000)], 2)]))
    faults = [r.pick([None, ['crash', round(r.random(), 4)], ['interrupt', round(r.random(), 4)], ['memory', round(r.random(), 4)], ['hash', round(r.random(), 3)], ['entropy', round(r.random(), 3)], None])
              for _ in range(r.pick([0, 0, 2, 5, 9]))]
    probes = []
    for _ in range(r.randrange(1, 6)):
        probes.append({'in': r.randrange(len(ins)), 'mut': r.pick(['exact', 'exact', 'perm', 'fewer', 'more', 'stranger', 'dup', 'compress', 'net', 'none', 'negated']), 'seed': r.getrandbits(30)})
    return {'cfg': {'real_ec': not pad and n <= 2 and r.chance(.01)}, 'keys': keys, 'ins': ins, 'outs': outs, 'lt': r.u32(), 'v': r.weighted([(1, 3), (2, 2), (r.u32(), 1)]),
            'machines': r.randrange(1, 5), 'chain': r.chance(.5), 'fates': fates, 'faults': faults, 'probes': probes,
            'drafts': [{'at': r.randrange(0, 3000000), 'm': r.randrange(4), 'in': r.randrange(len(ins)), 'mut': r.pick(['lt', 'v', 'seq', 'oseq', 'amt', 'script', 'order', 'drop', 'add', 'id', 'ix', 'same']),
                        'x': r.u32(), 'st': r.pick([2, 3, 0x81, 0x82, 0x83]) if r.chance(.12) else 1,
                        'more': [[r.randrange(len(ins)), r.pick([2, 3, 0x81, 0x82, 0x83]) if r.chance(.3) else 1] for _ in range(r.pick([0, 0, 1, 2]))]} for _ in range(r.pick([0, 0, 1, 2, 4]))],
            'coord': [r.randrange(0, 4000000) for _ in range(r.pick([0, 0, 1, 2]))], 'ent': r.getrandbits(40)}


def run(plan, sim):
    K, ins = plan['keys'], plan['ins']
    if not ins or not plan['outs'] or any(max(i['keys'], default=-1) >= len(K) for i in ins):
        raise BadPlan('ceremony')
    pubs = [ref.sec(ref.pub(int(k['s'], 16)), k['c']) for k in K]

    def redeem(i):
        p = [pubs[x] for x in i['keys']]
        if i['kind'] in ('multi', 'smulti'):
            return ref.multisig(i['m'], p)
        if i['kind'] == 'pk':
            return ref.script_bytes([ref.push(p[0]), (172, None)])
        if i['kind'] == 'two':
            return ref.script_bytes([ref.push(p[0]), (173, None), ref.push(p[1]), (172, None)])
        return ref.script_bytes([ref.push(bytes.fromhex(i['data'])), (117, None), ref.push(p[0]), (172, None)])   # data DROP key CHECKSIG

    def locking(i):
        if i['kind'] == 'addr':
            return ref.p2pkh(ref.hash160(pubs[i['keys'][0]]))
        return ref.p2sh(ref.hash160(redeem(i)))

    for i in ins:
        if i['kind'] != 'pad' and i['kind'] != 'addr' and len(redeem(i)) > 520:
            raise BadPlan('redeem script too large')
        if sorted(set(i['signers'])) != sorted(i['signers']) or len(i['signers']) != i['m'] or any(s >= len(i['keys']) for s in i['signers']):
            raise BadPlan('signers')

    def typed(n, i):
        """the unsigned, typed input, as a wallet builds it"""
        if i['kind'] == 'pad':
            return n.Input(i['id'], i['ix'], build.script(n, i['script']), i['seq'])
        if i['kind'] == 'addr':
            return n.AddressInput.create(i['id'], i['ix'], build.pubk(n, K[i['keys'][0]]).to_address(), i['seq'])
        if i['kind'] == 'multi':
            return n.MultisigInput.create(i['id'], i['ix'], [build.pubk(n, K[x]) for x in i['keys']], i['m'], i['seq'])
        return n.ScriptInput.create(i['id'], i['ix'], n.Script.from_bytes(redeem(i)), i['seq'])

    def whole(n):
        return n.Transaction([typed(n, i) for i in ins], [build.outp(n, o) for o in plan['outs']], plan['lt'], plan['v'])

    want_rest = (plan['v'], plan['lt'], [ref_tx({'v': 0, 'lt': 0, 'in': [], 'out': [o]})['out'][0] for o in plan['outs']],
                 [(i['id'], i['ix'], i['seq']) for i in ins])

    def rest(t):
        return (t['v'], t['lt'], t['out'], [(i['id'], i['ix'], i['seq']) for i in t['in']])

    # ---- tasks of the ceremony
    tasks = []
    for j, i in enumerate(ins):
        if i['kind'] == 'pad':
            continue
        if i['mode'] == 'split':
            for s in i['signers']:
                tasks.append((j, [s]))
        elif i['kind'] == 'two':
            tasks.append((j, [1, 0]))              # signatures are consumed from the top of the stack
        elif i['kind'] == 'smulti':
            tasks.append((j, sorted(i['signers'])))      # a plain script input signs in the order given
        else:
            tasks.append((j, list(i['signers'])))
    machines = [sim.boot(worn=True) for _ in range(max(1, plan['machines']))]
    box = {'c': sim.boot(worn=True), 'parts': {}, 'fate': 0, 'fault': 0, 'ent': 0, 'done': False, 'round': 0}

    # the outputs being spent, built by bitforge itself, carry the locking script the ledger will apply
    def funding():
        n = machines[0]
        out = []
        for i in ins:
            if i['kind'] == 'addr':
                o = n.AddressOutput.create(1000, build.pubk(n, K[i['keys'][0]]).to_address())
            elif i['kind'] == 'multi':
                o = n.MultisigOutput.create(1000, [build.pubk(n, K[x]) for x in i['keys']], i['m'])
            elif i['kind'] == 'pad':
                continue
            else:
                o = n.ScriptOutput.create(1000, n.Script.from_bytes(redeem(i)))
            out.append((o.script.to_bytes(), locking(i), i['kind']))
        return out
    for got, exp, kind in sim.need(machines[0], 'building funding outputs', funding):
        sim.check(got == exp, 'locking-script', lambda: '%s output locks with %s, should be %s' % (kind, got.hex(), exp.hex()))

    def send(f, *a):
        k = box['fate']
        box['fate'] += 1
        fate = plan['fates'][k] if k < len(plan['fates']) else ['ok', 10000]
        if fate[0] == 'lost':
            sim.fault('message-lost')
            return
        sim.after(fate[1], f, *a)
        if fate[0] == 'dup':
            sim.fault('message-duplicated')
            sim.after(fate[1] // 2 + 1, f, *a)

    def sign_on(mi, j, signers, wire):
        """machine mi signs input j; returns wire bytes or None"""
        k = box['fault']
        box['fault'] += 1
        fault = plan['faults'][k] if k < len(plan['faults']) else None
        n = machines[mi]
        i = ins[j]
        box['ent'] += 1
        ent = Entropy({'pre': [], 'seed': '%d/%d' % (plan['ent'], box['ent'])})
        privs = sim.need(n, 'loading keys', lambda: [n.PrivateKey.from_wif(ref.wif(int(K[i['keys'][s]]['s'], 16), K[i['keys'][s]]['n'], K[i['keys'][s]]['c'])) for s in signers])

        def prepare():
            if wire is None:
                return whole(n)
            t = n.Transaction.from_bytes(wire)
            return t.replace_inputs([typed(n, i) if x == j else y for x, y in enumerate(t.inputs)])
        t = sim.need(n, 'preparing the transaction', prepare)
        before = build.tx_of(t)
        keys_before = [build.key_of(p) for p in privs]
        given = list(privs)
        op = lambda: t.sign(privs, j)
        if fault:
            o = sim.op(n, op, core.aim(fault, {'hash': 5, 'entropy': len(privs)}.get(fault[0], 900)), ent)
        else:
            o = sim.op(n, op, None, ent)
        if o.kind == 'crash':
            machines[mi] = sim.boot()
            sim.fault('signer-restart')
            return None
        if o.fired:
            if o.kind == 'raise':
                sim.check(build.tx_of(t) == before, 'original-changed', 'a cut-short signing changed the transaction')
                return None
        sim.check(o.kind == 'ok', 'sign-failed', lambda: 'signing input %d (%s) %r' % (j, i['kind'], o))
        signed = o.value
        sim.check(build.tx_of(t) == before, 'original-changed', 'signing changed the transaction object it was called on')
        sim.check(privs == given and [build.key_of(p) for p in privs] == keys_before, 'keys-changed', 'signing changed the keys it was given')
        pic = build.tx_of(signed)
        sim.check(rest(pic) == rest(before), 'rest-changed', lambda: 'signing input %d changed more than its script: %s -> %s' % (j, short(repr(rest(before)), 300), short(repr(rest(pic)), 300)))
        for x in range(len(ins)):
            if x != j:
                sim.check(pic['in'][x]['script'] == before['in'][x]['script'], 'rest-changed', lambda: 'signing input %d changed the script of input %d' % (j, x))
        return sim.need(n, 'serialising the signed transaction', signed.to_bytes)

    def on_request(ti, j, signers, wire):
        if box['done']:
            return
        mi = (ti * 5 + j) % len(machines)
        b = sign_on(mi, j, signers, wire)
        if b is not None:
            send(on_reply, ti, j, signers, b)

    def on_reply(ti, j, signers, b):
        if box['done'] or ti in box['parts']:
            sim.probe('late-or-repeated-reply')
            return
        n = box['c']
        s = sim.need(n, 'parsing a signed transaction', lambda: n.Transaction.from_bytes(b).inputs[j].script.to_bytes())
        box['parts'][ti] = s
        sim.log('part', ti, len(s))
        if len(box['parts']) == len(tasks):
            finish()

    def current(n):
        """transaction with the complete inputs filled in"""
        scripts = {}
        for j, i in enumerate(ins):
            mine = [(ti, t) for ti, t in enumerate(tasks) if t[0] == j]
            if not mine or any(ti not in box['parts'] for ti, _ in mine):
                continue
            if i['mode'] == 'split':
                sigs = {}
                for ti, t in mine:
                    s = n.Script.from_bytes(box['parts'][ti])
                    sigs[t[1][0]] = s.get_signatures()[0]
                scripts[j] = n.PayToScriptIn.create(n.Script.from_bytes(redeem(i)), [sigs[x] for x in sorted(sigs)])
            else:
                scripts[j] = n.Script.from_bytes(box['parts'][mine[0][0]])
        t = whole(n)
        return t.replace_inputs([x.replace_script(scripts[j]) if j in scripts else x for j, x in enumerate(t.inputs)])

    def tick():
        if box['done']:
            return
        box['round'] += 1
        if box['round'] > 60:
            raise Violation('no-progress', 'ceremony not complete after %d rounds; missing parts %r' % (box['round'], [ti for ti in range(len(tasks)) if ti not in box['parts']]))
        n = box['c']
        wire = sim.need(n, 'building the transaction', lambda: current(n).to_bytes()) if plan['chain'] else None
        for ti, (j, signers) in enumerate(tasks):
            if ti not in box['parts']:
                send(on_request, ti, j, signers, wire)
        sim.after(1000000, tick)

    def draft(d):
        """a machine signs another version of the same payment (an earlier proposal, a replacement)"""
        j, x, st = d['in'] % len(ins), d['x'], d.get('st', 1)
        if ins[j]['kind'] == 'pad':
            return
        n = machines[d['m'] % len(machines)]
        ins2, outs2, lt, v = [dict(i) for i in ins], [dict(o) for o in plan['outs']], plan['lt'], plan['v']
        mut, k = d['mut'], (j + 1 + x % max(1, len(ins) - 1)) % len(ins)
        if mut == 'lt':
            lt = x
        elif mut == 'v':
            v = x
        elif mut == 'seq':
            ins2[j]['seq'] = x
        elif mut == 'oseq':
            ins2[k]['seq'] = x
        elif mut == 'amt':
            outs2[x % len(outs2)]['amt'] = x
        elif mut == 'script':
            outs2[x % len(outs2)]['script'] = [[2, '%04x' % (x & 0xffff)]]
        elif mut == 'order':
            outs2.reverse()
        elif mut == 'drop' and len(outs2) > 1:
            del outs2[x % len(outs2)]
        elif mut == 'add':
            outs2.append({'amt': x, 'script': []})
        elif mut == 'id':
            ins2[j]['id'] = '%064x' % x
        elif mut == 'ix':
            ins2[j]['ix'] = x
        t = sim.need(n, 'building another version', lambda: n.Transaction([typed(n, y) for y in ins2], [build.outp(n, o) for o in outs2], lt, v))
        said = (v, lt, [ref_tx({'v': 0, 'lt': 0, 'in': [], 'out': [o]})['out'][0] for o in outs2], [(y['id'], y['ix'], y['seq']) for y in ins2])

        # one transaction object signed several times: other inputs, other signature types, always from the same unsigned original
        for j, st in [[j, st]] + [[a % len(ins2), b] for a, b in d.get('more', [])] + ([[j, 1]] if d.get('more') else []):
            i = ins2[j]
            if i['kind'] == 'pad':
                continue
            signers = [1, 0] if i['kind'] == 'two' else sorted(i['signers']) if i['kind'] == 'smulti' else list(i['signers'])

            def f():
                return t.sign([build.priv(n, K[i['keys'][s]]) for s in signers], j, *([st] if st != 1 else [])).to_bytes()
            box['ent'] += 1
            o = sim.op(n, f, None, Entropy({'pre': [], 'seed': '%d/%d' % (plan['ent'], box['ent'])}))
            sim.check(o.kind == 'ok', 'sign-failed', lambda: 'signing another version (%s) %r' % (mut, o))
            p = ref.read_tx(ref.Rd(o.value))
            sim.check(rest(p) == said, 'rest-changed', lambda: 'another version (%s) says %s' % (mut, short(repr(rest(p)), 300)))
            ok = ref.spend_ok(p, j, locking(i), hasher=ref.sighash)
            if not ok and st != 1 and ref.spend_ok(p, j, locking(i), hasher=ref.sighash_flat):
                sim.known.append('sigtype')
                continue
            sim.check(ok, 'spend-refused', lambda: 'input %d (%s) of another version (%s, signature type %#x) is refused by the ledger' % (j, i['kind'], mut, st))
            sim.probe('version-signed-' + mut)

    def coord_crash():
        if not box['done']:
            box['c'] = sim.boot()              # the collected parts are on its disk
            sim.fault('coordinator-restart')

    def finish():
        n = box['c']
        t = sim.need(n, 'combining the parts', lambda: current(n))
        b, i = sim.need(n, 'serialising', lambda: (t.to_bytes(), t.get_id()))
        box['done'] = True
        sim.log('final', len(b))
        rd = ref.Rd(b)
        p = ref.read_tx(rd)
        sim.check(rd.i == len(b) and rest(p) == want_rest, 'rest-changed', lambda: 'combined transaction says %s' % short(repr(rest(p)), 400))
        sim.check(i == ref.txid(b), 'tx-id', lambda: 'id %s, ledger says %s' % (i, ref.txid(b)))
        for j, x in enumerate(ins):
            if x['kind'] == 'pad':
                continue
            why = []
            ok = ref.spend_ok(p, j, locking(x), why=why)
            sim.check(ok, 'spend-refused', lambda: 'input %d (%s %d-of-%d, %s) is refused by the ledger: %s; script %s locking %s'
                      % (j, x['kind'], x['m'], len(x['keys']), x['mode'], why, short(p['in'][j]['script'].hex(), 300), locking(x).hex()))
            sim.state(x['kind'], x['m'], len(x['keys']), x['mode'], plan['chain'], box['round'])
        sim.probe('ceremony-complete')

    for c in plan['coord']:
        sim.after(c, coord_crash)
    for d in plan.get('drafts', []):
        sim.after(d['at'], draft, d)
    sim.after(0, tick)
    sim.drain()
    sim.check(box['done'], 'no-progress', 'ceremony never completed')
    after(plan, sim, machines[0], ins, K, pubs, typed, whole, locking)


def after(plan, sim, n, ins, K, pubs, typed, whole, locking):
    """what inputs say about who can sign them, and what signing then yields"""
    from ..gens import R
    for pi, pr in enumerate(plan['probes']):
        if pr['in'] >= len(ins) or ins[pr['in']]['kind'] not in ('addr', 'multi'):
            continue
        j, i = pr['in'], ins[pr['in']]
        r = R(pr['seed'])
        ks = [dict(K[i['keys'][s]]) for s in i['signers']]
        mut = pr['mut']
        if mut == 'perm':
            r.shuffle(ks)
        elif mut == 'fewer':
            ks = ks[:-1]
        elif mut == 'more':
            left = [x for x in range(len(i['keys'])) if x not in i['signers']]
            ks.append(dict(K[i['keys'][left[0]]]) if left else {'s': '%064x' % r.secret(), 'n': 'livenet', 'c': True})
        elif mut == 'stranger':
            ks[r.randrange(len(ks))] = {'s': '%064x' % r.secret(), 'n': 'livenet', 'c': True}
        elif mut == 'dup':
            ks[-1] = dict(ks[0])
            if len(ks) == 1:
                ks.append(dict(ks[0]))
        elif mut == 'compress':
            x = r.randrange(len(ks))
            ks[x]['c'] = not ks[x]['c']
        elif mut == 'net':
            x = r.randrange(len(ks))
            ks[x]['n'] = 'testnet' if ks[x]['n'] == 'livenet' else 'livenet'
        elif mut == 'none':
            ks = []
        elif mut == 'negated':
            x = r.randrange(len(ks))
            ks[x]['s'] = '%064x' % (ref.N - int(ks[x]['s'], 16))
        mine = [ref.sec(ref.pub(int(k['s'], 16)), k['c']) for k in ks]
        if i['kind'] == 'addr':
            want = len(mine) == 1 and ref.hash160(mine[0]) == ref.hash160(pubs[i['keys'][0]])
        else:
            pool = [pubs[x] for x in i['keys']]
            want = len(mine) == i['m']
            for p in mine:
                if p in pool:
                    pool.remove(p)
                else:
                    want = False
        t = sim.need(n, 'building the transaction', lambda: whole(n))
        privs = sim.need(n, 'loading keys', lambda: [build.priv(n, k) for k in ks])
        got = sim.op(n, lambda: t.inputs[j].can_sign(privs))
        sim.probe('can-sign-%s' % want)
        sim.check(got.kind == 'ok' and bool(got.value) == want, 'can-sign', lambda: 'can_sign(%s) of a %s %d-of-%d input %r, should be %r' % (mut, i['kind'], i['m'], len(i['keys']), got, want))
        ent = Entropy({'pre': [], 'seed': 'probe%d/%d' % (pi, plan['ent'])})
        o = sim.op(n, lambda: t.sign(privs, j).to_bytes(), None, ent)
        if want:
            sim.check(o.kind == 'ok', 'sign-failed', lambda: 'signing with %s keys %r' % (mut, o))
            p = ref.read_tx(ref.Rd(o.value))
            sim.check(ref.spend_ok(p, j, locking(i)), 'spend-refused', lambda: 'keys that can sign (%s, %s %d-of-%d) made a spend the ledger refuses' % (mut, i['kind'], i['m'], len(i['keys'])))
        elif i['kind'] == 'addr' and len(privs) != 1:
            sim.check(o.kind == 'raise' and isinstance(o.exc, n.Error), 'wrong-count-signed', lambda: 'signing an address input with %d keys %r' % (len(privs), o))
        elif o.kind == 'ok':
            p = ref.read_tx(ref.Rd(o.value))
            if not ref.spend_ok(p, j, locking(i)):
                sim.probe('unable-keys-refused-by-ledger')
