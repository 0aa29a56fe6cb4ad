"""C12: wallets that spend each other's outputs, and ledgers that hear of it in any order."""
from .. import build, core, ref
from ..core import BadPlan, Entropy, Sched, run_op, short
from ..disk import Disk, gen_fates
from ..gens import I, apply_damage

TITLE = 'wallets chaining payments to each other over a reordering network, ledgers and watching wallets that collect them'
REAL = ['bitforge.transaction.*', 'bitforge.script.*', 'bitforge.address', 'bitforge.pubkey', 'bitforge.encoding', 'bitforge.tools',
        'watching wallets (bitforge objects only)']
STUB = ['network', 'disk', 'process crashes and restarts', 'thread scheduler', 'ledgers (reference decoder and unspent set)',
        'random source', 'curve point multiplication in most runs']
RULE = ('a run = one seed: wallets build a graph of transactions with address, script-hash, multisig, data and plain outputs, refer to parents '
        'by the ID the library gives, crash and reload, build in parallel threads; ledgers and watchers receive the bytes reordered, '
        'repeated and late, and must end with exactly the intended unspent outputs')
RUNS = {'quick': 5000, 'thorough': 90000}
ASSUME = ['amounts 0 to 21 million bitcoin; data payloads 1 to 80 bytes (longer ones must be refused)', 'wallets sync a transaction before they send it']


def gen_out(r, keys, adrs, pool):
    if pool and r.chance(.3):
        o = dict(r.pick(pool))
        if r.chance(.6):
            o['amt'] = r.amount()
        return o
    kind = r.weighted([('addr', 5), ('script', 2), ('multi', 2), ('data', 2), ('raw', 1), ('keyaddr', 2)])
    o = {'kind': kind, 'amt': r.amount(), 'how': r.randrange(4)}
    if kind == 'addr':
        o['a'] = r.address(adrs)
        adrs.append(o['a'])
    elif kind == 'keyaddr':
        o['k'] = r.randrange(len(keys))
    elif kind == 'script':
        o['script'] = r.script(big=r.chance(.1))
        o['n'] = r.net()
    elif kind == 'multi':
        n = r.weighted([(1, 2), (2, 4), (3, 4), (r.randrange(1, 17), 2), (16, .5)])
        ks = [r.randrange(len(keys)) for _ in range(n)]
        o['ks'], o['m'] = ks, r.randrange(1, n + 1)
    elif kind == 'data':
        o['data'] = r.data(r.weighted([(r.randrange(1, 81), 5), (80, 3), (75, 1), (76, 1), (79, 1), (1, 1)]))
    else:
        o['script'] = r.script()
    return o


def gen(r, tier):
    keys = []
    for _ in range(r.randrange(2, 8)):
        keys.append(r.key(keys))
    adrs, pool, txs = [], [], []
    gen_, free = [], []
    for i in range(r.randrange(1, 6)):
        c = {'id': r.txid(), 'ix': r.u32(), 'amt': r.amount(), 'k': r.randrange(len(keys))}
        if any((c['id'], c['ix']) == (d['id'], d['ix']) for d in gen_):
            continue
        gen_.append(c)
        free.append(['g', i])
    free = [['g', i] for i in range(len(gen_))]
    nw = r.randrange(1, 4)
    long = r.chance(.03)
    for j in range(r.randrange(15, 40) if long else r.weighted([(1, 1), (2, 2), (3, 3), (5, 2), (8, 1)])):
        if not free:
            break
        ins = []
        for _ in range(min(len(free), r.weighted([(1, 5), (2, 3), (3, 1), (6, .5)]))):
            q = free.pop(r.randrange(len(free)) if r.chance(.5) else -1)
            ins.append({'ref': q, 'seq': r.u32(), 'sign': r.chance(.15), 'script': r.script() if r.chance(.2) else []})
        many = r.chance(.02)
        outs = [gen_out(r, keys, adrs, pool) for _ in range(r.weighted([(1, 4), (2, 4), (3, 2), (5, 1)]))]
        if many:
            extra = {'kind': 'raw', 'amt': r.amount(), 'how': 0, 'script': []}
            outs += [dict(extra, amt=extra['amt'] // (x + 1)) for x in range(r.pick([250, 253, 256, 300]))]
        pool += outs[:3]
        txs.append({'w': r.randrange(nw), 'ins': ins, 'outs': outs, 'lt': r.u32(), 'v': r.weighted([(1, 3), (2, 2), (r.u32(), 1)]), 'idvia': r.randrange(4),
                    'drafts': [[r.pick(['lt', 'v', 'seq', 'amt', 'order', 'same']), r.u32()] for _ in range(r.pick([0, 0, 0, 1, 1, 2]))]})
        for k, o in enumerate(outs):
            if o['kind'] != 'data' and (not many or r.chance(.1)):
                free.append(['t', j, k])
        if long and r.chance(.3):
            free = free[-12:]
    steps = []
    j = 0
    while j < len(txs):
        if r.chance(.12):
            steps.append({'op': 'restart', 'w': r.randrange(nw), 'fates': gen_fates(r)})
        if r.chance(.15):
            k = r.randrange(81, 84) if r.chance(.6) else r.pick([85, 100, 255, 256, 257, 520, 521, 1000, 65535, 65536])
            steps.append({'op': 'toobig', 'w': r.randrange(nw), 'data': r.data(k), 'tight': r.chance(.5)})
        g = 1 if r.chance(.75) else r.randrange(2, 4)
        js = list(range(j, min(len(txs), j + g)))
        # only transactions that do not spend each other can be built at the same time
        while any(i['ref'][0] == 't' and i['ref'][1] in js for x in js for i in txs[x]['ins']):
            js.pop()
        steps.append({'op': 'build', 'js': js, 'sched': r.schedule(len(js)) if len(js) > 1 else [],
                      'fault': [r.pick(['crash', 'interrupt', 'memory', 'hash']), round(r.random(), 4)] if len(js) == 1 and r.chance(.15) else None,
                      'keep': r.chance(.85), 'fates': gen_fates(r)})
        j = js[-1] + 1
    listeners = []
    for _ in range(r.randrange(1, 4)):
        listeners.append({'watch': r.chance(.5), 'fates': [r.weighted([(['ok', r.log_int(1000, 9000000)], 6), (['lost', 0], 1), (['dup', r.log_int(1000, 9000000)], 2), (['cut', round(r.random(), 3)], 1)])
                                                          for _ in range(r.pick([0, 6, 20]))], 'restart': [r.randrange(0, 9000000) for _ in range(r.pick([0, 0, 1, 2]))]})
    return {'cfg': {'real_ec': r.chance(.005), 'gran': r.pick(['line', 'line', 'instr'])}, 'keys': keys, 'gen': gen_, 'txs': txs, 'steps': steps, 'nw': nw, 'listeners': listeners, 'ent': r.getrandbits(40)}


def run(plan, sim):
    K, T, G = plan['keys'], plan['txs'], plan['gen']
    for j, t in enumerate(T):
        if not t['ins'] or not t['outs'] or t['w'] >= plan['nw']:
            raise BadPlan('tx')
        for i in t['ins']:
            q = i['ref']
            if q[0] == 'g' and q[1] >= len(G) or q[0] == 't' and (q[1] >= j or q[2] >= len(T[q[1]]['outs'])):
                raise BadPlan('ref')
    pubs = [ref.sec(ref.pub(int(k['s'], 16)), k['c']) for k in K]

    def locking(o):
        k = o['kind']
        if k == 'addr':
            h = bytes.fromhex(o['a']['h'])
            return ref.p2pkh(h) if o['a']['t'] == 'pkh' else ref.p2sh(h)
        if k == 'keyaddr':
            return ref.p2pkh(ref.hash160(pubs[o['k']]))
        if k == 'script':
            return ref.p2sh(ref.hash160(ref.script_bytes(I(o['script']))))
        if k == 'multi':
            return ref.p2sh(ref.hash160(ref.multisig(o['m'], [pubs[x] for x in o['ks']])))
        if k == 'data':
            return ref.opreturn(bytes.fromhex(o['data']))
        return ref.script_bytes(I(o['script']))

    def amount(o): return 0 if o['kind'] == 'data' else o['amt']

    lock = [[locking(o) for o in t['outs']] for t in T]

    def owner_key(q):
        """index of the key that owns the output, when a single key does"""
        if q[0] == 'g':
            return G[q[1]]['k']
        o = T[q[1]]['outs'][q[2]]
        return o['k'] if o['kind'] == 'keyaddr' else None

    def parent_script(q):
        return ref.p2pkh(ref.hash160(pubs[G[q[1]]['k']])) if q[0] == 'g' else lock[q[1]][q[2]]

    # ---- wallets
    nodes = [sim.boot(worn=True) for _ in range(plan['nw'])]
    disks = [Disk(sim) for _ in range(plan['nw'])]
    mem = [{} for _ in range(plan['nw'])]       # wallet -> tx -> object, lost in a crash
    wire = {}                                   # tx -> bytes, once synced and sent
    box = {'built': 0}

    def make_output(n, o):
        k, how = o['kind'], o['how']
        if k in ('addr', 'keyaddr'):
            if k == 'keyaddr':
                kk = K[o['k']]
                a = [lambda: build.priv(n, kk).to_address(), lambda: build.pubk(n, kk).to_address(), lambda: n.Address.from_public_key(build.pubk(n, kk)),
                     lambda: n.Address.from_string(ref.key_addr(int(kk['s'], 16), kk['n'], kk['c']))][how]()
            else:
                x = o['a']
                h = bytes.fromhex(x['h'])
                a = [lambda: build.addr(n, x), lambda: n.Address.from_string(ref.addr(h, x['n'], x['t'])),
                     lambda: n.Address.from_bytes(ref.addr_bytes(h, x['n'], x['t'])), lambda: n.Address.from_hex(ref.addr_bytes(h, x['n'], x['t']).hex())][how]()
            return n.AddressOutput.create(o['amt'], a)
        if k == 'script':
            s = build.script(n, o['script'], how)
            if how == 3:
                return n.AddressOutput.create(o['amt'], n.Address.from_script(s, build.net(n, o['n'])))
            return n.ScriptOutput.create(o['amt'], s)
        if k == 'multi':
            ps = [build.pubk(n, K[x]) for x in o['ks']]
            if how == 1:
                return n.ScriptOutput.create(o['amt'], n.RedeemMultisig.create(ps, o['m']))
            return n.MultisigOutput.create(o['amt'], ps, o['m'])
        if k == 'data':
            return n.DataOutput.create(bytes.fromhex(o['data']))
        return n.Output.create(o['amt'], build.script(n, o['script'], how)) if how == 1 else n.Output(o['amt'], build.script(n, o['script'], how))

    def parent_ref(w, n, q, via):
        """(id, index) as the wallet would write it"""
        if q[0] == 'g':
            return G[q[1]]['id'], G[q[1]]['ix']
        j = q[1]
        if via == 0 and j in mem[w]:
            return mem[w][j].get_id(), q[2]
        if via == 1:
            return n.Transaction.from_hex(wire[j].hex()).get_id(), q[2]
        return n.Transaction.from_bytes(wire[j]).get_id(), q[2]

    def construct(w, j):
        """what the wallet does: build outputs and inputs, make the transaction, sign where asked"""
        n, t = nodes[w], T[j]
        outs = [make_output(n, o) for o in t['outs']]
        ins, todo = [], []
        for x, i in enumerate(t['ins']):
            tid, ix = parent_ref(w, n, i['ref'], t['idvia'])
            k = owner_key(i['ref'])
            if i['sign'] and k is not None:
                ins.append(n.AddressInput.create(tid, ix, build.pubk(n, K[k]).to_address(), i['seq']))
                todo.append((x, k))
            else:
                ins.append(n.Input(tid, ix, build.script(n, i['script']), i['seq']))
        drafts = []
        for what, v in t['drafts']:          # near-copies the wallet considered and did not send
            a, b, lt, ver = list(ins), list(outs), t['lt'], t['v']
            if what == 'lt':
                lt = v
            elif what == 'v':
                ver = v
            elif what == 'seq':
                a[v % len(a)] = n.Input(a[v % len(a)].tx_id, a[v % len(a)].txo_index, a[v % len(a)].script, v)
            elif what == 'amt':
                b[v % len(b)] = n.Output(v, b[v % len(b)].script)
            elif what == 'order':
                a, b = a[::-1], b[::-1]
            d = n.Transaction(a, b, lt, ver)
            drafts.append((d.get_id(), d.to_bytes()))
        tx = n.Transaction(ins, outs, t['lt'], t['v'])
        for x, k in todo:
            tx = tx.sign([build.priv(n, K[k])], x)
        return outs, tx, tx.to_bytes(), tx.get_id(), drafts

    def judge(j, res):
        outs, tx, b, tid, drafts = res
        t = T[j]
        for did, db in drafts:
            sim.check(did == ref.txid(db), 'tx-id', lambda: 'a draft of transaction %d calls itself %s, its bytes hash to %s' % (j, did, ref.txid(db)))
        for k, (o, got) in enumerate(zip(t['outs'], outs)):
            s = build.output_of(got)
            want = {'amt': amount(o), 'script': lock[j][k]}
            sim.check(s == want, 'output', lambda: 'transaction %d output %d (%s) is %r, intended %r' % (j, k, o['kind'], s, want))
        sim.check(tid == ref.txid(b), 'tx-id', lambda: 'transaction %d calls itself %s, its bytes hash to %s' % (j, tid, ref.txid(b)))
        rd = ref.Rd(b)
        try:
            p = ref.read_tx(rd)
        except (ref.Short, ref.Bad) as e:
            p = None
        sim.check(p is not None and rd.i == len(b), 'wire', lambda: 'transaction %d does not decode: %s' % (j, short(b.hex(), 300)))
        want = [{'amt': amount(o), 'script': lock[j][k]} for k, o in enumerate(t['outs'])]
        sim.check(p['out'] == want, 'wire-outputs', lambda: 'transaction %d pays %s, intended %s' % (j, short(repr(p['out']), 400), short(repr(want), 400)))
        refs = [(a['id'], a['ix']) for a in p['in']]
        exp = [(G[i['ref'][1]]['id'], G[i['ref'][1]]['ix']) if i['ref'][0] == 'g' else (ref.txid(wire[i['ref'][1]]), i['ref'][2]) for i in t['ins']]
        sim.check(refs == exp, 'wire-inputs', lambda: 'transaction %d spends %s, intended %s' % (j, short(repr(refs), 400), short(repr(exp), 400)))
        sim.check((p['v'], p['lt'], [a['seq'] for a in p['in']]) == (t['v'], t['lt'], [i['seq'] for i in t['ins']]), 'wire-rest', lambda: 'transaction %d: version, lock time or sequence differ' % j)
        for x, i in enumerate(t['ins']):
            if i['sign'] and owner_key(i['ref']) is not None:
                sim.check(ref.spend_ok(p, x, parent_script(i['ref'])), 'spend-refused', lambda: 'transaction %d input %d is not a valid spend' % (j, x))
        sim.state(tuple(o['kind'] for o in t['outs'])[:4], len(t['ins']), t['idvia'])

    def ent(j): return Entropy({'pre': [], 'seed': '%d/%d' % (plan['ent'], j)})

    def restart(w):
        nodes[w] = sim.boot()
        mem[w].clear()
        sim.fault('wallet-restart')

    def record(w, j, b, keep, fates):
        """write ahead, sync, then send; a crash in between leaves a torn record that has to be noticed"""
        d = disks[w]
        d.write('t%d' % j, b)
        if not keep:
            d.crash(fates)
            restart(w)
            n = nodes[w]
            stored = d.read('t%d' % j)
            if stored is None:
                return False
            o = sim.op(n, lambda: n.Transaction.from_bytes(stored))
            if o.kind == 'raise':
                sim.check(stored != b and isinstance(o.exc, n.InsufficientData), 'torn-record', lambda: 'a torn record of transaction %d %r' % (j, o))
                return False
            sim.check(stored == b and build.tx_of(o.value) == ref.read_tx(ref.Rd(b)), 'torn-record', lambda: 'a torn record of transaction %d read as %r' % (j, o))
        d.sync()
        wire[j] = b
        return True

    def do_build(st):
        js = [j for j in st['js'] if j < len(T)]
        for j in js:
            if any(i['ref'][0] == 't' and i['ref'][1] not in wire for i in T[j]['ins']):
                raise BadPlan('parent not built')
        if not js:
            return
        if len(js) == 1:
            j = js[0]
            w = T[j]['w']
            if st['fault']:
                o = sim.op(nodes[w], lambda: construct(w, j), core.aim(st['fault'], 6 if st['fault'][0] == 'hash' else 700), ent(j))
                if o.kind == 'crash':
                    restart(w)
                elif o.kind == 'ok' and not o.fired:
                    judge(j, o.value)
            for attempt in range(3):
                res = sim.need(nodes[w], 'building transaction %d' % j, lambda: construct(w, j), ent(j))
                judge(j, res)
                if record(w, j, res[2], st['keep'] or attempt == 2, st['fates']):
                    if st['keep']:
                        mem[w][j] = res[1]
                    return
        else:
            res = {}
            w = T[js[0]]['w']
            sch = Sched(sim, st['sched'])
            for j in js:
                def body(ctx, j=j):
                    o = run_op(ctx, nodes[w], lambda: construct(w, j), None, ent(j))
                    sim.check(o.kind == 'ok', 'valid-op-failed', lambda: 'building transaction %d in a thread %r' % (j, o))
                    res[j] = o.value
                sch.add('b%d' % j, body)
            sch.run()
            for j in js:
                judge(j, res[j])
                record(w, j, res[j][2], True, [])
                mem[w][j] = res[j][1]

    for st in plan['steps']:
        sim.now += 1000
        if st['op'] == 'restart':
            w = st['w'] % len(nodes)
            disks[w].crash(st['fates'])
            restart(w)
        elif st['op'] == 'toobig':
            n = nodes[st['w'] % len(nodes)]
            d = bytes.fromhex(st['data'])
            o = sim.op(n, lambda: n.DataOutput.create(d))
            sim.check(o.kind == 'raise' and isinstance(o.exc, n.Error), 'too-much-data', lambda: '%d bytes of data %r' % (len(d), o))
            m = sim.op(n, lambda: str(o.exc))
            sim.check(m.kind == 'ok' and m.value, 'unprintable-error', lambda: '%d bytes of data %r' % (len(d), o))
            if st['tight']:
                ok = sim.need(n, '80 bytes of data', lambda: n.DataOutput.create(d[:80]).to_bytes())
                exp = ref.output_bytes({'amt': 0, 'script': ref.opreturn(d[:80])})
                sim.check(ok == exp, 'output', lambda: 'data output is %s, should be %s' % (ok.hex(), exp.hex()))
        else:
            do_build(st)
    sent = sorted(wire)
    spent = {tuple(i['ref']) for j in sent for i in T[j]['ins']}
    if sum(len(T[j]['ins']) for j in sent) != len(spent):
        raise BadPlan('double spend')
    want = {}
    for i, c in enumerate(G):
        if ('g', i) not in spent:
            want[(c['id'], c['ix'])] = (c['amt'], ref.p2pkh(ref.hash160(pubs[c['k']])))
    for j in sent:
        for k, o in enumerate(T[j]['outs']):
            if ('t', j, k) not in spent:
                want[(ref.txid(wire[j]), k)] = (amount(o), lock[j][k])

    # ---- delivery
    ends = []
    for li, L in enumerate(plan['listeners']):
        ends.append(Watch(sim, G, pubs) if L['watch'] else LedgerEnd(sim, G, pubs))

        def deliver(e, b):
            e.receive(b)
        c = 0
        for rnd in range(2):                    # the second round is a retransmission of everything, once faults have stopped
            for j in sent:
                fate = L['fates'][c] if rnd == 0 and c < len(L['fates']) else ['ok', 10000 + (j * 7919) % 5000]
                c += 1
                base = rnd * 10000000
                if fate[0] == 'lost':
                    sim.fault('message-lost')
                elif fate[0] == 'cut':
                    sim.fault('message-cut')
                    sim.after(base + 5000, ends[-1].receive_cut, wire[j][:min(int(fate[1] * len(wire[j])), len(wire[j]) - 1)])
                else:
                    sim.after(base + fate[1], deliver, ends[-1], wire[j])
                    if fate[0] == 'dup':
                        sim.fault('message-duplicated')
                        sim.after(base + fate[1] // 2, deliver, ends[-1], wire[j])
        for at in L['restart']:
            sim.after(at, ends[-1].restart)
    sim.drain()
    for e in ends:
        got = e.unspent()
        sim.check(not e.waiting(), 'orphan', lambda: '%d transactions never found their parents' % len(e.waiting()))
        sim.check(got == want, 'unspent', lambda: '%s ends with %s, intended %s' % (type(e).__name__, short(repr(sorted(set(got.items()) - set(want.items()))), 400), short(repr(sorted(set(want.items()) - set(got.items()))), 400)))
    sim.probe('ended')


class LedgerEnd:
    """reference ledger"""

    def __init__(self, sim, G, pubs):
        self.sim, self.G, self.pubs, self.stored = sim, G, pubs, []
        self.open()

    def open(self):
        self.l = ref.Ledger([(c['id'], c['ix'], {'amt': c['amt'], 'script': ref.p2pkh(ref.hash160(self.pubs[c['k']]))}) for c in self.G])

    def restart(self):
        pass

    def receive(self, b): self.sim.probe('ledger-' + self.l.feed(b))

    def receive_cut(self, b): pass

    def waiting(self): return self.l.wait
    def unspent(self): return {k: (o['amt'], o['script']) for k, o in self.l.utxo.items()}


class Watch:
    """a watching wallet made of bitforge objects; its disk holds the raw bytes it has seen"""

    def __init__(self, sim, G, pubs):
        self.sim, self.G, self.pubs, self.stored = sim, G, pubs, []
        self.open()

    def open(self):
        self.n = self.sim.boot()
        n = self.n

        def f():
            return {(c['id'], c['ix']): n.Output.create(c['amt'], n.Script.from_bytes(ref.p2pkh(ref.hash160(self.pubs[c['k']])))) for c in self.G}
        self.utxo = self.sim.need(n, 'opening the watching wallet', f)
        self.seen, self.wait = set(), []

    def restart(self):
        self.sim.fault('watcher-restart')
        self.open()
        for b in self.stored:
            self.apply(b)

    def receive(self, b):
        self.stored.append(b)
        self.apply(b)

    def receive_cut(self, b):
        n = self.n
        o = self.sim.op(n, lambda: n.Transaction.from_bytes(b))
        self.sim.check(o.kind == 'raise' and isinstance(o.exc, n.InsufficientData), 'cut-accepted', lambda: 'a cut transaction %r' % o)

    def apply(self, b):
        n, sim = self.n, self.sim

        def f():
            t = n.Transaction.from_bytes(b)
            tid = t.get_id()
            if tid in self.seen or any(x[0] == tid for x in self.wait):
                return 'dup'
            self.wait.append((tid, t))
            moved = True
            while moved:
                moved = False
                for x in list(self.wait):
                    refs = [(a.tx_id, a.txo_index) for a in x[1].inputs]
                    if all(q in self.utxo for q in refs):
                        for q in refs:
                            del self.utxo[q]
                        for k, o in enumerate(x[1].outputs):
                            self.utxo[(x[0], k)] = o
                        self.seen.add(x[0])
                        self.wait = [y for y in self.wait if y[0] != x[0]]
                        moved = True
            return 'ok' if tid in self.seen else 'orphan'
        sim.probe('watch-' + sim.need(n, 'a watching wallet taking a transaction', f))

    def waiting(self): return self.wait

    def unspent(self):
        n, sim = self.n, self.sim
        out = {}
        for k, o in self.utxo.items():
            s = build.output_of(o)
            ins = ref.script_parse(s['script'])
            kind = ref.classify(ins)

            def f():
                sc = o.script
                if kind == 'PayToPubkeyOut':
                    return 'AddressOutput', sc.get_address_hash()
                if kind == 'PayToScriptOut':
                    return 'ScriptOutput', sc.get_script_hash()
                if kind == 'OpReturnOut':
                    return 'DataOutput', sc.get_data()
                return 'Output', None
            cls, v = sim.need(n, 'reading the recipient of an output', f)
            want = next((d for _, d in ins if d is not None), None) if cls != 'Output' else None
            sim.check(isinstance(o, getattr(n, cls)) and v == want, 'recipient', lambda: 'output %r (%s) names %r, its script says %r' % (o, kind, v, want))
            out[k] = (s['amt'], s['script'])
        return out
