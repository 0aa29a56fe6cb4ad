"""Worn processes: before a scenario begins, a node has already handled n other things of the kinds the property is about (all
different, all valid), as a server that has been up for a while has.  Each is checked against the reference as it goes."""
from . import build, ref

H = lambda salt, i, j=0: ref.sha256(b'%d/%d/%d' % (salt, i, j))


def w_tx(n, h, i):
    t = {'v': 1 + i % 2, 'lt': i, 'in': [{'id': h.hex(), 'ix': i, 'script': [list(ref.push(h[:1 + i % 32]))], 'seq': 0xffffffff - i}],
         'out': [{'amt': i * 1000003, 'script': [[118, None], [169, None], [20, h[:20].hex()], [136, None], [172, None]]}]}
    t['in'][0]['script'] = [[o, d.hex()] for o, d in t['in'][0]['script']]
    x = build.tx(n, t)
    b = x.to_bytes()
    y = n.Transaction.from_bytes(b)
    return y == x and x.get_id() == ref.txid(b) == y.get_id()


def w_parts(n, h, i):
    x = n.Output(i * 7919, n.Script.from_bytes(ref.p2pkh(h[:20])))
    y = n.Input(h.hex(), i, n.Script.from_bytes(ref.script_bytes([ref.push(h[:9])])))
    buf = n.Buffer(x.to_bytes() + y.to_bytes())
    return n.Output.from_buffer(buf) == x and n.Input.from_buffer(buf) == y and not buf


def w_key(n, h, i):
    s = int.from_bytes(h, 'big') % (ref.N - 1) + 1
    net = 'livenet' if i % 3 else 'testnet'
    k = n.PrivateKey(s, build.net(n, net), bool(i % 2))
    w = k.to_wif()
    return w == ref.wif(s, net, bool(i % 2)) and n.PrivateKey.from_wif(w) == k


def w_addr(n, h, i):
    net, kind = ('livenet' if i % 3 else 'testnet'), ('pkh' if i % 2 else 'sh')
    a = build.addr(n, {'h': h[:20].hex(), 'n': net, 't': kind})
    s = a.to_string()
    return s == ref.addr(h[:20], net, kind) and n.Address.from_string(s) == a


def w_pub(n, h, i):
    b = ref.sec(ref.pub(1 + i), bool(i % 2))
    p = n.PublicKey.from_bytes(b)
    return p.to_bytes() == b and bytes(p.to_address().phash) == ref.hash160(b)


def w_uri(n, h, i):
    a = ref.addr(h[:20], 'livenet', 'pkh')
    u = n.URI({'address': a, 'amount': i * 100003, 'label': h.hex()[:9]})
    v = n.URI(u.to_uri())
    return v.address.to_string() == a and v.amount.satoshis == i * 100003 and v.label == h.hex()[:9] and n.URI.is_valid(u.to_uri())


SEEN = set()          # what must never come twice from one process: fresh secrets, chain codes, nonces


def new(*values):
    k = len(SEEN)
    SEEN.update(values)
    return len(SEEN) == k + len(values)


def w_fresh(n, h, i):
    a, b = n.PrivateKey().secret, n.HDPrivateKey.from_seed()
    return 1 <= a < ref.N and 1 <= b.privkey.secret < ref.N and new(a, b.privkey.secret, bytes(b.chain))


def w_sign(n, h, i):
    k = n.PrivateKey(1 + i % 5)
    sig = k.sign(h)
    rs = ref.der_strict(sig)
    return rs is not None and ref.ecdsa_ok(ref.pub(1 + i % 5), h, *rs) and new(rs[0])


def w_txsign(n, h, i):
    k = n.PrivateKey(1 + i % 5)
    t = n.Transaction([n.AddressInput.create(h.hex(), i, k.to_address())], [n.AddressOutput.create(i, k.to_address())])
    s = t.sign([k], 0)
    rs = ref.der_strict(bytes(s.inputs[0].script.get_signature())[:-1])
    d = ref.sighash(ref.read_tx(ref.Rd(t.to_bytes())), 0, ref.p2pkh(bytes(k.to_address().phash)), 1)
    return rs is not None and ref.ecdsa_ok(ref.pub(1 + i % 5), d, *rs)


def w_check(n, h, i):
    d = h[:1 + i % 32]
    unlock, lock = n.Script.from_bytes(ref.script_bytes([ref.push(d)])), n.Script.from_bytes(ref.script_bytes([(168, None), ref.push(ref.sha256(d)), (135, None)]))
    other = n.Script.from_bytes(ref.script_bytes([(168, None), ref.push(h), (135, None)]))
    return bool(n.Interpreter().verify(unlock, lock)) is True and bool(n.Interpreter().verify(unlock, other)) is False


def w_hd(n, h, i):
    s = 1 + i % 3
    k = n.HDPrivateKey(n.PrivateKey(s), h)
    c, p, d = k.derive(i), k.to_hd_public_key().derive(i), k.derive(i, True)
    e = ref.hmac512(h, ref.sec(ref.pub(s)) + i.to_bytes(4, 'big'))
    f = ref.hmac512(h, b'\0' + s.to_bytes(32, 'big') + (i + (1 << 31)).to_bytes(4, 'big'))
    return (c.privkey.secret == (int.from_bytes(e[:32], 'big') + s) % ref.N and bytes(c.chain) == bytes(p.chain) == e[32:] and p.index == c.index == i
            and d.privkey.secret == (int.from_bytes(f[:32], 'big') + s) % ref.N and bytes(d.chain) == f[32:] and d.index == i + (1 << 31))


def w_hdstr(n, h, i):
    k = n.HDPrivateKey(n.PrivateKey(1 + i % 3), h, i % 256, i, i)
    s = k.to_string()
    return n.HDPrivateKey.from_string(s) == k


def w_outs(n, h, i):
    return (n.AddressOutput.create(i, build.addr(n, {'h': h[:20].hex(), 'n': 'livenet', 't': 'sh' if i % 2 else 'pkh'})).to_bytes()
            == ref.output_bytes({'amt': i, 'script': (ref.p2sh if i % 2 else ref.p2pkh)(h[:20])})
            and n.DataOutput.create(h).to_bytes() == ref.output_bytes({'amt': 0, 'script': ref.opreturn(h)}))


def w_script(n, h, i):
    ins = [(118, None), ref.push(h[:1 + i % 32]), (81 + i % 16, None)]
    s = n.Script.from_bytes(ref.script_bytes(ins))
    t = s.to_string()
    return t == ref.script_text(ins) and n.Script.from_string(t) == s and s.to_bytes() == ref.script_bytes(ins)


def w_detsign(n, h, i):
    u = n.mods['bitforge.utils']
    e = int.from_bytes(h, 'big')
    return tuple(u.ecdsa.sign(u.generator_secp256k1, 1 + i, e)) == tuple(ref.det_sign(1 + i, h))


def w_point(n, h, i):
    u = n.mods['bitforge.utils']
    return tuple((u.generator_secp256k1 * (i + 1)).pair()) == tuple(ref.mul(i + 1))


KINDS = {'C01': [w_tx, w_parts], 'C02': [w_tx, w_script], 'C03': [w_key, w_addr, w_pub], 'C04': [w_uri, w_addr], 'C05': [w_fresh], 'C06': [w_sign],
         'C07': [w_txsign, w_tx], 'C08': [w_check], 'C11': [w_hd, w_hdstr], 'C12': [w_outs, w_tx], 'C13': [w_script], 'C14': [w_point, w_detsign]}
KINDS['C09'] = KINDS['C10'] = [w_tx, w_parts, w_key, w_addr, w_pub, w_uri, w_script, w_check, w_hdstr, w_outs, w_hd]
SLOW = {'C06', 'C07', 'C09', 'C10', 'C11', 'C14'}


def gen(r, prop):
    """[how many, salt] or None"""
    if not r.chance(.015):
        return None
    top = r.weighted([(16, 1), (32, 1), (64, 2), (128, 2), (256, 3), (512, 1), (1000, 2), (1024, 2), (2048, 1), (4096, .5)])
    if prop in SLOW:
        top = min(top, 1024)
    return [max(1, top - r.pick([0, 1, 2, 3, 8, 20, top // 2]) + r.pick([0, 1, 1, 2, 8])), r.getrandbits(30)]


def wear(sim, n, prop, spec):
    count, salt = spec
    kinds = KINDS[prop]
    base = salt % 1000003

    def some(first):
        for i in range(first, min(first + 64, count)):
            for f in kinds:
                if not f(n, H(salt, i, len(f.__name__)), base + i):
                    return '%s, number %d' % (f.__name__, i)
    from . import core
    SEEN.clear()
    ent = core.Entropy({'pre': [], 'seed': 'wear%d' % salt})
    core.set_granularity('off')
    try:
        for first in range(0, count, 64):
            o = core.run_op(sim.ctx, n, lambda: some(first), None, ent)
            if o.kind != 'ok' or o.value is not None:
                break
    finally:
        core.set_granularity(sim.gran)
    sim.probe('worn-process')
    sim.check(o.kind == 'ok' and o.value is None, 'worn-process', lambda: 'a process handling %d different things of the kinds %s in a row: %s' %
              (count, [f.__name__ for f in kinds], o.value if o.kind == 'ok' else repr(o)))
