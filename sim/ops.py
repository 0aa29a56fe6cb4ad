"""The catalogue of public operations, used by the concurrency (C09) and cut-short (C10) scenarios.

An operation is [name, a, b, c]: the numbers choose shared objects and parameters.  `W` is the set of
objects of one simulated process, built lazily from the same world spec on every node."""
from . import build, core, ref
from .core import view
from .gens import I, R, apply_damage, ref_tx


# ---------------------------------------------------------------- worlds

def gen_world(r):
    keys = []
    for _ in range(r.randrange(2, 5)):
        keys.append(r.key(keys))
    addrs, scripts, txs, uris, hds = [], [], [], [], []
    for _ in range(r.randrange(2, 4)):
        addrs.append(r.address(addrs))
    for _ in range(r.randrange(3, 7)):
        s = r.script(scripts, named=r.chance(.8), maxlen=6) if r.chance(.5) else r.template()[1]
        scripts.append(s)
    for _ in range(r.randrange(1, 4)):
        ins = []
        for _ in range(r.randrange(1, 4)):
            kind = r.pick(['addr', 'multi', 'plain', 'pk'])
            nk = r.randrange(1, len(keys) + 1)
            ki = r.sample(range(len(keys)), nk if kind == 'multi' else 1)
            ins.append({'kind': kind, 'keys': ki, 'm': r.randrange(1, len(ki) + 1), 'id': r.txid(), 'ix': r.u32(), 'seq': r.u32(), 'script': r.script(maxlen=4)})
        t = {'ins': ins, 'outs': [r.output() for _ in range(r.randrange(1, 4))], 'lt': r.u32(), 'v': r.pick([1, 2, r.u32()])}
        if txs and r.chance(.5):
            t = dict(txs[-1], **{r.pick(['lt', 'v']): r.u32()})
        txs.append(t)
    for _ in range(r.randrange(1, 4)):
        u = {'addr': r.randrange(len(addrs)), 'amt': r.amount(), 'label': r.pick(['', 'a', 'Café & co', 'x=1&y=2', 'shop']), 'message': r.pick(['', 'hello world', '100%', '+1']),
             'extra': r.pick([{}, {'foo': 'bar'}, {'req-x': '1', 'z': 'á'}])}
        if uris and r.chance(.5):
            u = dict(uris[-1], amt=r.amount())
        uris.append(u)
    for _ in range(r.randrange(1, 3)):
        hds.append({'seed': r.hexb(r.pick([32, 33, 64])), 'path': [r.u32() for _ in range(r.pick([0, 0, 1]))]})
    if r.chance(.5):                          # the same key with another chain code
        hds.append(dict(hds[-1], chain=r.hexb(32)))
    return {'keys': keys, 'addrs': addrs, 'scripts': scripts, 'txs': txs, 'uris': uris, 'hds': hds,
            'digs': [r.pick([r.hexb(32), '00' * 32, 'ff' * 32]) for _ in range(3)], 'salt': r.getrandbits(30)}


class W:
    """the objects of one process"""

    def __init__(self, node, world):
        self.n, self.w, self.memo = node, world, {}

    def _get(self, kind, i, xs, f):
        i %= len(xs)
        if (kind, i) not in self.memo:
            self.memo[kind, i] = f(xs[i])
        return self.memo[kind, i]

    def key(self, i): return self._get('key', i, self.w['keys'], lambda k: build.priv(self.n, k))
    def pub(self, i): return self._get('pub', i, self.w['keys'], lambda k: build.pubk(self.n, k))
    def addr(self, i): return self._get('addr', i, self.w['addrs'], lambda a: build.addr(self.n, a))
    def script(self, i): return self._get('script', i, self.w['scripts'], lambda s: build.script(self.n, s, 1))
    def tx(self, i): return self._get('tx', i, self.w['txs'], self._tx)
    def dig(self, i): return bytes.fromhex(self.w['digs'][i % len(self.w['digs'])])
    def uri(self, i): return self._get('uri', i, self.w['uris'], lambda u: self.n.URI(self.uri_args(u)))

    def uri_args(self, u):
        a = self.w['addrs'][u['addr'] % len(self.w['addrs'])]
        d = {'address': ref.addr(bytes.fromhex(a['h']), a['n'], a['t']), 'amount': u['amt']}
        d.update(u['extra'])
        for f in ('label', 'message'):
            if u[f]:
                d[f] = u[f]
        return d

    def uri_dict(self, i): return self._get('uridict', i, self.w['uris'], self.uri_args)
    def keylist(self, i): return self._get('keylist', i, self.w['txs'], lambda t: [build.priv(self.n, k) for k in self.w['keys']])

    # lists that belong to the caller: handed to several calls, and none may change them
    def signers(self, i, j, rev):
        spec = self.w['txs'][i % len(self.w['txs'])]['ins'][j]
        ks = self.keylist(i)
        return self._get('signers', (i % len(self.w['txs']) * 8 + j) * 2 + rev, range(1 << 10), lambda _: [
            ks[k] for k in (reversed if rev else list)(spec['keys'][:spec['m'] if spec['kind'] == 'multi' else 1])])

    def inlist(self, i): return self._get('inlist', i, self.w['txs'], lambda t: [self.tin(x) for x in t['ins']])
    def outlist(self, i): return self._get('outlist', i, self.w['txs'], lambda t: [build.outp(self.n, o) for o in t['outs']])
    def inslist(self, i): return self._get('inslist', i, self.w['scripts'], lambda s: list(build.script(self.n, s, 1).instructions))
    def pubs(self, i): return self._get('pubs', i, self.w['keys'], lambda k: [build.pubk(self.n, x) for x in self.w['keys']] + [build.pubk(self.n, k)])
    def sigs(self, i): return self._get('sigs', i, self.w['keys'], lambda k: [self.dig(2), self.dig(0), self.dig(1)])
    def plan(self, i): return self._get('plan', i, self.w['keys'], lambda k: [self.n.Opcode(118), ref.sec(ref.pub(int(k['s'], 16)), k['c']), 169, (self.n.Opcode(76), self.dig(1))])

    def hd(self, i):
        def f(h):
            if 'chain' in h:
                return self.n.HDPrivateKey.from_string(self.rhd(self.w['hds'].index(h)).string())
            k = self.n.HDPrivateKey.from_seed(bytes.fromhex(h['seed']))
            for p in h['path']:
                k = k.derive(p)
            return k
        return self._get('hd', i, self.w['hds'], f)

    def hdp(self, i): return self._get('hdp', i, self.w['hds'], lambda h: self.n.HDPublicKey.from_string(self.rhd(self.w['hds'].index(h)).public().string()))

    def rhd(self, i):
        h = self.w['hds'][i % len(self.w['hds'])]
        k = ref.XKey.from_seed(bytes.fromhex(h['seed']))
        for p in h['path']:
            k = k.derive(p)
        return k if 'chain' not in h else ref.XKey(k.secret, k.point, bytes.fromhex(h['chain']), k.depth, k.index, k.parent, k.net)

    def tin(self, i):
        n, K = self.n, self.w['keys']
        if i['kind'] == 'addr':
            return n.AddressInput.create(i['id'], i['ix'], build.pubk(n, K[i['keys'][0]]).to_address(), i['seq'])
        if i['kind'] == 'multi':
            return n.MultisigInput.create(i['id'], i['ix'], [build.pubk(n, K[x]) for x in i['keys']], i['m'], i['seq'])
        if i['kind'] == 'pk':
            return n.ScriptInput.create(i['id'], i['ix'], n.Script.from_bytes(ref.script_bytes([ref.push(self.rsec(i['keys'][0])), (172, None)])), i['seq'])
        return n.Input(i['id'], i['ix'], build.script(n, i['script']), i['seq'])

    def rsec(self, k):
        k = self.w['keys'][k % len(self.w['keys'])]
        return ref.sec(ref.pub(int(k['s'], 16)), k['c'])

    def _tx(self, t):
        return self.n.Transaction([self.tin(i) for i in t['ins']], [build.outp(self.n, o) for o in t['outs']], t['lt'], t['v'])

    def rkey(self, i): return self.w['keys'][i % len(self.w['keys'])]
    def raddr(self, i): return self.w['addrs'][i % len(self.w['addrs'])]
    def rscript(self, i): return ref.script_bytes(I(self.w['scripts'][i % len(self.w['scripts'])]))

    def rtx(self, i):
        """wire bytes of an (unsigned) transaction without typed inputs"""
        t = self.w['txs'][i % len(self.w['txs'])]
        return ref.tx_bytes(ref_tx({'v': t['v'], 'lt': t['lt'], 'in': t['ins'], 'out': t['outs']}))

    def build_all(self):
        w = self.w
        for kind, xs in (('key', w['keys']), ('pub', w['keys']), ('addr', w['addrs']), ('script', w['scripts']), ('tx', w['txs']),
                         ('uri', w['uris']), ('uri_dict', w['uris']), ('keylist', w['txs']), ('hd', w['hds']), ('hdp', w['hds']),
                         ('inlist', w['txs']), ('outlist', w['txs']), ('inslist', w['scripts']), ('pubs', w['keys']), ('sigs', w['keys']), ('plan', w['keys'])):
            for i in range(len(xs)):
                getattr(self, kind)(i)
        for i, t in enumerate(w['txs']):
            for j in range(len(t['ins'])):
                self.signers(i, j, 0), self.signers(i, j, 1)

    def views(self):
        return {k: view(self.memo[k]) for k in sorted(self.memo)}       # sorting by values would print them


def hurt(b, c, text=False):
    """damage chosen by c"""
    r = R(c)
    if text:
        s = list(b)
        if s:
            s[r.randrange(len(s))] = r.pick('123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl ')
        return ''.join(s)
    return apply_damage(b, r.damage(len(b)))


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


# ---- keys
@op
def k_wif(W, a, b, c): return W.key(a).to_wif()
@op
def k_hex(W, a, b, c): return W.key(a).to_hex()
@op
def k_pub(W, a, b, c): return W.key(a).to_public_key()
@op
def k_addr(W, a, b, c): return W.key(a).to_address().to_string()
@op
def k_sign(W, a, b, c): return W.key(a).sign(W.dig(b))
@op
def k_verify(W, a, b, c):
    k = W.rkey(a)
    d = W.dig(b)
    sig = ref.sign(int(k['s'], 16), d, 1 + c % 1000)
    return W.key(a).verify(sig, W.dig(b + c % 2))
@op
def k_repr(W, a, b, c): return [repr(W.key(a)), repr(W.pub(b)), repr(W.addr(c))]
@op
def k_eq(W, a, b, c): return [W.key(a) == W.key(b), W.key(a) in {W.key(b), W.key(c)}, hash(W.key(a)) == hash(build.priv(W.n, W.rkey(a)))]
@op
def k_from_wif(W, a, b, c):
    k = W.rkey(a)
    return W.n.PrivateKey.from_wif(ref.wif(int(k['s'], 16), k['n'], k['c']))
@op
def k_from_hex(W, a, b, c):
    k = W.rkey(a)
    return W.n.PrivateKey.from_hex(k['s'], build.net(W.n, k['n']), k['c'])
@op
def k_from_bytes(W, a, b, c): return W.n.PrivateKey.from_bytes(bytes.fromhex(W.rkey(a)['s']), W.rkey(b)['n'])
@op
def k_generate(W, a, b, c): return W.n.PrivateKey(network=W.rkey(a)['n'], compressed=bool(b % 2))
@op
def k_bad_wif(W, a, b, c):
    k = W.rkey(a)
    return W.n.PrivateKey.from_wif(hurt(ref.wif(int(k['s'], 16), k['n'], k['c']), c, True))
@op
def k_bad_secret(W, a, b, c): return W.n.PrivateKey([0, ref.N, ref.N + 1, 1, ref.N - 1][c % 5])


# ---- public keys
@op
def p_bytes(W, a, b, c): return [W.pub(a).to_bytes(), W.pub(b).to_hex()]
@op
def p_addr(W, a, b, c): return W.pub(a).to_address()
@op
def p_from_bytes(W, a, b, c): return W.n.PublicKey.from_bytes(W.rsec(a), build.net(W.n, W.rkey(b)['n']))
@op
def p_from_hex(W, a, b, c): return W.n.PublicKey.from_hex(W.rsec(a).hex())
@op
def p_bad(W, a, b, c): return W.n.PublicKey.from_bytes(hurt(W.rsec(a), c))
@op
def p_eq(W, a, b, c): return [W.pub(a) == W.pub(b), W.pub(a) in {W.pub(b), W.pub(c)}]


# ---- addresses
@op
def a_str(W, a, b, c): return [W.addr(a).to_string(), W.addr(b).to_hex(), W.addr(c).to_bytes()]
@op
def a_from_str(W, a, b, c):
    x = W.raddr(a)
    return W.n.Address.from_string(ref.addr(bytes.fromhex(x['h']), x['n'], x['t']))
@op
def a_from_bytes(W, a, b, c):
    x = W.raddr(a)
    return W.n.Address.from_bytes(ref.addr_bytes(bytes.fromhex(x['h']), x['n'], x['t']))
@op
def a_from_hex(W, a, b, c):
    x = W.raddr(a)
    return W.n.Address.from_hex(ref.addr_bytes(bytes.fromhex(x['h']), x['n'], x['t']).hex())
@op
def a_from_script(W, a, b, c): return W.n.Address.from_script(W.script(a), build.net(W.n, W.rkey(b)['n']))
@op
def a_bad(W, a, b, c):
    x = W.raddr(a)
    return W.n.Address.from_string(hurt(ref.addr(bytes.fromhex(x['h']), x['n'], x['t']), c, True))
@op
def a_eq(W, a, b, c): return [W.addr(a) == W.addr(b), W.addr(a) in {W.addr(b), W.addr(c)}]


# ---- scripts
@op
def s_bytes(W, a, b, c): return [W.script(a).to_bytes(), W.script(b).to_hex()]
@op
def s_str(W, a, b, c): return W.script(a).to_string()
@op
def s_from_bytes(W, a, b, c): return W.n.Script.from_bytes(W.rscript(a))
@op
def s_from_str(W, a, b, c): return W.n.Script.from_string(ref.script_text(I(W.w['scripts'][a % len(W.w['scripts'])])))
@op
def s_bad(W, a, b, c): return W.n.Script.from_bytes(hurt(W.rscript(a), c))
@op
def s_bad_str(W, a, b, c): return W.n.Script.from_string(hurt(ref.script_text(I(W.w['scripts'][a % len(W.w['scripts'])])), c, True))
@op
def s_hash(W, a, b, c): return [W.script(a).to_hash(), W.script(b).is_push_only(), W.script(c).is_script_hash_out()]
@op
def s_kind(W, a, b, c): return [type(W.n.Script.create(W.inslist(a))).__name__, W.script(b).get_structure(), W.n.Script.create(W.script(b).instructions), W.n.Script(W.inslist(c))]
@op
def s_get(W, a, b, c):
    s = W.script(a)
    k = type(s).__name__
    if k == 'PayToPubkeyIn':
        return [s.get_signature(), s.get_public_key()]
    if k == 'PayToPubkeyOut':
        return s.get_address_hash()
    if k == 'PayToScriptIn':
        return [s.get_signatures(), s.get_script()]
    if k == 'PayToScriptOut':
        return s.get_script_hash()
    if k == 'OpReturnOut':
        return s.get_data()
    if k == 'RedeemMultisig':
        return [s.get_min_signatures(), s.get_public_keys()]
    return repr(s)
@op
def s_eq(W, a, b, c): return [W.script(a) == W.script(b), W.script(a) in {W.script(b), W.script(c)}, W.script(a) == W.n.Script.from_bytes(W.rscript(a))]
@op
def s_compile(W, a, b, c): return W.n.Script.compile(W.plan(a))
@op
def s_push(W, a, b, c):
    n = [1, 20, 75, 76, 255, 256, 520][c % 7]
    i = W.n.Instruction.push_for(b'\x07' * n)
    return [i, i.to_bytes(), i.is_minimal_push(), i.to_string()]
@op
def s_templates(W, a, b, c):
    n = W.n
    return [n.PayToPubkeyOut.create(W.addr(a)), n.PayToScriptOut.create(W.script(b)), n.OpReturnOut.create(W.dig(c)),
            n.PayToPubkeyIn.create(W.pub(a), W.dig(b))]
@op
def s_multi(W, a, b, c):
    r = W.n.RedeemMultisig.create(W.pubs(a), 1 + c % 3)
    return [r, r.get_min_signatures(), W.n.PayToScriptIn.create(r, W.sigs(b))]
@op
def s_print(W, a, b, c): return [repr(W.script(a)), [i.to_string() for i in W.script(b).instructions], [i.opcode.name for i in W.script(c).instructions]]


# ---- transactions
@op
def t_bytes(W, a, b, c): return [W.tx(a).to_bytes(), W.tx(b).to_hex()]
@op
def t_id(W, a, b, c): return [W.tx(a).get_id(), W.tx(b).get_id_bytes()]
@op
def t_from_bytes(W, a, b, c): return W.n.Transaction.from_bytes(W.rtx(a))
@op
def t_from_hex(W, a, b, c): return W.n.Transaction.from_hex(W.rtx(a).hex()).get_id()
@op
def t_bad(W, a, b, c): return W.n.Transaction.from_bytes(hurt(W.rtx(a), c))
@op
def t_sign(W, a, b, c):
    t = W.tx(a)
    spec = W.w['txs'][a % len(W.w['txs'])]['ins']
    j = b % len(spec)
    ks = W.signers(a, j, c % 2)
    return t.sign(ks, j)
@op
def t_can_sign(W, a, b, c):
    t = W.tx(a)
    spec = W.w['txs'][a % len(W.w['txs'])]['ins']
    j = b % len(spec)
    ks = W.signers(a, j, c % 2) if c % 3 else W.keylist(a)[:c % 4]
    return t.inputs[j].can_sign(ks) if hasattr(t.inputs[j], 'can_sign') else None
@op
def t_replace(W, a, b, c): return W.tx(a).replace_inputs(W.tx(b).inputs)
@op
def t_new(W, a, b, c): return W.n.Transaction(W.inlist(a), W.outlist(b), W.tx(c).lock_time)
@op
def t_parts(W, a, b, c):
    t = W.tx(a)
    buf = W.n.Buffer(t.inputs[b % len(t.inputs)].to_bytes() + t.outputs[c % len(t.outputs)].to_bytes())
    return [W.n.Input.from_buffer(buf), W.n.Output.from_buffer(buf), len(buf)]
@op
def t_eq(W, a, b, c): return [W.tx(a) == W.tx(b), W.tx(a) in {W.tx(b), W.tx(c)}, W.tx(a).inputs[0] == W.tx(b).inputs[0]]
@op
def t_outs(W, a, b, c):
    n = W.n
    return [n.AddressOutput.create(1 + c, W.addr(a)), n.MultisigOutput.create(5000000000 + c, W.pubs(b), 1 + c % 2), n.MultisigInput.create(W.dig(a).hex(), c, W.pubs(a), 1 + c % 2), n.ScriptOutput.create(c, W.script(b)),
            n.DataOutput.create(W.dig(c)), n.AddressOutput.create(c, W.addr(b)).to_bytes()]
@op
def t_inputs(W, a, b, c):
    i = W.tx(a).inputs[b % len(W.tx(a).inputs)]
    return [i.remove_script(), i.replace_script(W.script(c)), i.to_hex()]
@op
def t_too_much(W, a, b, c): return W.n.DataOutput.create(b'\1' * (79 + c % 4))
@op
def t_in_bytes(W, a, b, c):
    t = W.tx(a)
    return [i.to_bytes() for i in t.inputs] + [o.to_bytes() for o in t.outputs]


# ---- hierarchical keys
@op
def h_str(W, a, b, c): return [W.hd(a).to_string(), W.hdp(b).to_string()]
@op
def h_derive(W, a, b, c): return W.hd(a).derive(c)
@op
def h_hard(W, a, b, c): return W.hd(a).derive(c % (1 << 31), hardened=True).to_string()
@op
def h_pub(W, a, b, c): return W.hd(a).to_hd_public_key().to_string()
@op
def h_from_str(W, a, b, c): return W.n.HDPrivateKey.from_string(W.rhd(a).string())
@op
def h_seed(W, a, b, c): return W.n.HDPrivateKey.from_seed(bytes.fromhex(W.w['hds'][a % len(W.w['hds'])]['seed']))
@op
def h_generate(W, a, b, c): return W.n.HDPrivateKey.from_seed().to_string()
@op
def h_addr(W, a, b, c): return W.hd(a).to_public_key().to_address().to_string()
@op
def hp_derive(W, a, b, c): return W.hdp(a).derive(c % (1 << 31))
@op
def hp_hard(W, a, b, c): return W.hdp(a).derive(c % (1 << 31), hardened=True)
@op
def hp_from_str(W, a, b, c): return W.n.HDPublicKey.from_string(W.rhd(a).public().string())
@op
def h_bad(W, a, b, c): return W.n.HDPrivateKey.from_string(hurt(W.rhd(a).string(), c, True))


# ---- payment requests, units
@op
def u_str(W, a, b, c): return [W.uri(a).to_uri(), repr(W.uri(b))]
@op
def u_parse(W, a, b, c):
    u = W.uri_args(W.w['uris'][a % len(W.w['uris'])])
    return W.n.URI('bitcoin:%s?amount=%d.%08d&label=a%%20b&q=%d' % (u['address'], u['amount'] // 10**8, u['amount'] % 10**8, c))
@op
def u_valid(W, a, b, c):
    u = W.uri_args(W.w['uris'][a % len(W.w['uris'])])
    return [W.n.URI.is_valid('bitcoin:' + u['address']), W.n.URI.is_valid(hurt('bitcoin:%s?amount=1.5' % u['address'], c, True))]
@op
def u_dict(W, a, b, c): return W.n.URI(W.uri_dict(a)).to_uri()
@op
def n_unit(W, a, b, c):
    u = W.n.Unit(satoshis=c)
    return [u, u.bits, u.mbtc, u.btc, W.n.Unit(btc=0.29).satoshis, W.n.Unit(bits=b).satoshis, str(u)]


# ---- exported curve and codec helpers
def _u(W): return W.n.mods['bitforge.utils']
def _x(W, a): return int(W.rkey(a)['s'], 16)
def _point(W, a):
    g = _u(W).generator_secp256k1
    x, y = ref.pub(_x(W, a))
    return _u(W).Point(g.curve(), x, y, g.order())
@op
def x_sign(W, a, b, c): return _u(W).sign(_u(W).generator_secp256k1, _x(W, a), int.from_bytes(W.dig(b), 'big'))
@op
def x_pub(W, a, b, c): return [_u(W).public_pair_for_secret_exponent(_u(W).generator_secp256k1, _x(W, a)), _u(W).public_pair_for_x(_u(W).generator_secp256k1, ref.pub(_x(W, b))[0], bool(c % 2))]
@op
def x_verify(W, a, b, c):
    d = W.dig(b)
    r_, s_ = ref.det_sign(_x(W, a), d)
    return bool(_u(W).verify(_u(W).generator_secp256k1, ref.pub(_x(W, a)), int.from_bytes(W.dig(b + c % 2), 'big'), (r_, s_)))
@op
def x_recover(W, a, b, c):
    d = W.dig(b)
    return sorted(tuple(q) for q in _u(W).possible_public_pairs_for_signature(_u(W).generator_secp256k1, int.from_bytes(d, 'big'), ref.det_sign(_x(W, a), d)))
@op
def x_sum(W, a, b, c):
    p, q = _point(W, a), _point(W, b)
    s = p + q
    return [s.pair(), (s + p).pair(), p.double().pair(), (p * (1 + c)).pair(), p.pair(), str(q)]
@op
def x_wif(W, a, b, c):
    E, k = _u(W).encoding, W.rkey(a)
    t = ref.wif(_x(W, a), 'livenet', k['c'])
    return [E.secret_exponent_to_wif(_x(W, a), k['c']), E.wif_to_tuple_of_secret_exponent_compressed(t), E.is_valid_wif(t), E.is_valid_wif(hurt(t, c, True))]
@op
def x_sec(W, a, b, c):
    E, k = _u(W).encoding, W.rkey(a)
    p = ref.pub(_x(W, a))
    return [E.public_pair_to_sec(p, k['c']), E.sec_to_public_pair(W.rsec(b)), E.is_sec_compressed(W.rsec(b)), E.public_pair_to_bitcoin_address(p, k['c']),
            E.is_valid_bitcoin_address(ref.addr(W.dig(c)[:20], 'livenet', 'p')), E.public_pair_to_hash160_sec(p, not k['c'])]
@op
def x_bad(W, a, b, c): return _u(W).encoding.sec_to_public_pair(hurt(W.rsec(a), c))
@op
def x_format(W, a, b, c):
    d = ref.sign(_x(W, a), W.dig(b), 1 + c % 1000) + bytes([1 + c % 3])
    f = W.n.mods['bitforge.signature'].validate_signature
    return [f(d), f(hurt(d, c))]


# ---- script checks
PAIRS = [
    ([(81, None)], [(82, None), (147, None), (83, None), (135, None)]),
    ([(2, b'hi')], [(168, None), (32, ref.sha256(b'hi')), (135, None)]),
    ([(2, b'ho')], [(168, None), (32, ref.sha256(b'hi')), (135, None)]),
    ([(0, None)], [(99, None), (81, None), (103, None), (82, None), (104, None), (82, None), (135, None)]),
    ([(81, None), (82, None), (83, None)], [(123, None), (81, None), (136, None), (147, None), (85, None), (135, None)]),
    ([(1, b'\x51')], [(169, None), (20, ref.hash160(b'\x51')), (135, None)]),
    ([(1, b'\x00')], [(169, None), (20, ref.hash160(b'\x00')), (135, None)]),
    ([(81, None), (81, None)], [(135, None), (118, None), (124, None), (154, None), (145, None), (145, None)]),
    ([(0, None)], [(105, None), (81, None)]),
    ([], [(104, None)]),
    ([(4, b'\xff\xff\xff\x7f')], [(139, None), (130, None), (85, None), (135, None)]),
]
@op
def i_verify(W, a, b, c):
    s, p = PAIRS[a % len(PAIRS)]
    return W.n.Interpreter().verify(W.n.Script.from_bytes(ref.script_bytes(s)), W.n.Script.from_bytes(ref.script_bytes(p)), flags=[0, 1, 1, 0x41][b % 4])


# ---- encodings, tables
@op
def e_ints(W, a, b, c):
    e = W.n.enc
    return [e.encode_int(c), e.encode_int(b, length=4, big_endian=False), e.decode_int(W.dig(a)), e.encode_varint(c), e.encode_varint([252, 253, 65535, 65536, 1 << 32][b % 5])]
@op
def e_nums(W, a, b, c):
    e = W.n.enc
    n = [0, 1, -1, 127, 128, -128, 255, 256, c, -c][b % 10]
    return [e.encode_script_number(n), e.decode_script_number(ref.num_enc(n), True, 8)]
@op
def e_text(W, a, b, c):
    e = W.n.enc
    return [e.encode_base58h(W.dig(a)), e.decode_base58h(ref.b58c_enc(W.dig(b))), e.encode_hex(W.dig(a)), e.decode_hex(W.w['digs'][b % 3]), e.hash160(W.dig(c)), e.sha256(W.dig(a)), e.sha1(W.dig(b))]
@op
def e_buffer(W, a, b, c):
    buf = W.n.Buffer(W.dig(a))
    x = [buf.read(3), buf.read(b % 5)]
    buf.write(W.dig(c))
    return x + [bytes(buf), len(buf), buf.read_varint()]
@op
def e_short(W, a, b, c): return W.n.Buffer(W.dig(a)).read(33)
@op
def n_find(W, a, b, c):
    f = W.n.networks.find
    return [f('testnet').name, f(0, 'pubkeyhash').name, f(196, 'scripthash').name, f(c, 'wif_prefix', raises=False), f(W.n.networks.livenet).name]
@op
def n_unknown(W, a, b, c): return W.n.networks.find('net%d' % c)
@op
def o_names(W, a, b, c):
    O = W.n.Opcode
    x = ref.NAMED[c % len(ref.NAMED)]
    return [O.from_name(O(x).name), O(x).name, O.for_number(b % 17), O(a % 256).is_push(), repr(O(b % 256)), O(a % 256) < O(b % 256), O(x) == O(x), O(82).number_value()]
@op
def o_bad(W, a, b, c): return W.n.Opcode.from_name('OP_NOT%d' % c)


NAMES = list(OPS)
WEIGHT = {'t_sign': 3, 'k_sign': 2, 'i_verify': 2, 's_get': 3, 's_from_str': 2, 't_from_bytes': 2, 'h_derive': 2, 'hp_derive': 2, 's_kind': 2, 's_multi': 2}


def gen_op(r, pool=None):
    if pool and r.chance(.3):
        o = list(r.pick(pool))
        if r.chance(.7):
            i = r.randrange(1, 4)
            o[i] = o[i] ^ 1 if r.chance(.5) else r.getrandbits(31)
        return o
    name = r.weighted([(n, WEIGHT.get(n, 1)) for n in NAMES])
    c = r.weighted([(r.getrandbits(31), 3), (r.getrandbits(3), 4), ((1 << 31) + r.getrandbits(4), 1), ((1 << 31) - 1, .5)])
    return [name, r.getrandbits(8), r.getrandbits(8), c]


SURVEY = []


def survey():
    """Which functions that touch shared or lasting state (touch.py) does each operation reach?  A function of the code alone,
    worked out once per process, before the run's own simulation begins."""
    if SURVEY:
        return SURVEY[0]
    r = R(20)
    sim = core.Sim({'gran': 'line'})
    found = {}
    args = [[r.getrandbits(8), r.getrandbits(8), r.getrandbits(31)] for _ in range(3)]
    for name in NAMES:
        n = sim.boot()
        W_ = W(n, gen_world(R(21)))
        for k, a in enumerate(args):
            sim.ctx.touched = set()
            try:
                core.run_op(sim.ctx, n, lambda: OPS[name](W_, *a), None, core.Entropy({'pre': [], 'seed': 'survey%d' % k}), count=True)
            except core.Violation:
                pass
            for x in sim.ctx.touched:
                found.setdefault(core._Code.names[x], set()).add(name)
    strong = {core._Code.names[k] for k, v in core._Code.points.items() if v[2]}
    SURVEY.append(sorted((k, sorted(v), k in strong) for k, v in found.items()))
    core.CUR = None
    return SURVEY[0]


def gen_focus(r, pool):
    """aim a run at one function that touches shared state: [which, per operation: keep or which op of those reaching it, scope]"""
    if not r.chance(.4):
        return None
    return [round(r.random(), 6), [round(r.random(), 4) if r.chance(.75) else None for _ in pool], r.pick(['code', 'module'])]


def apply_focus(plan):
    """the operations of the plan, aimed as it says; a function of plan and code"""
    pool, focus = [list(o) for o in plan['pool']], plan.get('focus')
    s = SURVEY[0] if SURVEY else []
    if not focus or not s:
        return pool, None
    total = sum(8 if strong else 1 for _, _, strong in s)
    at = focus[0] * total
    for key, names, strong in s:
        at -= 8 if strong else 1
        if at < 0:
            break
    for o, x in zip(pool, focus[1]):
        if x is not None:
            o[0] = names[int(x * len(names)) % len(names)]
    return pool, frozenset(k for k, _, _ in s if k == key or focus[2] == 'module' and k[0] == key[0])


def tables(n):
    """the library's own tables and constants, as plain data; what is not there (any more) is left out"""
    out = {}
    M = n.mods

    def put(name, f):
        try:
            out[name] = view(f())
        except (AttributeError, KeyError, TypeError):
            pass
    for net in ('livenet', 'testnet', 'default'):
        put(net, lambda: tuple(getattr(n.networks, net)))
    put('opnames', lambda: [n.Opcode(i).name for i in range(256)])
    put('found', lambda: [n.networks.find(v, a).name for v, a in (('livenet', 'name'), ('testnet', 'name'), (0, 'pubkeyhash'), (111, 'pubkeyhash'), (5, 'scripthash'), (196, 'scripthash'), (128, 'wif_prefix'), (239, 'wif_prefix'))])
    put('ops', lambda: sorted((k, v.number) for k, v in vars(M['bitforge.script.opcode']).items() if k.startswith('OP_')))
    I_ = n.Interpreter
    put('true', lambda: [bytes(I_.true), bytes(I_.false), bytes(I_.bool_bytes[True]), bytes(I_.bool_bytes[False])])
    put('flags', lambda: sorted((k, v) for k, v in vars(I_).items() if k.startswith('SCRIPT_VERIFY_')))
    put('maxel', lambda: [I_.MAX_SCRIPT_ELEMENT_SIZE])
    put('keymax', lambda: [M['bitforge.privkey'].KEY_MAX])
    put('unit', lambda: [n.Unit.btc, n.Unit.mbtc, n.Unit.bits, n.Unit.satoshis])
    put('gen', lambda: [M['bitforge.utils'].generator_secp256k1.x(), M['bitforge.utils'].generator_secp256k1.y(), M['bitforge.utils'].generator_secp256k1.order()])
    put('kinds', lambda: [k.__name__ for k in M['bitforge.script.script'].SCRIPT_SUBCLASSES])
    return out
