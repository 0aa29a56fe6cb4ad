"""Independent reference model of the Bitcoin rules the properties speak about.

Nothing here imports bitforge.  Hash functions are captured at import time, before the
simulator puts its failing-hash seam in place, so injected faults never reach the oracle.
"""
import hashlib as _hl
import hmac as _hmac_mod

_sha256 = _hl.sha256
_sha1 = _hl.sha1
_sha512 = _hl.sha512
_hnew = _hl.new
_hmac_new = _hmac_mod.new


def sha256(b): return _sha256(bytes(b)).digest()
def sha1(b): return _sha1(bytes(b)).digest()
def dsha(b): return sha256(sha256(b))
def ripemd160(b): return _hnew('ripemd160', bytes(b)).digest()
def hash160(b): return ripemd160(sha256(b))
def hmac512(k, m): return _hmac_new(k, m, _sha512).digest()


# ---------------------------------------------------------------- base58 / base58check
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58enc(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    for x in b:
        if x:
            break
        s = '1' + s
    return s


def b58dec(s):
    """bytes or None"""
    n = 0
    for c in s:
        i = B58.find(c)
        if i < 0 or len(c) != 1:
            return None
        n = n * 58 + i
    lead = len(s) - len(s.lstrip('1'))
    body = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return b'\0' * lead + body


def b58c_enc(b): return b58enc(b + dsha(b)[:4])


def b58c_dec(s):
    b = b58dec(s)
    if b is None or len(b) < 4 or dsha(b[:-4])[:4] != b[-4:]:
        return None
    return b[:-4]


# ---------------------------------------------------------------- networks
NETS = {
    'livenet': dict(pkh=0x00, sh=0x05, wif=0x80, xpub=0x0488b21e, xprv=0x0488ade4),
    'testnet': dict(pkh=111, sh=196, wif=239, xpub=0x043587cf, xprv=0x04358394),
}


def net_by(field, value):
    for n, d in NETS.items():
        if d[field] == value:
            return n
    return None


# ---------------------------------------------------------------- secp256k1
P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
GX = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798
GY = 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8
G = (GX, GY)


def on_curve(pt):
    x, y = pt
    return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


def _jdbl(p):
    x, y, z = p
    if not y:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return (x2, (m * (s - x2) - 8 * y * y * y * y) % P, 2 * y * z % P)


def _jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    z1, z2 = p[2] * p[2] % P, q[2] * q[2] % P
    u1, u2 = p[0] * z2 % P, q[0] * z1 % P
    s1, s2 = p[1] * z2 * q[2] % P, q[1] * z1 * p[2] % P
    if u1 == u2:
        return _jdbl(p) if s1 == s2 else (0, 1, 0)
    h, r = u2 - u1, s2 - s1
    h2 = h * h % P
    h3 = h * h2 % P
    v = u1 * h2 % P
    x3 = (r * r - h3 - 2 * v) % P
    return (x3, (r * (v - x3) - s1 * h3) % P, h * p[2] * q[2] % P)


def _aff(p):
    if not p[2]:
        return None
    zi = pow(p[2], -1, P)
    z2 = zi * zi % P
    return (p[0] * z2 % P, p[1] * z2 * zi % P)


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return _aff(_jadd((a[0], a[1], 1), (b[0], b[1], 1)))


_GT = []


def _gtab():
    if not _GT:
        base = (GX, GY, 1)
        for _ in range(64):
            row = [(0, 1, 0)]
            for _ in range(15):
                row.append(_jadd(row[-1], base))
            # affine rows make later additions cheaper
            row = [row[0]] + [(*_aff(q), 1) for q in row[1:]]
            _GT.append(row)
            for _ in range(4):
                base = _jdbl(base)
    return _GT


_PT = {}


def _ptab(pt):
    """multiples of a point that keeps being used (a pure cache)"""
    t = _PT.get(pt, 0)
    if isinstance(t, int):
        if t < 2:
            if len(_PT) > 400:
                _PT.clear()
            _PT[pt] = t + 1
            return None
        base, rows = (pt[0], pt[1], 1), []
        for _ in range(16):
            row = [(0, 1, 0), base]
            for _ in range(14):
                row.append(_jadd(row[-1], base))
            rows.append(row)
            for _ in range(16):
                base = _jdbl(base)
        t = _PT[pt] = rows
    return t


def mul(k, pt=None):
    """k*pt (pt defaults to the generator); None is the point at infinity."""
    k %= N
    if k == 0:
        return None
    if pt is None or pt == G:
        r = (0, 1, 0)
        t = _gtab()
        i = 0
        while k:
            d = k & 15
            if d:
                r = _jadd(r, t[i][d])
            k >>= 4
            i += 1
        return _aff(r)
    t = _ptab(pt)
    if t is not None:                      # 16 sub-scalars of 16 bits share 12 doublings
        r = (0, 1, 0)
        for sh in (12, 8, 4, 0):
            if r[2]:
                r = _jdbl(_jdbl(_jdbl(_jdbl(r))))
            v = k >> sh
            for row in t:
                d = v & 15
                if d:
                    r = _jadd(r, row[d])
                v >>= 16
        return _aff(r)
    tab = [(0, 1, 0), (pt[0], pt[1], 1)]
    for _ in range(14):
        tab.append(_jadd(tab[-1], tab[1]))
    r = (0, 1, 0)
    for sh in range(252, -1, -4):
        if r[2]:
            r = _jdbl(_jdbl(_jdbl(_jdbl(r))))
        d = (k >> sh) & 15
        if d:
            r = _jadd(r, tab[d])
    return _aff(r)


_pubcache = {}


def pub(secret):
    """affine public point of a secret (memoised: a pure function)"""
    p = _pubcache.get(secret)
    if p is None:
        p = _pubcache[secret] = mul(secret)
        if len(_pubcache) > 20000:
            _pubcache.clear()
    return p


def sec(pt, compressed=True):
    if compressed:
        return bytes([2 + (pt[1] & 1)]) + pt[0].to_bytes(32, 'big')
    return b'\4' + pt[0].to_bytes(32, 'big') + pt[1].to_bytes(32, 'big')


def unsec(b):
    """(point, compressed) of a canonical SEC encoding, or None"""
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        if x >= P:
            return None
        a = (x * x * x + 7) % P
        y = pow(a, (P + 1) // 4, P)
        if y * y % P != a:
            return None
        if (y & 1) != (b[0] & 1):
            y = P - y
        return ((x, y), True)
    if len(b) == 65 and b[0] == 4:
        pt = (int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big'))
        return (pt, False) if on_curve(pt) else None
    return None


def ecdsa_ok(pt, digest, r, s):
    if not (1 <= r < N and 1 <= s < N):
        return False
    e = int.from_bytes(digest, 'big')
    w = pow(s, -1, N)
    q = add(mul(e * w % N), mul(r * w % N, pt))
    return q is not None and q[0] % N == r


def der_strict(sig):
    """(r, s) of a strict (BIP66) DER signature without hash type, or None"""
    n = len(sig)
    if n < 8 or n > 72 or sig[0] != 0x30 or sig[1] != n - 2:
        return None
    lr = sig[3]
    if sig[2] != 2 or lr == 0 or 5 + lr >= n:
        return None
    ls = sig[5 + lr]
    if sig[4 + lr] != 2 or ls == 0 or lr + ls + 6 != n:
        return None
    rb, sb = sig[4:4 + lr], sig[6 + lr:]
    for b in (rb, sb):
        if b[0] & 0x80 or (len(b) > 1 and b[0] == 0 and not b[1] & 0x80):
            return None
    return int.from_bytes(rb, 'big'), int.from_bytes(sb, 'big')


def der_enc(r, s):
    def i(v):
        b = v.to_bytes((v.bit_length() + 8) // 8 or 1, 'big')
        return b'\2' + bytes([len(b)]) + b
    body = i(r) + i(s)
    return b'\x30' + bytes([len(body)]) + body


def sign(secret, digest, k):
    R = mul(k)
    r = R[0] % N
    s = pow(k, -1, N) * (int.from_bytes(digest, 'big') + r * secret) % N
    if s > N // 2:
        s = N - s
    return der_enc(r, s)


# ---------------------------------------------------------------- wallet strings
def wif(secret, net, compressed):
    return b58c_enc(bytes([NETS[net]['wif']]) + secret.to_bytes(32, 'big') + (b'\1' if compressed else b''))


def unwif(s):
    b = b58c_dec(s)
    if b is None or len(b) not in (33, 34):
        return None
    if len(b) == 34 and b[33] != 1:
        return None
    net = net_by('wif', b[0])
    k = int.from_bytes(b[1:33], 'big')
    if net is None or not 0 < k < N:
        return None
    return (k, net, len(b) == 34)


def addr_bytes(h, net, kind): return bytes([NETS[net]['pkh' if kind == 'pkh' else 'sh']]) + h


def addr(h, net, kind): return b58c_enc(addr_bytes(h, net, kind))


def unaddr_bytes(b):
    if b is None or len(b) != 21:
        return None
    for kind in ('pkh', 'sh'):
        net = net_by(kind, b[0])
        if net:
            return (b[1:], net, kind)
    return None


def unaddr(s): return unaddr_bytes(b58c_dec(s))


def key_addr(secret, net, compressed): return addr(hash160(sec(pub(secret), compressed)), net, 'pkh')


# ---------------------------------------------------------------- wire format
class Short(Exception):
    """bytes ran out"""


class Bad(Exception):
    """bytes denote no object"""


def varint(n):
    if n < 253:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


class Rd:
    def __init__(self, b):
        self.b, self.i, self.canon = bytes(b), 0, True

    def take(self, n):
        if self.i + n > len(self.b):
            raise Short()
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def le(self, n): return int.from_bytes(self.take(n), 'little')

    def varint(self):
        n = self.take(1)[0]
        if n < 253:
            return n
        v = self.le({253: 2, 254: 4, 255: 8}[n])
        if v < {253: 253, 254: 0x10000, 255: 0x100000000}[n]:
            self.canon = False
        return v


def script_parse(b):
    """[(opcode, data or None)]; Bad when a push is cut short"""
    r, out = Rd(b), []
    try:
        while r.i < len(r.b):
            op = r.take(1)[0]
            if 1 <= op <= 75:
                out.append((op, r.take(op)))
            elif 76 <= op <= 78:
                out.append((op, r.take(r.le({76: 1, 77: 2, 78: 4}[op]))))
            else:
                out.append((op, None))
    except Short:
        raise Bad('push beyond end of script')
    return out


def script_bytes(instrs):
    out = bytearray()
    for op, data in instrs:
        out.append(op)
        if 76 <= op <= 78:
            out += len(data).to_bytes({76: 1, 77: 2, 78: 4}[op], 'little')
        if data is not None:
            out += data
    return bytes(out)


def push_op(n):
    return n if 1 <= n <= 75 else 76 if n <= 255 else 77 if n <= 65535 else 78


def push(data): return (push_op(len(data)), bytes(data))


def read_input(r):
    txid = r.take(32)[::-1].hex()
    ix = r.le(4)
    sb = r.take(r.varint())
    return dict(id=txid, ix=ix, script=sb, seq=r.le(4))


def read_output(r):
    amt = r.le(8)
    return dict(amt=amt, script=r.take(r.varint()))


def read_tx(r):
    v = r.le(4)
    ni = r.varint()
    ins = []
    for _ in range(ni):
        ins.append(read_input(r))
    no = r.varint()
    outs = []
    for _ in range(no):
        outs.append(read_output(r))
    return {'v': v, 'in': ins, 'out': outs, 'lt': r.le(4)}


def input_bytes(i):
    return bytes.fromhex(i['id'])[::-1] + i['ix'].to_bytes(4, 'little') + varint(len(i['script'])) + i['script'] + i['seq'].to_bytes(4, 'little')


def output_bytes(o):
    return o['amt'].to_bytes(8, 'little') + varint(len(o['script'])) + o['script']


def tx_bytes(t):
    return (t['v'].to_bytes(4, 'little') + varint(len(t['in'])) + b''.join(map(input_bytes, t['in']))
            + varint(len(t['out'])) + b''.join(map(output_bytes, t['out'])) + t['lt'].to_bytes(4, 'little'))


def txid(b): return dsha(b)[::-1].hex()


def sighash(t, n, code, ht):
    """Bitcoin's signature hash for every hash type"""
    ins, outs, base = [dict(i, script=(code if k == n else b'')) for k, i in enumerate(t['in'])], t['out'], ht & 0x1f
    if base in (2, 3):
        ins = [i if k == n else dict(i, seq=0) for k, i in enumerate(ins)]
    if base == 2:
        outs = []
    if base == 3:
        if n >= len(outs):
            return b'\1' + b'\0' * 31
        outs = [dict(amt=2**64 - 1, script=b'')] * n + [outs[n]]
    if ht & 0x80:
        ins = [ins[n]]
    return dsha(tx_bytes(dict(t, **{'in': ins, 'out': outs})) + ht.to_bytes(4, 'little'))


def sighash_flat(t, n, code, ht):
    """what bitforge signs for types other than ALL (a known finding of C07): everything, as for ALL"""
    return dsha(tx_bytes(dict(t, **{'in': [dict(i, script=(code if k == n else b'')) for k, i in enumerate(t['in'])]})) + ht.to_bytes(4, 'little'))


# ---------------------------------------------------------------- script templates
def p2pkh(h): return script_bytes([(118, None), (169, None), push(h), (136, None), (172, None)])
def p2sh(h): return script_bytes([(169, None), push(h), (135, None)])
def opreturn(d): return script_bytes([(106, None), push(d)])


def num_op(n): return (0 if n == 0 else 80 + n, None)


def multisig(m, pubs):
    return script_bytes([num_op(m)] + [push(p) for p in pubs] + [num_op(len(pubs)), (174, None)])


OPNAMES = {
    0: 'OP_0', 76: 'OP_PUSHDATA1', 77: 'OP_PUSHDATA2', 78: 'OP_PUSHDATA4', 79: 'OP_1NEGATE', 80: 'OP_RESERVED',
    97: 'OP_NOP', 99: 'OP_IF', 100: 'OP_NOTIF', 103: 'OP_ELSE', 104: 'OP_ENDIF', 105: 'OP_VERIFY', 106: 'OP_RETURN',
    107: 'OP_TOALTSTACK', 108: 'OP_FROMALTSTACK', 109: 'OP_2DROP', 110: 'OP_2DUP', 111: 'OP_3DUP', 112: 'OP_2OVER',
    113: 'OP_2ROT', 114: 'OP_2SWAP', 115: 'OP_IFDUP', 116: 'OP_DEPTH', 117: 'OP_DROP', 118: 'OP_DUP', 119: 'OP_NIP',
    120: 'OP_OVER', 121: 'OP_PICK', 122: 'OP_ROLL', 123: 'OP_ROT', 124: 'OP_SWAP', 125: 'OP_TUCK', 126: 'OP_CAT',
    127: 'OP_SUBSTR', 128: 'OP_LEFT', 129: 'OP_RIGHT', 130: 'OP_SIZE', 131: 'OP_INVERT', 132: 'OP_AND', 133: 'OP_OR',
    134: 'OP_XOR', 135: 'OP_EQUAL', 136: 'OP_EQUALVERIFY', 137: 'OP_RESERVED1', 138: 'OP_RESERVED2', 139: 'OP_1ADD',
    140: 'OP_1SUB', 141: 'OP_2MUL', 142: 'OP_2DIV', 143: 'OP_NEGATE', 144: 'OP_ABS', 145: 'OP_NOT', 146: 'OP_0NOTEQUAL',
    147: 'OP_ADD', 148: 'OP_SUB', 149: 'OP_MUL', 150: 'OP_DIV', 151: 'OP_MOD', 152: 'OP_LSHIFT', 153: 'OP_RSHIFT',
    154: 'OP_BOOLAND', 155: 'OP_BOOLOR', 156: 'OP_NUMEQUAL', 157: 'OP_NUMEQUALVERIFY', 158: 'OP_NUMNOTEQUAL',
    159: 'OP_LESSTHAN', 160: 'OP_GREATERTHAN', 161: 'OP_LESSTHANOREQUAL', 162: 'OP_GREATERTHANOREQUAL', 163: 'OP_MIN',
    164: 'OP_MAX', 165: 'OP_WITHIN', 166: 'OP_RIPEMD160', 167: 'OP_SHA1', 168: 'OP_SHA256', 169: 'OP_HASH160',
    170: 'OP_HASH256', 171: 'OP_CODESEPARATOR', 172: 'OP_CHECKSIG', 173: 'OP_CHECKSIGVERIFY', 174: 'OP_CHECKMULTISIG',
    175: 'OP_CHECKMULTISIGVERIFY', 176: 'OP_NOP1', 177: 'OP_CHECKLOCKTIMEVERIFY',
    253: 'OP_PUBKEYHASH', 254: 'OP_PUBKEY', 255: 'OP_INVALIDOPCODE',
}
OPNAMES.update({80 + i: 'OP_%d' % i for i in range(1, 17)})
OPNAMES.update({175 + i: 'OP_NOP%d' % i for i in range(3, 11)})
NAMEOPS = {v: k for k, v in OPNAMES.items()}
NAMEOPS.update(OP_FALSE=0, OP_TRUE=81)
NAMED = sorted(k for k in OPNAMES if not 76 <= k <= 78)      # named and not a push


def script_text(instrs):
    out = []
    for op, d in instrs:
        if 1 <= op <= 75:
            out.append('%d 0x%s' % (op, d.hex()))
        elif 76 <= op <= 78:
            out.append('%s %d 0x%s' % (OPNAMES[op], len(d), d.hex()))
        else:
            out.append(OPNAMES[op])
    return ' '.join(out)


def _hex(s):
    if len(s) % 2 or any(c not in '0123456789abcdefABCDEF' for c in s):
        return None
    return bytes.fromhex(s)


def script_untext(s):
    """instructions, or Bad.  Raises Short (grey) where the text is odd but not wrong."""
    if s == '':
        return []
    toks = s.split(' ')
    out, i = [], 0

    def dec(t):
        if t.isascii() and t.isdigit():
            z = t.lstrip('0')
            if len(z) > 12:
                raise Bad('number')
            if len(t) > 4000:
                raise Short('grey: thousands of leading zeros')
            return int(z or '0')
        raise Bad('number')

    def nxt():
        nonlocal i
        if i >= len(toks):
            raise Bad('missing argument')
        i += 1
        return toks[i - 1]

    def hexarg():
        t = nxt()
        if not t.startswith('0x'):
            raise Bad('hex')
        b = _hex(t[2:])
        if b is None:
            raise Bad('hex')
        return b

    while i < len(toks):
        t = nxt()
        if t in NAMEOPS:
            op = NAMEOPS[t]
            if 76 <= op <= 78:
                n = dec(nxt())
                d = hexarg()
                if n != len(d) or n >= 1 << (8 * {76: 1, 77: 2, 78: 4}[op]):
                    raise Bad('length')
                out.append((op, d))
            else:
                out.append((op, None))
        else:
            n = dec(t)
            if not 1 <= n <= 75:
                raise Bad('push size')
            d = hexarg()
            if len(d) != n:
                raise Bad('length')
            out.append((n, d))
    return out


def classify(instrs):
    st = ['P' if 1 <= op <= 78 else op for op, _ in instrs]
    num = lambda o: o == 0 or (o != 'P' and 81 <= o <= 96)
    if st == ['P', 'P']:
        return 'PayToPubkeyIn'
    if st == [118, 169, 'P', 136, 172]:
        return 'PayToPubkeyOut'
    if len(st) > 2 and st[0] == 0 and all(x == 'P' for x in st[1:]):
        return 'PayToScriptIn'
    if st == [169, 'P', 135]:
        return 'PayToScriptOut'
    if st == [106, 'P']:
        return 'OpReturnOut'
    if len(st) >= 4 and num(st[0]) and num(st[-2]) and st[-1] == 174 and all(x == 'P' for x in st[1:-2]):
        return 'RedeemMultisig'
    return 'Script'


# ---------------------------------------------------------------- script machine
F_P2SH, F_STRICTENC, F_DERSIG, F_LOW_S, F_NULLDUMMY, F_PUSHONLY, F_MINIMAL, F_NOPS = (1 << i for i in range(8))
F_CLTV = 1 << 9


def castbool(b, quirk=False):
    if quirk:                       # the known finding: only the first byte is looked at
        return len(b) > 0 and b[0] != 0 and not (len(b) == 1 and b[0] == 0x80)
    for i, x in enumerate(b):
        if x:
            return not (i == len(b) - 1 and x == 0x80)
    return False


def num_enc(n):
    if n == 0:
        return b''
    a = abs(n)
    out = bytearray(a.to_bytes((a.bit_length() + 7) // 8, 'little'))
    if out[-1] & 0x80:
        out.append(0)
    if n < 0:
        out[-1] |= 0x80
    return bytes(out)


def num_dec(b, minimal, size=4):
    """int, or None when refused"""
    if len(b) > size:
        return None
    if minimal and b and not b[-1] & 0x7f and (len(b) == 1 or not b[-2] & 0x80):
        return None
    if not b:
        return 0
    n = int.from_bytes(b, 'little')
    if b[-1] & 0x80:
        n = -(n & ~(0x80 << (8 * (len(b) - 1))))
    return n


def minimal_push(op, d):
    if d is None:
        return True
    if len(d) == 0:
        return op == 0
    if len(d) == 1 and 1 <= d[0] <= 16:
        return op == 80 + d[0]
    if len(d) == 1 and d[0] == 0x81:
        return op == 79
    if len(d) <= 75:
        return op == len(d)
    if len(d) <= 255:
        return op == 76
    if len(d) <= 65535:
        return op == 77
    return True


DISABLED = {126, 127, 128, 129, 131, 132, 133, 134, 141, 142, 149, 150, 151, 152, 153}


class Machine:
    """Bitcoin's EvalScript/VerifyScript.  sigcheck(sig, pubkey, code) -> bool."""

    def __init__(self, flags=0, quirk=False, sigcheck=None, cltv=None):
        self.flags, self.quirk = flags, quirk
        self.sigcheck = sigcheck or (lambda sig, key, code: False)
        self.cltv = cltv or (lambda n: False)
        self.used_sig = False        # a signature was looked at or a lock time compared
        self.why = ''

    def truth(self, b): return castbool(b, self.quirk)

    def enc_ok(self, sig, key):
        f = self.flags
        if f & (F_STRICTENC | F_DERSIG | F_LOW_S) and len(sig):
            rs = der_strict(sig[:-1])
            if rs is None:
                return False
            if f & F_LOW_S and rs[1] > N // 2:
                return False
            if f & F_STRICTENC and sig[-1] & ~0x80 not in (1, 2, 3):
                return False
        if f & F_STRICTENC and not ((len(key) == 33 and key[0] in (2, 3)) or (len(key) == 65 and key[0] == 4)):
            return False
        return True

    def eval(self, instrs, stack):
        """final (stack, altstack), or None on failure.  stack is a list of bytes, not modified."""
        S, A, V = list(stack), [], []
        ops = 0
        code_from = 0
        fl, minimal = self.flags, bool(self.flags & F_MINIMAL)
        if len(script_bytes(instrs)) > 10000:
            self.why = 'script size'
            return None

        def fail(why):
            self.why = why
            return None

        for pc, (op, d) in enumerate(instrs):
            ex = all(V)
            if d is not None and len(d) > 520:
                return fail('push size')
            if op > 96:
                ops += 1
                if ops > 201:
                    return fail('op count')
            if op in DISABLED:
                return fail('disabled')
            n = len(S)
            if op <= 78:
                if ex:
                    if minimal and not minimal_push(op, d):
                        return fail('minimal push')
                    S.append(d or b'')
            elif not ex and not 99 <= op <= 104:
                pass
            elif op == 79 or 81 <= op <= 96:
                S.append(num_enc(op - 80))
            elif op == 97:
                pass
            elif op == 177:
                if not fl & F_CLTV:
                    if fl & F_NOPS:
                        return fail('upgradable nop')
                else:
                    self.used_sig = True
                    if n < 1:
                        return fail('stack')
                    v = num_dec(S[-1], minimal, 5)
                    if v is None or v < 0 or not self.cltv(v):
                        return fail('locktime')
            elif op == 176 or 178 <= op <= 185:
                if fl & F_NOPS:
                    return fail('upgradable nop')
            elif op in (99, 100):
                val = False
                if ex:
                    if n < 1:
                        return fail('unbalanced')
                    val = self.truth(S.pop())
                    if op == 100:
                        val = not val
                V.append(val)
            elif op == 103:
                if not V:
                    return fail('unbalanced')
                V[-1] = not V[-1]
            elif op == 104:
                if not V:
                    return fail('unbalanced')
                V.pop()
            elif op == 105:
                if n < 1:
                    return fail('stack')
                if not self.truth(S.pop()):
                    return fail('verify')
            elif op == 106:
                return fail('return')
            elif op == 107:
                if n < 1:
                    return fail('stack')
                A.append(S.pop())
            elif op == 108:
                if not A:
                    return fail('altstack')
                S.append(A.pop())
            elif op in _STACKOPS:
                need, f = _STACKOPS[op]
                if n < need:
                    return fail('stack')
                args = S[n - need:]
                S[n - need:] = f(*args)
            elif op == 115:
                if n < 1:
                    return fail('stack')
                if self.truth(S[-1]):
                    S.append(S[-1])
            elif op == 116:
                S.append(num_enc(n))
            elif op in (121, 122):
                if n < 2:
                    return fail('stack')
                k = num_dec(S.pop(), minimal)
                if k is None or k < 0 or k >= n - 1:
                    return fail('pick')
                S.append(S[-k - 1] if op == 121 else S.pop(-k - 1))
            elif op == 130:
                if n < 1:
                    return fail('stack')
                S.append(num_enc(len(S[-1])))
            elif op in (135, 136):
                if n < 2:
                    return fail('stack')
                eq = S.pop() == S.pop()
                if op == 136:
                    if not eq:
                        return fail('equalverify')
                else:
                    S.append(b'\1' if eq else b'')
            elif op in (139, 140, 143, 144, 145, 146):
                if n < 1:
                    return fail('stack')
                a = num_dec(S[-1], minimal)
                if a is None:
                    return fail('number')
                S[-1] = num_enc({139: a + 1, 140: a - 1, 143: -a, 144: abs(a), 145: int(a == 0), 146: int(a != 0)}[op])
            elif op in (147, 148) or 154 <= op <= 164:
                if n < 2:
                    return fail('stack')
                a, b = num_dec(S[-2], minimal), num_dec(S[-1], minimal)
                if a is None or b is None:
                    return fail('number')
                del S[-2:]
                r = {147: a + b, 148: a - b, 154: int(a != 0 and b != 0), 155: int(a != 0 or b != 0),
                     156: int(a == b), 157: int(a == b), 158: int(a != b), 159: int(a < b), 160: int(a > b),
                     161: int(a <= b), 162: int(a >= b), 163: min(a, b), 164: max(a, b)}[op]
                if op == 157:
                    if not r:
                        return fail('numequalverify')
                else:
                    S.append(num_enc(r))
            elif op == 165:
                if n < 3:
                    return fail('stack')
                v = [num_dec(x, minimal) for x in S[-3:]]
                if None in v:
                    return fail('number')
                S[-3:] = [b'\1' if v[1] <= v[0] < v[2] else b'']
            elif 166 <= op <= 170:
                if n < 1:
                    return fail('stack')
                S[-1] = {166: ripemd160, 167: sha1, 168: sha256, 169: hash160, 170: dsha}[op](S[-1])
            elif op == 171:
                code_from = pc + 1
            elif op in (172, 173):
                self.used_sig = True
                if n < 2:
                    return fail('stack')
                key, sig = S.pop(), S.pop()
                if not self.enc_ok(sig, key):
                    return fail('sig encoding')
                code = script_bytes([i for i in instrs[code_from:] if i[1] != sig])
                ok = bool(sig) and self.sigcheck(sig, key, code)
                if op == 173:
                    if not ok:
                        return fail('checksigverify')
                else:
                    S.append(b'\1' if ok else b'')
            elif op in (174, 175):
                if n < 1:
                    return fail('stack')
                nk = num_dec(S[-1], minimal)
                if nk is None or not 0 <= nk <= 20:
                    return fail('pubkey count')
                ops += nk
                if ops > 201:
                    return fail('op count')
                if n < nk + 2:
                    return fail('stack')
                ns = num_dec(S[-nk - 2], minimal)
                if ns is None or not 0 <= ns <= nk:
                    return fail('sig count')
                if n < nk + ns + 3:
                    return fail('stack')
                self.used_sig = self.used_sig or ns > 0
                keys = S[n - 1 - nk:n - 1][::-1]
                sigs = S[n - 2 - nk - ns:n - 2 - nk][::-1]
                code = script_bytes([i for i in instrs[code_from:] if i[1] is None or i[1] not in sigs])
                ok, si, ki = True, 0, 0
                while ok and si < ns:
                    if not self.enc_ok(sigs[si], keys[ki]):
                        return fail('sig encoding')
                    if sigs[si] and self.sigcheck(sigs[si], keys[ki], code):
                        si += 1
                    ki += 1
                    if ns - si > nk - ki:
                        ok = False
                dummy = S[n - 3 - nk - ns]
                if fl & F_NULLDUMMY and dummy:
                    return fail('nulldummy')
                del S[n - 3 - nk - ns:]
                if op == 175:
                    if not ok:
                        return fail('checkmultisigverify')
                else:
                    S.append(b'\1' if ok else b'')
            else:
                return fail('bad opcode')
            if len(S) + len(A) > 1000:
                return fail('stack size')
        if V:
            return fail('unbalanced')
        return S, A

    def verify(self, sig, pubkey):
        push_only = all(op <= 96 for op, _ in sig)
        if self.flags & F_PUSHONLY and not push_only:
            self.why = 'push only'
            return False
        r = self.eval(sig, [])
        if r is None:
            return False
        copy = r[0]
        r = self.eval(pubkey, copy)
        if r is None:
            return False
        if not r[0] or not self.truth(r[0][-1]):
            self.why = self.why or 'false'
            return False
        if self.flags & F_P2SH and len(pubkey) == 3 and pubkey[0][0] == 169 and pubkey[1][0] == 20 and pubkey[2][0] == 135:
            if not push_only:
                self.why = 'push only'
                return False
            try:
                redeem = script_parse(copy[-1])
            except Bad:
                self.why = 'bad redeem script'
                return False
            r = self.eval(redeem, copy[:-1])
            if r is None or not r[0] or not self.truth(r[0][-1]):
                self.why = self.why or 'false'
                return False
        return True


_STACKOPS = {
    109: (2, lambda a, b: []),
    110: (2, lambda a, b: [a, b, a, b]),
    111: (3, lambda a, b, c: [a, b, c, a, b, c]),
    112: (4, lambda a, b, c, d: [a, b, c, d, a, b]),
    113: (6, lambda a, b, c, d, e, f: [c, d, e, f, a, b]),
    114: (4, lambda a, b, c, d: [c, d, a, b]),
    117: (1, lambda a: []),
    118: (1, lambda a: [a, a]),
    119: (2, lambda a, b: [b]),
    120: (2, lambda a, b: [a, b, a]),
    123: (3, lambda a, b, c: [b, c, a]),
    124: (2, lambda a, b: [b, a]),
    125: (2, lambda a, b: [b, a, b]),
}


def spend_ok(t, n, locking, flags=F_P2SH | F_STRICTENC | F_DERSIG | F_LOW_S | F_NULLDUMMY | F_MINIMAL, why=None, hasher=None):
    """Does input n of parsed transaction t satisfy the locking script bytes?  hasher: only ALL unless given."""
    def check(sig, key, code):
        if sig[-1] != 1 and hasher is None:
            return False
        rs, pk = der_strict(sig[:-1]), unsec(key)
        return rs is not None and pk is not None and ecdsa_ok(pk[0], (hasher or sighash)(t, n, code, sig[-1]), *rs)
    try:
        unlocking = script_parse(t['in'][n]['script'])
    except Bad:
        if why is not None:
            why.append('unlocking script malformed')
        return False
    m = Machine(flags, sigcheck=check)
    ok = m.verify(unlocking, script_parse(locking))
    if why is not None:
        why.append(m.why)
    return ok


# ---------------------------------------------------------------- BIP32
class XKey:
    """Reference extended key; secret is None for public-only."""

    def __init__(self, secret, point, chain, depth=0, index=0, parent=b'\0\0\0\0', net='livenet'):
        self.secret, self.chain, self.depth, self.index, self.parent, self.net = secret, chain, depth, index, parent, net
        self.point = point if point is not None else pub(secret)

    @staticmethod
    def from_seed(seed):
        i = hmac512(b'Bitcoin seed', seed)
        return XKey(int.from_bytes(i[:32], 'big'), None, i[32:])

    def fp(self): return hash160(sec(self.point))[:4]

    def public(self): return XKey(None, self.point, self.chain, self.depth, self.index, self.parent, self.net)

    def derive(self, i):
        if i >= 1 << 31:
            if self.secret is None:
                return None
            data = b'\0' + self.secret.to_bytes(32, 'big')
        else:
            data = sec(self.point)
        h = hmac512(self.chain, data + i.to_bytes(4, 'big'))
        k = int.from_bytes(h[:32], 'big')
        if self.secret is not None:
            return XKey((k + self.secret) % N, None, h[32:], self.depth + 1, i, self.fp(), self.net)
        return XKey(None, add(mul(k), self.point), h[32:], self.depth + 1, i, self.fp(), self.net)

    def string(self, private=None):
        private = self.secret is not None if private is None else private
        v = NETS[self.net]['xprv' if private else 'xpub']
        key = b'\0' + self.secret.to_bytes(32, 'big') if private else sec(self.point)
        return b58c_enc(v.to_bytes(4, 'big') + bytes([self.depth]) + self.parent + self.index.to_bytes(4, 'big') + self.chain + key)

    def address(self): return addr(hash160(sec(self.point)), self.net, 'pkh')


# ---------------------------------------------------------------- ledger
class Ledger:
    """Unspent outputs fed by wire bytes in any order; unknown parents wait."""

    def __init__(self, genesis=()):
        self.utxo = {(i, n): o for i, n, o in genesis}   # (txid, n) -> dict(amt, script)
        self.seen, self.wait = set(), []

    def feed(self, b):
        r = Rd(b)
        t = read_tx(r)
        if r.i != len(b):
            raise Bad('trailing bytes')
        i = txid(b)
        if i in self.seen or any(x[0] == i for x in self.wait):
            return 'dup'
        self.wait.append((i, t))
        moved = True
        while moved:
            moved = False
            for x in list(self.wait):
                xi, xt = x
                refs = [(a['id'], a['ix']) for a in xt['in']]
                if len(set(refs)) == len(refs) and all(q in self.utxo for q in refs):
                    for q in refs:
                        del self.utxo[q]
                    for n, o in enumerate(xt['out']):
                        self.utxo[(xi, n)] = o
                    self.seen.add(xi)
                    self.wait.remove(x)
                    moved = True
        return 'ok' if i in self.seen else 'orphan'


# ---------------------------------------------------------------- deterministic signatures (RFC 6979)

def rfc6979(secret, digest):
    """the nonce for a 32-byte digest, hash SHA-256"""
    def mac(k, m): return _hmac_new(k, m, _sha256).digest()
    x = secret.to_bytes(32, 'big')
    h = (int.from_bytes(digest, 'big') % N).to_bytes(32, 'big')
    v, k = b'\1' * 32, b'\0' * 32
    k = mac(k, v + b'\0' + x + h)
    v = mac(k, v)
    k = mac(k, v + b'\1' + x + h)
    v = mac(k, v)
    while True:
        v = mac(k, v)
        t = int.from_bytes(v, 'big')
        if 1 <= t < N:
            return t
        k = mac(k, v + b'\0')
        v = mac(k, v)


def det_sign(secret, digest):
    k = rfc6979(secret, digest)
    r = mul(k)[0]
    return r, pow(k, -1, N) * (int.from_bytes(digest, 'big') + r * secret) % N


def lift_x(x):
    """even and odd y for an x coordinate, or None"""
    if not 0 <= x < P:
        return None
    a = (x * x * x + 7) % P
    y = pow(a, (P + 1) // 4, P)
    if y * y % P != a:
        return None
    return (y, P - y) if not y & 1 else (P - y, y)


def recover(digest, r, s):
    """the public points under which (r, s) is a signature of the digest"""
    if not (1 <= r < N and 1 <= s < N):
        return set()
    e, w = int.from_bytes(digest, 'big'), pow(r, -1, N)
    out = {add(mul(w * s % N, (x, y)), mul(-e * w % N)) for x in (r, r + N) for y in lift_x(x) or ()}
    return {q for q in out if q is not None}
