"""C03: a key store on a faulty disk."""
from .. import build, ref
from ..core import short
from ..disk import Disk, gen_fates
from ..gens import apply_damage

TITLE = 'a wallet process that saves keys and addresses, crashes, and reloads them from a faulty disk'
REAL = ['bitforge.privkey', 'bitforge.pubkey', 'bitforge.address', 'bitforge.encoding', 'bitforge.utils.encoding',
        'bitforge.utils.ecdsa', 'bitforge.networks']
STUB = ['disk (buffered writes, sync, crash fates, rot, misdirection)', 'process restarts',
        'curve point multiplication in most runs (same values from the reference curve)']
RULE = ('a run = one seed: records in every serialised form are saved, synced or not, the process crashes, records are torn, '
        'rotted, mixed up or replaced by hostile ones with valid checksums, and every record is reloaded in a restarted process')
RUNS = {'quick': 9000, 'thorough': 160000}

TEXT = ('wif', 'khex', 'phex', 'addr', 'ahex')
FORMS = ['wif', 'khex', 'kbytes', 'phex', 'pbytes', 'addr', 'ahex', 'abytes', 'kaddr']


def encode(form, k, a):
    """reference bytes of a record"""
    s = int(k['s'], 16)
    if form == 'wif':
        return ref.wif(s, k['n'], k['c']).encode()
    if form == 'khex':
        return k['s'].encode()
    if form == 'kbytes':
        return bytes.fromhex(k['s'])
    if form == 'phex':
        return ref.sec(ref.pub(s), k['c']).hex().encode()
    if form == 'pbytes':
        return ref.sec(ref.pub(s), k['c'])
    if form == 'kaddr':
        return ref.key_addr(s, k['n'], k['c']).encode()
    h = bytes.fromhex(a['h'])
    if form == 'addr':
        return ref.addr(h, a['n'], a['t']).encode()
    b = ref.addr_bytes(h, a['n'], a['t'])
    return b.hex().encode() if form == 'ahex' else b


def unhex(t):
    if len(t) % 2 or any(c not in '0123456789abcdefABCDEF' for c in t):
        return None
    return bytes.fromhex(t)


def decode(form, data, k):
    """what the record denotes (a tuple), or None when it must be refused.  k: metadata kept beside
    the record for forms that carry no network/compression"""
    t = data.decode('latin-1')
    if form == 'wif':
        return ref.unwif(t)
    if form in ('khex', 'kbytes'):
        b = unhex(t) if form == 'khex' else data
        if b is None or len(b) != 32:
            return None
        s = int.from_bytes(b, 'big')
        return (s, k['n'], k['c']) if 0 < s < ref.N else None
    if form in ('phex', 'pbytes'):
        b = unhex(t) if form == 'phex' else data
        q = ref.unsec(b) if b is not None else None
        return (q[0], k['n'], q[1]) if q else None
    if form in ('addr', 'kaddr'):
        return ref.unaddr(t)
    b = unhex(t) if form == 'ahex' else data
    return ref.unaddr_bytes(b)


def hostile(r):
    """(form, data): checksums and lengths in order, meaning not"""
    k = r.randrange(4)
    if k == 0:
        v = r.pick([0x80, 0xef, 0x80, 0xef, 0x00, 0x05, 0x6f, 0xc4, 0x81, 0xff, r.randrange(256)])
        s = r.pick([0, ref.N, ref.N + 1, 2**256 - 1, ref.N - 1, 1, r.secret(), r.randrange(ref.N, 2**256)])
        body = bytes([v]) + s.to_bytes(32, 'big')
        body = r.pick([body, body + b'\1', body + bytes([r.randrange(256)]), body[:-1], body + b'\1\1', body + b'\0', body + b'\2',
                       body[:r.randrange(len(body))], body[1:], b'', body + b'\1' + bytes(r.randrange(1, 4))])
        return 'wif', ref.b58c_enc(body).encode()
    if k == 1:
        v = r.pick([0, 5, 111, 196, 0x80, 239, 1, 4, 6, 110, 112, 195, 197, 255, r.randrange(256)])
        body = bytes([v]) + bytes.fromhex(r.hash20())
        body = r.pick([body, body, body[:-1], body + b'\0', body[:1], b'', body[1:], body + body[-1:], body[:r.randrange(21)]])
        form = r.pick(['addr', 'ahex', 'abytes'])
        return form, {'addr': ref.b58c_enc(body).encode(), 'ahex': body.hex().encode(), 'abytes': body}[form]
    if k == 2:
        s = r.pick([0, ref.N, ref.N + 1, 2**256 - 1, ref.N - 1, 1, r.randrange(ref.N, 2**256)])
        b = s.to_bytes(32, 'big')
        b = r.pick([b, b, b, b[1:], b + b'\0', b'\0' + b, b[:31] + b'\0', b''])
        return ('khex', r.pick([b.hex(), b.hex().upper(), '0x' + b.hex(), b.hex() + ' ', b.hex()[:-1], b.hex() + 'g', '%x' % s]).encode()) if r.chance(.5) else ('kbytes', b)
    pt = ref.pub(r.pick([1, 2, r.secret()]))
    x, y = pt
    small = r.pick([1, 2, 3, 4, 6, 8])                       # x coordinates with points on the curve
    sx = ref.unsec(b'\2' + small.to_bytes(32, 'big'))
    W = lambda v: (v % 2**256).to_bytes(32, 'big')
    opts = [
        bytes([2]) + W(x), bytes([3]) + W(x), bytes([4]) + W(x) + W(y), bytes([4]) + W(x) + W(ref.P - y), bytes([4]) + W(x) + W(y ^ 1),
        bytes([4]) + W(x ^ 1) + W(y), bytes([6 + (y & 1)]) + W(x) + W(y), bytes([7 - (y & 1)]) + W(x) + W(y), bytes([5]) + W(x),
        bytes([0]) + W(x), bytes([1]) + W(x), bytes([2]) + W(x) + W(y), bytes([4]) + W(x), bytes([2]) + W(x)[1:], bytes([2]) + W(x) + b'\0',
        bytes([4]) + W(x) + W(y)[:-1], bytes([4]) + W(x) + W(y) + b'\0', W(x), W(x) + W(y), b'', b'\0', b'\2', b'\4', bytes(33), bytes(65),
        b'\2' + b'\xff' * 32, b'\4' + b'\xff' * 64, b'\2' + W(ref.P), b'\3' + W(ref.P - 1), b'\4' + bytes(64), b'\4' + W(x) + W(0), b'\4' + W(0) + W(y),
        bytes([r.pick([2, 3])]) + W(r.getrandbits(256)), bytes([r.pick([2, 3])]) + W(ref.P + small), bytes([r.pick([2, 3])]) + W(5)]
    if sx:
        opts += [bytes([4]) + W(ref.P + small) + W(sx[0][1]), bytes([2]) + W(small)] * 2
    b = r.pick(opts)
    return ('phex', b.hex().encode()) if r.chance(.5) else ('pbytes', b)


def gen(r, tier):
    keys, addrs, steps = [], [], []
    slots = 0
    faulty = r.chance(.85)
    for _ in range(r.randrange(25, 60) if r.chance(.06) else r.randrange(2, 12)):
        k = r.random()
        if k < .5 or not slots:
            key, ad = r.key(keys), r.address(addrs)
            keys.append(key)
            addrs.append(ad)
            slot = r.randrange(slots) if slots and r.chance(.2) else slots
            slots = max(slots, slot + 1)
            steps.append({'op': 'put', 'slot': slot, 'form': r.pick(FORMS), 'k': key, 'a': ad, 'sync': r.chance(.7), 'helper': r.chance(.2)})
        elif not faulty or k < .6:
            steps.append({'op': 'load', 'slot': r.randrange(slots)})
        elif k < .68:
            steps.append({'op': 'crash', 'fates': gen_fates(r)})
        elif k < .78:
            steps.append({'op': 'rot', 'slot': r.randrange(slots), 'dmg': r.damage(50, ['flip', 'set', 'cut', 'drop', 'dup', 'ins', 'head', 'alpha', 'alpha', 'alpha', 'transpose', 'case', 'tail', 'look', 'look', 'space'])})
        elif k < .84:
            steps.append({'op': 'swap', 'a': r.randrange(slots), 'b': r.randrange(slots)})
        elif k < .95:
            f, d = hostile(r)
            steps.append({'op': 'raw', 'slot': slots, 'form': f, 'data': d.hex(), 'k': r.key(keys), 'as': f if r.chance(.9) else r.pick(FORMS)})
            slots += 1
        else:
            steps.append({'op': 'load', 'slot': r.randrange(slots), 'as': r.pick(FORMS)})
    steps.append({'op': 'crash', 'fates': gen_fates(r)})
    return {'cfg': {'real_ec': r.chance(.03)}, 'steps': steps}


LOOK = {b'1': 'Il|', b'o': '0O', b'i': 'Il1', b'L': 'lI', b'D': '0O', b'5': 'S', b'S': '5', b'Z': '2', b'2': 'Z', b'B': '8', b'8': 'B', b'Q': 'O0', b'6': 'b', b'b': '6', b'0': 'oO'}


def text_damage(data, edits):
    """adds text-level damage kinds to apply_damage"""
    for e in edits:
        k, a, v = e
        n = len(data)
        i = min(int(a * n), max(0, n - 1))
        if k == 'alpha' and n:
            data = data[:i] + ref.B58[v % 58].encode() + data[i + 1:]
        elif k == 'transpose' and n > 1:
            i = min(i, n - 2)
            data = data[:i] + data[i + 1:i + 2] + data[i:i + 1] + data[i + 2:]
        elif k == 'case' and n:
            data = data[:i] + data[i:i + 1].swapcase() + data[i + 1:]
        elif k == 'look' and n:                # a character taken for another one: what people and scanners do
            for j in range(n):
                c = data[(i + j) % n:(i + j) % n + 1]
                if c in LOOK:
                    i = (i + j) % n
                    data = data[:i] + LOOK[c][v % len(LOOK[c])].encode() + data[i + 1:]
                    break
        elif k == 'space':
            data = data[:i] + [b' ', b'\n', b'\t', b'-', b'\r\n', b'  '][v % 6] + data[i:]
        elif k == 'tail':
            data = data + [b'1', b'\n', b' ', b'\0', b'z', b'00'][v % 6]
        else:
            data = apply_damage(data, [e])
    return data


def run(plan, sim):
    box = {'n': sim.boot(worn=True)}
    disk = Disk(sim)
    meta = {}
    kept = []

    def save(st):
        n, form = box['n'], st['form']
        k, a = st['k'], st['a']

        def f():
            if form in ('wif', 'khex', 'kbytes'):
                p = build.priv(n, k)
                return {'wif': p.to_wif, 'khex': p.to_hex, 'kbytes': p.to_bytes}[form]()
            if form in ('phex', 'pbytes'):
                p = build.priv(n, k).to_public_key()
                return p.to_hex() if form == 'phex' else p.to_bytes()
            if form == 'kaddr':
                return build.priv(n, k).to_address().to_string()
            x = build.addr(n, a)
            return {'addr': x.to_string, 'ahex': x.to_hex, 'abytes': x.to_bytes}[form]()
        def g():
            E = n.mods['bitforge.utils.encoding']
            s, pre = int(k['s'], 16), ref.NETS[k['n']]
            if form == 'wif':
                return E.secret_exponent_to_wif(s, compressed=k['c'], wif_prefix=bytes([pre['wif']]))
            if form in ('phex', 'pbytes'):
                b = E.public_pair_to_sec(ref.pub(s), compressed=k['c'])
                return b.hex() if form == 'phex' else b
            if form == 'kaddr':
                return E.public_pair_to_bitcoin_address(ref.pub(s), compressed=k['c'], address_prefix=bytes([pre['pkh']]))
            if form == 'addr':
                return E.hash160_sec_to_bitcoin_address(bytes.fromhex(a['h']), address_prefix=bytes([ref.NETS[a['n']]['pkh' if a['t'] == 'pkh' else 'sh']]))
            return f()
        v = sim.need(n, 'saving as %s' % form, g if st.get('helper') else f)
        raw = v.encode('utf-8') if isinstance(v, str) else bytes(v)
        want = encode(form, k, a)
        sim.check(raw == want, 'saved-form', lambda: '%s of %r/%r is %r, should be %r' % (form, k, a, raw, want))
        name = 'r%d' % st['slot']
        meta[name] = (form, k)
        disk.write(name, raw)
        if st['sync']:
            disk.sync()
        sim.now += 1000

    def loader(n, form, data, k):
        t = data.decode('latin-1') if k['c'] else data.decode('ascii', 'surrogateescape')
        net = build.net(n, k['n'])
        if form == 'wif':
            return n.PrivateKey.from_wif(t)
        if form == 'khex':
            return n.PrivateKey.from_hex(t, net, k['c'])
        if form == 'kbytes':
            return n.PrivateKey.from_bytes(data, net, k['c'])
        if form == 'phex':
            return n.PublicKey.from_hex(t, net)
        if form == 'pbytes':
            return n.PublicKey.from_bytes(data, net)
        if form in ('addr', 'kaddr'):
            return n.Address.from_string(t)
        if form == 'ahex':
            return n.Address.from_hex(t)
        return n.Address.from_bytes(data)

    def pic(form, v):
        if form in ('wif', 'khex', 'kbytes'):
            return build.key_of(v)
        if form in ('phex', 'pbytes'):
            return build.pub_of(v)
        return build.addr_of(v)

    def load(slot, as_=None):
        name = 'r%d' % slot
        data = disk.read(name)
        if data is None or name not in meta:
            return
        n = box['n']
        form, k = meta[name]
        form = as_ or form
        want = decode(form, data, k)
        helpers(n, form, data)
        o = sim.op(n, lambda: loader(n, form, data, k))
        what = lambda: '%s record %r: %r' % (form, short(data, 200), o)
        sim.log('load', name, form, want is not None, o.kind)
        if o.kind == 'raise':
            sim.probe('refused')
            sim.check(want is None, 'refused-valid', what)
            sim.check(isinstance(o.exc, n.Error), 'wrong-error', what)
            m = sim.op(n, lambda: str(o.exc))
            sim.check(m.kind == 'ok' and m.value, 'unprintable-error', what)
            sim.state(form, 'refused', type(o.exc).__name__)
            return
        sim.probe('accepted')
        sim.check(want is not None, 'accepted-invalid', what)
        v = o.value
        got = pic(form, v)
        sim.check(got == want, 'reloaded-differs', lambda: '%s gives %r, the record says %r' % (what(), got, want))
        sim.state(form, 'accepted', want[1], want[2])
        check_uses(n, form, v, want, what)
        kept.append((form, v, want))
        f2, v2, w2 = kept[(len(kept) * 7) % len(kept)]
        sim.check(pic(f2, v2) == w2, 'earlier-object-changed', lambda: 'after %s, an earlier %s reads %r' % (what(), f2, pic(f2, v2)))

    def helpers(n, form, data):
        """the plain codec functions read the record as their own"""
        E, t = n.mods['bitforge.utils.encoding'], data.decode('latin-1')
        if form == 'wif':
            b = ref.b58c_dec(t)
            ok = b is not None and (len(b) == 33 or len(b) == 34 and b[-1] == 1)
            want = (b[:1], int.from_bytes(b[1:33], 'big'), len(b) == 34) if ok else None
            read = lambda: E.wif_to_tuple_of_prefix_secret_exponent_compressed(t)
            live = ok and b[0] == 0x80
            also = [(lambda: E.is_valid_wif(t), live), (lambda: E.is_valid_wif(t, [b'\x80', b'\xef']), ok and b[0] in (0x80, 0xef)), (lambda: E.is_hashed_base58_valid(t), b is not None)]
            if live:
                also += [(lambda: E.wif_to_secret_exponent(t), want[1]), (lambda: E.wif_to_tuple_of_secret_exponent_compressed(t), want[1:])]
        elif form == 'pbytes':
            q = ref.unsec(data)
            want = tuple(q[0]) if q else None
            read = lambda: tuple(E.sec_to_public_pair(data))
            also = [(lambda: E.is_sec_compressed(data), q[1])] if q else []
        elif form in ('addr', 'kaddr'):
            b = ref.b58c_dec(t)
            ok = b is not None and len(b) == 21 and b[0] in (0, 0x6f)
            want = (b[1:], b[:1]) if ok else None
            read = lambda: E.bitcoin_address_to_hash160_sec_with_prefix(t)
            also = [(lambda: E.is_valid_bitcoin_address(t), ok and b[0] == 0), (lambda: E.is_valid_bitcoin_address(t, b'\0\x6f'), ok)]
            if ok:
                also += [(lambda: E.bitcoin_address_to_hash160_sec(t, b[:1]), b[1:])]
        else:
            return
        o = sim.op(n, read)
        what = lambda: 'plain codec on %s record %r: %r' % (form, short(data, 200), o)
        sim.probe('helper-' + o.kind)
        if o.kind == 'raise':
            sim.check(want is None, 'helper-refused-valid', what)
            sim.check(isinstance(o.exc, Exception) and not isinstance(o.exc, (TypeError, NameError, AttributeError, LookupError, AssertionError)), 'helper-wrong-error', what)
        else:
            sim.check(want is not None, 'helper-accepted-invalid', what)
            sim.check(o.value == want, 'helper-differs', lambda: '%s, the record says %r' % (what(), want))
        for f, w in also:
            o2 = sim.op(n, f)
            sim.check(o2.kind == 'ok' and o2.value == w, 'helper-differs', lambda: '%s; a further reading %r, should be %r' % (what(), o2, w))

    def check_uses(n, form, v, want, what):
        """every other form of the reloaded value is the right one too"""
        if form in ('wif', 'khex', 'kbytes'):
            s, net, c = want

            def f():
                same = n.PrivateKey(s, build.net(n, net), c)
                return (v == same, hash(v) == hash(same), v.to_wif(), v.to_hex(), bytes(v.to_bytes()), v.to_public_key().to_hex(),
                        v.to_address().to_string(), repr(v) == repr(same))
            exp = (True, True, ref.wif(s, net, c), '%064x' % s, s.to_bytes(32, 'big'), ref.sec(ref.pub(s), c).hex(), ref.key_addr(s, net, c), True)
        elif form in ('phex', 'pbytes'):
            pt, net, c = want

            def f():
                same = n.PublicKey(pt, build.net(n, net), c)
                return v == same, hash(v) == hash(same), v.to_hex(), bytes(v.to_bytes()), v.to_address().to_string(), repr(v) == repr(same)
            exp = (True, True, ref.sec(pt, c).hex(), ref.sec(pt, c), ref.addr(ref.hash160(ref.sec(pt, c)), net, 'pkh'), True)
        else:
            h, net, t = want

            def f():
                same = build.addr(n, {'h': h.hex(), 'n': net, 't': t})
                return v == same, hash(v) == hash(same), v.to_string(), v.to_hex(), bytes(v.to_bytes()), repr(v) == repr(same)
            exp = (True, True, ref.addr(h, net, t), ref.addr_bytes(h, net, t).hex(), ref.addr_bytes(h, net, t), True)
        got = sim.need(n, 'using a reloaded %s' % form, f)
        sim.check(got == exp, 'reloaded-unequal', lambda: '%s: forms %r, should be %r' % (what(), got, exp))

    for st in plan['steps']:
        sim.now += 500
        op = st['op']
        if op == 'put':
            save(st)
        elif op == 'load':
            load(st['slot'], st.get('as'))
        elif op == 'crash':
            disk.crash(st['fates'])
            box['n'] = sim.boot()
            kept.clear()
            sim.fault('process-crash')
            for name in disk.names():
                load(int(name[1:]))
        elif op == 'rot':
            disk.sync()
            name = 'r%d' % st['slot']
            if name in disk.durable:
                disk.durable[name] = text_damage(disk.durable[name], st['dmg'])
                sim.fault('disk-rot')
                load(st['slot'])
        elif op == 'swap':
            disk.sync()
            disk.swap('r%d' % st['a'], 'r%d' % st['b'])
            load(st['a'])
            load(st['b'])
        elif op == 'raw':
            name = 'r%d' % st['slot']
            meta[name] = (st['form'], st['k'])
            disk.write(name, bytes.fromhex(st['data']))
            disk.sync()
            sim.fault('hostile-record')
            load(st['slot'], st['as'])
