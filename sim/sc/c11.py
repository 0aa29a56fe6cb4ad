"""C11: devices of one hierarchical wallet."""
from .. import build, core, ref
from ..core import BadPlan, Entropy, Violation, short
from ..disk import Disk, gen_fates
from .c03 import text_damage

TITLE = 'devices holding the same hierarchical wallet as seed, private or public string, exchanging strings, crashing and resuming'
REAL = ['bitforge.hdprivkey', 'bitforge.hdpubkey', 'bitforge.privkey', 'bitforge.pubkey', 'bitforge.address', 'bitforge.utils.*', 'hmac']
STUB = ['disk', 'network between the devices', 'process crashes', 'curve point multiplication in most runs']
RULE = ('a run = one seed: wallets given as seeds or extended keys with extreme fields live on several devices that derive paths in '
        'different orders and from different forms, store and exchange intermediate strings over a faulty disk and network, crash and '
        'resume; every key is compared field by field with an independent BIP32')
RUNS = {'quick': 4000, 'thorough': 90000}
ASSUME = ['extended keys of depth at most 255 and seeds of at least 32 bytes', 'refusals of extended strings may be any exception']

H = 1 << 31
DAMAGE = ['flip', 'flip', 'set', 'cut', 'drop', 'dup', 'ins', 'splice', 'head', 'transpose', 'case', 'tail', 'look', 'look', 'space']


def gen_path(r, n=None, pub=False):
    n = r.weighted([(0, 1), (1, 4), (2, 3), (3, 2), (5, .5)]) if n is None else n
    out = []
    for _ in range(n):
        i = r.weighted([(0, 2), (1, 2), (r.randrange(0, 20), 3), (H - 1, 1.5), (H - 2, .3), (255, .5), (256, .5), (65536, .5), (1 << 24, .5), (r.getrandbits(31), 2), (r.getrandbits(16), 1), (0x00ff00, .3)])
        if not pub and r.chance(.4):
            i += H
        out.append(i)
    return out


def gen(r, tier):
    wallets = []
    for _ in range(r.randrange(1, 4)):
        if r.chance(.5):
            w = {'seed': r.data(r.pick([32, 32, 33, 64, 64, 100]))}
        else:
            w = {'secret': '%064x' % r.secret(), 'chain': r.data(32), 'depth': r.weighted([(0, 2), (1, 2), (r.randrange(250), 1), (240, .5)]), 'index': r.u32(), 'parent': r.data(4), 'net': r.net()}
            if wallets and 'secret' in wallets[-1] and r.chance(.6):         # sibling: one field apart
                w = dict(wallets[-1])
                f = r.pick(['secret', 'chain', 'depth', 'index', 'parent', 'net'])
                w[f] = {'secret': lambda: '%064x' % r.secret(), 'chain': lambda: r.data(32), 'depth': lambda: r.randrange(100), 'index': r.u32, 'parent': lambda: r.data(4),
                        'net': lambda: 'testnet' if w['net'] == 'livenet' else 'livenet'}[f]()
        wallets.append(w)
    devs = [{'w': r.randrange(len(wallets)), 'form': r.pick(['seed', 'xprv', 'xprv', 'xpub', 'xpub'])} for _ in range(r.randrange(2, 5))]
    shared = r.chance(.5)                    # several wallets open in one process
    for i, d in enumerate(devs):
        d['host'] = r.randrange(2) if shared else i
    paths = [gen_path(r) for _ in range(r.randrange(2, 5))]

    def path(pub=False):
        if r.chance(.6):
            p = list(r.pick(paths))
            if p and r.chance(.5):
                p[-1] = (p[-1] + r.pick([1, -1, H, 256])) % (1 << 32)
            elif r.chance(.3):
                p = p + gen_path(r, 1)
            return p
        return gen_path(r, pub=pub)
    if r.chance(.15):                        # wallets one field apart, open in one process, walking the same few paths
        base = {'secret': '%064x' % r.secret(), 'chain': r.data(32), 'depth': r.pick([0, 1, 3]), 'index': r.u32(), 'parent': r.data(4), 'net': r.net()}
        wallets = [base]
        for f in r.sample(['chain', 'chain', 'secret', 'negated', 'depth', 'index', 'parent', 'net'], r.randrange(1, 3)):
            w = dict(base)
            if f == 'negated':
                w['secret'] = '%064x' % (ref.N - int(base['secret'], 16))
            else:
                w[f] = {'secret': lambda: '%064x' % r.secret(), 'chain': lambda: r.data(32), 'depth': lambda: base['depth'] + 1, 'index': r.u32, 'parent': lambda: r.data(4),
                        'net': lambda: 'testnet' if base['net'] == 'livenet' else 'livenet'}[f]()
            wallets.append(w)
        form = r.pick(['xprv', 'xpub'])
        devs = [{'w': i, 'form': form, 'host': 0} for i in range(len(wallets))]
        paths = [gen_path(r, r.pick([1, 1, 2]), pub=form == 'xpub') for _ in range(2)]
    steps = []
    long = r.chance(.03)
    for _ in range(r.randrange(4, 16) if not long else 50):
        d = r.randrange(len(devs))
        pub = devs[d]['form'] == 'xpub' and r.chance(.8)
        k = r.weighted([('derive', 6), ('save', 3), ('crash', 1.5), ('resume', 3), ('send', 3), ('kind', 1), ('fault', 1.5), ('deep', .15)])
        s = {'do': k, 'd': d, 'path': path(pub), 'flag': r.chance(.4), 'keep': r.chance(.5)}
        if k == 'save':
            s.update(slot=r.randrange(3), sync=r.chance(.5), pub=r.chance(.4))
        elif k == 'crash':
            s['fates'] = gen_fates(r, 3)
        elif k == 'resume':
            s.update(slot=r.randrange(3), rot=r.damage(111, DAMAGE) if r.chance(.3) else None, sub=r.randrange(1 << 20))
        elif k == 'send':
            s.update(to=r.randrange(len(devs)), pub=r.chance(.5), dmg=r.damage(111, DAMAGE) if r.chance(.3) else None, sub=r.randrange(1 << 20) if r.chance(.4) else None, then=gen_path(r, r.pick([0, 1])))
        elif k == 'kind':
            s.update(what=r.pick(['other', 'other', 'wif', 'addr', 'ver', 'zero', 'order', 'offcurve', 'empty', 'half']), salt=r.getrandbits(16))
        elif k == 'fault':
            s.update(kind=r.pick(['interrupt', 'memory', 'hash', 'alarm']), frac=round(r.random(), 4))
        elif k == 'deep':
            s['n'] = r.pick([5, 12, 254])
        steps.append(s)
    return {'cfg': {'real_ec': r.chance(.006)}, 'wallets': wallets, 'devs': devs, 'steps': steps}


def subst(s, c):
    """one character replaced by another of the alphabet"""
    A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
    if c is None or not s:
        return s
    i = c % len(s)
    return s[:i] + A[(c >> 8) % 58] + s[i + 1:]


def run(plan, sim):
    if not plan['devs'] or not plan['wallets'] or any(d['w'] >= len(plan['wallets']) for d in plan['devs']):
        raise BadPlan('devices')
    roots = []
    for w in plan['wallets']:
        if 'seed' in w:
            if len(w['seed']) < 64:
                raise BadPlan('seed')
            roots.append(ref.XKey.from_seed(bytes.fromhex(w['seed'])))
        else:
            if not 0 < int(w['secret'], 16) < ref.N or len(w['chain']) != 64 or len(w['parent']) != 8:
                raise BadPlan('wallet')
            roots.append(ref.XKey(int(w['secret'], 16), None, bytes.fromhex(w['chain']), w['depth'], w['index'], bytes.fromhex(w['parent']), w['net']))
    memo = {}

    def want(w, path):
        k = (w, tuple(path))
        if k not in memo:
            memo[k] = roots[w] if not path else want(w, path[:-1]).derive(path[-1])
        return memo[k]

    def real_string(w): return want(w, []).string()

    class Dev:
        pass
    devs = []
    for d in plan['devs']:
        x = Dev()
        x.w, x.form, x.host = d['w'], d['form'], d['host']
        if x.form == 'seed' and 'seed' not in plan['wallets'][x.w]:
            x.form = 'xprv'
        x.disk = Disk(sim)
        x.saved = {}          # slot -> strings ever written, with the key each denotes
        devs.append(x)

    def check_key(k, e, what, private):
        """k: object of the code under test, e: reference"""
        def pic():
            p = {'chain': bytes(k.chain), 'depth': k.depth, 'index': k.index, 'parent': k.parent, 'net': k.network.name, 'string': k.to_string(), 'address': k.to_public_key().to_address().to_string(),
                 'pub': k.to_public_key().to_bytes()}
            if private:
                p['secret'] = k.to_private_key().secret
                p['keynet'] = k.to_private_key().network.name
                p['pubstring'] = k.to_hd_public_key().to_string()
            return p
        o = sim.op(n_of(k), pic)
        sim.check(o.kind == 'ok', 'valid-op-failed', lambda: 'reading %s %r' % (what, o))
        got = o.value
        exp = {'chain': e.chain, 'depth': e.depth, 'index': e.index, 'parent': int.from_bytes(e.parent, 'big'), 'net': e.net, 'string': e.string(private), 'address': e.address(), 'pub': ref.sec(e.point)}
        if private:
            exp.update(secret=e.secret, keynet=e.net, pubstring=e.string(False))
        for f in exp:
            sim.check(got[f] == exp[f], 'field-' + f, lambda: '%s: %s is %s, BIP32 says %s' % (what, f, short(repr(got[f])), short(repr(exp[f]))))

    cur, hosts = {}, {}

    def n_of(k): return cur['n']

    def load(x):
        """(re)start a device"""
        if x.host not in hosts:
            hosts[x.host] = sim.boot(worn=True)
        x.n = hosts[x.host]
        cur['n'] = x.n
        n = x.n
        if x.form == 'seed':
            x.root = sim.need(n, 'from_seed', lambda: n.HDPrivateKey.from_seed(bytes.fromhex(plan['wallets'][x.w]['seed'])))
        elif x.form == 'xprv':
            x.root = sim.need(n, 'HDPrivateKey.from_string', lambda: n.HDPrivateKey.from_string(want(x.w, []).string()))
        else:
            x.root = sim.need(n, 'HDPublicKey.from_string', lambda: n.HDPublicKey.from_string(want(x.w, []).string(False)))
        x.mem = {(): x.root}
        check_key(x.root, want(x.w, []), 'wallet root (%s)' % x.form, x.form != 'xpub')

    for x in devs:
        load(x)

    def step_fn(k, i, flag):
        if flag and i >= H:
            return lambda: k.derive(i - H, hardened=True)
        if flag:
            return lambda: k.derive(i, hardened=False)
        return lambda: k.derive(i)

    def derive(x, path, flag, keep, what):
        """walk a path on a device; None when a public-only device was asked for a hardened step"""
        n = x.n
        cur['n'] = n
        start = ()
        if keep:
            for j in range(len(path), -1, -1):
                if tuple(path[:j]) in x.mem:
                    start = tuple(path[:j])
                    break
        k = x.mem[start]
        for j in range(len(start), len(path)):
            i = path[j]
            if want_depth(x.w, j) >= 255:
                return None
            o = sim.op(n, step_fn(k, i, flag))
            if x.form == 'xpub' and i >= H:
                sim.probe('hardened-from-public')
                sim.check(o.kind == 'raise' and not isinstance(o.exc, (TypeError, NameError, AttributeError, AssertionError)), 'hardened-from-public', lambda: 'a public-only device derived hardened index %d: %r' % (i, o))
                return None
            sim.check(o.kind == 'ok', 'derive-failed', lambda: '%s: derive(%d) %r' % (what, i, o))
            k = o.value
            if keep:
                x.mem[tuple(path[:j + 1])] = k
        check_key(k, want(x.w, path), '%s path %r (%s)' % (what, path, x.form), x.form != 'xpub')
        sim.state(x.form, min(len(path), 4), [p >= H for p in path[:4]], 'seed' in plan['wallets'][x.w])
        return k

    def want_depth(w, j): return roots[w].depth + j

    def read_string(x, text, kinds, what, then=()):
        """load text as private and as public string on device x; kinds: what each must give"""
        n = x.n
        cur['n'] = n
        b = ref.b58c_dec(text)
        for cls, priv in (('HDPrivateKey', True), ('HDPublicKey', False)):
            e = None
            if b is not None:
                e = kinds.get((text, priv))
                if e is None and len(b) == 78 and text in {t for t, _ in kinds}:
                    e = None
                elif e is None and (text, not priv) not in kinds:
                    continue               # a checksum-valid string nobody wrote: not claimed
            o = sim.op(n, lambda: getattr(n, cls).from_string(text))
            if e is None:
                sim.probe('refused-%s' % ('checksum' if b is None else 'kind'))
                sim.check(o.kind == 'raise', 'bad-string-accepted', lambda: '%s: %s.from_string(%r) %r although it should be refused' % (what, cls, text, o))
            else:
                sim.check(o.kind == 'ok', 'good-string-refused', lambda: '%s: %s.from_string(%r) %r' % (what, cls, text, o))
                k = o.value
                check_key(k, e, what, priv)
                for i in then:
                    if e.depth >= 255 or (i >= H and not priv):
                        break
                    o = sim.op(n, lambda: k.derive(i))
                    sim.check(o.kind == 'ok', 'derive-failed', lambda: '%s: derive(%d) %r' % (what, i, o))
                    k, e = o.value, e.derive(i)
                    check_key(k, e, what + ' child %d' % i, priv)

    for si, s in enumerate(plan['steps']):
        if s['d'] >= len(devs):
            raise BadPlan('device')
        x = devs[s['d']]
        cur['n'] = x.n
        path, do = s['path'], s['do']
        if do == 'derive':
            derive(x, path, s['flag'], s['keep'], 'step %d' % si)
        elif do == 'deep':
            i = path[0] % H if path else 0
            k, e, m = x.root, want(x.w, []), min(s['n'], 255 - roots[x.w].depth)
            for _ in range(m):
                o = sim.op(x.n, lambda: k.derive(i))
                sim.check(o.kind == 'ok', 'derive-failed', lambda: 'derive(%d) at depth %d %r' % (i, e.depth, o))
                k, e = o.value, e.derive(i)
            check_key(k, e, 'deep path', x.form != 'xpub')
        elif do == 'fault':
            if x.form == 'xpub':
                path = [p % H for p in path]
            path = path[:2] or [0]
            if roots[x.w].depth + len(path) > 250:
                continue
            k, e = x.root, want(x.w, [])
            for j, i in enumerate(path):
                o = sim.op(x.n, lambda: k.derive(i), core.aim((s['kind'], s['frac']), 5 if s['kind'] == 'hash' else 130))
                if o.kind == 'raise' and o.fired:
                    o = sim.op(x.n, lambda: k.derive(i))
                sim.check(o.kind == 'ok', 'derive-failed', lambda: 'derive(%d) after a fault %r' % (i, o))
                check_key(k, e, 'parent after a fault', x.form != 'xpub')
                k, e = o.value, e.derive(i)
                check_key(k, e, 'derived after a fault', x.form != 'xpub')
        elif do == 'save':
            if x.form == 'xpub':
                path = [p % H for p in path]
            k = derive(x, path, s['flag'], s['keep'], 'step %d' % si)
            if k is None:
                continue
            e = want(x.w, path)
            pub = s['pub'] or x.form == 'xpub'
            t = sim.need(x.n, 'to_string', lambda: (k.to_hd_public_key().to_string() if x.form != 'xpub' else k.to_string()) if pub else k.to_string())
            t = str(t)
            name = 'slot%d' % s['slot']
            x.disk.write(name, t.encode())
            x.saved.setdefault(name, {})[(t, not pub)] = e
            if s['sync']:
                x.disk.sync()
        elif do == 'crash':
            sim.fault('device-crash')
            del hosts[x.host]
            for y in devs:
                if y.host == x.host:
                    y.disk.crash(s['fates'])
                    load(y)
        elif do == 'resume':
            name = 'slot%d' % s['slot']
            b = x.disk.read(name)
            if b is None:
                continue
            if s['rot']:
                sim.fault('disk-rot')
                b = text_damage(b, s['rot'])
            t = b.decode('latin-1')
            if s['sub'] % 3 == 0:
                t = subst(t, s['sub'])
            read_string(x, t, x.saved[name], 'resumed from disk', path[:1])
        elif do == 'send':
            if s['to'] >= len(devs):
                raise BadPlan('device')
            if x.form == 'xpub':
                path = [p % H for p in path]
            k = derive(x, path, s['flag'], s['keep'], 'step %d' % si)
            if k is None:
                continue
            e = want(x.w, path)
            pub = s['pub'] or x.form == 'xpub'
            t = str(sim.need(x.n, 'to_string', lambda: (k.to_hd_public_key().to_string() if x.form != 'xpub' else k.to_string()) if pub else k.to_string()))
            kinds = {(t, not pub): e}
            if s['dmg']:
                sim.fault('message-damaged')
                t = text_damage(t.encode(), s['dmg']).decode('latin-1')
            t = subst(t, s['sub'])
            y = devs[s['to']]
            read_string(y, t, kinds, 'received string', s['then'])
        elif do == 'kind':
            e = want(x.w, path[:1])
            priv = e.string()
            pay = ref.b58c_dec(priv)
            pk = ref.b58c_dec(e.string(False))
            what = s['what']
            bad = []
            if what == 'other':
                bad = [('HDPrivateKey', e.string(False)), ('HDPublicKey', priv)]
            elif what == 'wif':
                w_ = ref.wif(e.secret, e.net, True)
                bad = [('HDPrivateKey', w_), ('HDPublicKey', w_)]
            elif what == 'addr':
                bad = [('HDPrivateKey', e.address()), ('HDPublicKey', e.address())]
            elif what == 'ver':
                v = (s['salt'] * 65537 + 7).to_bytes(4, 'big')
                bad = [('HDPrivateKey', ref.b58c_enc(v + pay[4:])), ('HDPublicKey', ref.b58c_enc(v + pk[4:]))]
            elif what == 'zero':
                bad = [('HDPrivateKey', ref.b58c_enc(pay[:46] + bytes(32))), ('HDPublicKey', ref.b58c_enc(pk[:45] + bytes(33)))]
            elif what == 'order':
                bad = [('HDPrivateKey', ref.b58c_enc(pay[:46] + (ref.N + s['salt'] % 3).to_bytes(32, 'big')))]
            elif what == 'offcurve':
                bad = [('HDPublicKey', ref.b58c_enc(pk[:45] + b'\2' + (5).to_bytes(32, 'big'))), ('HDPublicKey', ref.b58c_enc(pk[:45] + b'\5' + pk[46:]))]
            elif what == 'empty':
                bad = [('HDPrivateKey', ''), ('HDPublicKey', ''), ('HDPrivateKey', ref.b58c_enc(b'')), ('HDPublicKey', ref.b58c_enc(b''))]
            elif what == 'half':
                bad = [('HDPrivateKey', priv[:len(priv) // 2]), ('HDPublicKey', priv + priv), ('HDPrivateKey', priv[1:])]
            for cls, t in bad:
                o = sim.op(x.n, lambda: getattr(x.n, cls).from_string(t))
                sim.probe('hostile-' + what)
                sim.check(o.kind == 'raise', 'bad-string-accepted', lambda: '%s.from_string(%r) (%s) %r although it should be refused' % (cls, t, what, o))
    for x in devs:
        cur['n'] = x.n
        for p, k in sorted(x.mem.items()):
            check_key(k, want(x.w, list(p)), 'at the end, path %r (%s)' % (list(p), x.form), x.form != 'xpub')
