"""C04: payment requests travelling from a merchant over relays to a payer."""
import re

from .. import build, ref
from ..core import short
from ..gens import apply_damage

TITLE = 'payment requests over relays that delay, repeat, re-encode and damage them'
REAL = ['bitforge.uri', 'bitforge.unit', 'bitforge.address', 'bitforge.encoding', 'bitforge.utils.encoding']
STUB = ['relays and links (delay, duplication, reordering, damage)', 'foreign wallets that re-encode a request', 'process restarts']
RULE = ('a run = one seed: requests built by bitforge or by a foreign wallet pass chains of relays (some parse and re-emit with '
        'bitforge, some re-encode, some damage) and are read by a payer that may restart')
RUNS = {'quick': 9000, 'thorough': 160000}

POOLS = ['abc XYZ019', '&=?#%+;/:@', '"\'<>\\^`{|}~[]', 'äöüßéñ', '漢字かな', '\U0001f600\U0001f4b0', '\t\n\r\x00\x7f', '%41%zz%', '0123456789.-e',
         '\u00a0\u2028\ufeff', 'ſKÅ℡']


def text(r, n=None):
    n = n or r.pick([1, 1, 2, 5, 12, 30, 120])
    pool = ''.join(r.pick(POOLS) for _ in range(r.randrange(1, 4)))
    return ''.join(r.pick(pool) for _ in range(n))


MEMBERS = ('address', 'amount', 'message', 'label', 'r')


def extras(r):
    out = {}
    for _ in range(r.pick([0, 0, 0, 1, 1, 2, 4])):
        k = r.pick(['req-' + text(r, 3), 'foo', 'somethingyoudontunderstand', text(r), 'Label', 'AMOUNT', 'time', 'size', 'satoshis', 'extras', 'to_uri', '_x', 'parse'])
        if k not in MEMBERS:
            out[k] = text(r)
    return out


def gen(r, tier):
    addrs, reqs = [], []
    relays = r.randrange(0, 4)
    for _ in range(r.randrange(25, 70) if r.chance(.06) else r.randrange(1, 6)):
        a = r.address(addrs)
        addrs.append(a)
        q = {'a': a, 'amt': r.amount() if r.chance(.85) else None, 'extra': extras(r)}
        for f in ('label', 'message', 'r'):
            q[f] = text(r) if r.chance(.4) else None
        q['by'] = 'foreign' if r.chance(.35) else 'bitforge'
        q['style'] = r.getrandbits(30)
        hops = []
        for _ in range(r.randrange(0, relays + 1)):
            hops.append({'kind': r.weighted([('reemit', 5), ('pass', 2), ('recode', 3), ('dict', 2)]), 'style': r.getrandbits(30), 'lat': r.log_int(100, 10**6),
                         'dup': r.log_int(100, 10**6) if r.chance(.15) else None, 'restart': r.chance(.05),
                         'dmg': r.damage(60, ['flip', 'set', 'cut', 'drop', 'dup', 'ins', 'head', 'char', 'char', 'case', 'swap', 'splice']) if r.chance(.2) else []})
        q['hops'] = hops
        q['at'] = r.randrange(0, 10**6)
        q['chars'] = text(r, 8)
        reqs.append(q)
    junk = [{'t': r.pick(['', 'bitcoin:', 'bitcoin:?', '?', 'bitcoin://', '[', 'bitcoin://[', 'bitcoin:' + text(r), text(r), '://', 'bitcoin:?amount=1',
                          'http://[::1', 'bitcoin:%s?amount=%s' % (ref.addr(bytes.fromhex(a['h']), a['n'], a['t']),
                                                                   r.pick(['nan', 'inf', '-inf', '1e400', '-1', '', 'x', '1,0', '9' * 400, '1e-400', '0x10', '１', '1_0', ' 1 '])),
                          'bitcoin:' + ref.addr(bytes.fromhex(a['h']), a['n'], a['t']) + r.pick(['/', '//', '#', '#x', ';x', '?', '?&&', '?=', '?a', ' ', '\u2100', '?amount=1&amount=2', '@x', ':80'])])}
            for _ in range(r.randrange(0, 5))]
    return {'cfg': {}, 'reqs': reqs, 'junk': junk}


SAFE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~'


def quote(s, style):
    out = ''
    for i, ch in enumerate(s):
        b = ch.encode('utf-8')
        if ch in SAFE and (style >> (i % 11)) & 7 != 7:
            out += ch
        elif ch == ' ' and style & 1:
            out += '+'
        else:
            out += ''.join(('%%%02x' if style & 2 else '%%%02X') % x for x in b)
    return out


def amount_text(sat, style):
    k = style % 5
    whole, frac = divmod(sat, 10**8)
    full = '%d.%08d' % (whole, frac)
    if k == 0:
        return full
    if k == 1:
        return full.rstrip('0').rstrip('.')
    if k == 2 and whole == 0:
        return full[1:]
    if k == 3 and frac == 0:
        return '%d' % whole if style & 64 else '%d.' % whole
    return '00' + full


def emit_foreign(q, style):
    ps = []
    if q['amt'] is not None:
        ps.append(('amount', amount_text(q['amt'], style)))
    for f in ('label', 'message', 'r'):
        if q[f]:
            ps.append((f, quote(q[f], style)))
    ps += [(quote(k, style), quote(v, style)) for k, v in sorted(q['extra'].items())]
    if ps:
        k = style % len(ps)
        ps = ps[k:] + ps[:k]
        if style & 256:
            ps.reverse()
    s = 'bitcoin:' + ('//' if style & 512 else '') + ref.addr(bytes.fromhex(q['a']['h']), q['a']['n'], q['a']['t'])
    return s + ('?' + '&'.join('%s=%s' % p for p in ps) if ps else '')


def chars_damage(t, edits, chars):
    for e in edits:
        k, a, v = e
        n = len(t)
        i = min(int(a * n), max(0, n - 1))
        if k == 'char' and n:
            t = t[:i] + chars[v % len(chars)] + t[i + 1:]
        elif k == 'case' and n:
            t = t[:i] + t[i].swapcase() + t[i + 1:]
        elif k == 'swap' and n > 1:
            i = min(i, n - 2)
            t = t[:i] + t[i + 1] + t[i] + t[i + 2:]
        else:
            t = apply_damage(t.encode('utf-8'), [e]).decode('utf-8', 'ignore')
    return t


def amount_said(t):
    """what the one plain amount of a URI says: satoshis, 'no number', or None (not there, or open to interpretation)"""
    m = re.fullmatch(r'[!"$-~]*\?([!-"$-~]*)', t)
    parts = [x for x in m.group(1).split('&') if x] if m else []
    if '%' in t or ';' in t or t.count('?') != 1:
        return None
    am = [x for x in parts if x.lower().startswith('amount')]
    if len(am) != 1 or not am[0].startswith('amount=') or len(am[0]) == 7:
        return None
    x = am[0][7:]
    if re.fullmatch(r'[0-9]{1,8}(\.[0-9]{1,8})?', x):
        sat = int(x.partition('.')[0]) * 10 ** 8 + int((x.partition('.')[2] + '0' * 8)[:8])
        return sat if sat <= 21 * 10 ** 14 else None
    return 'no number' if re.search('[bcdghjklmopqrsuvwxz!@$*(),:/=]', x.lower()) else None


def run(plan, sim):
    merchant = sim.boot(worn=True)
    box = {'payer': sim.boot(worn=True), 'relay': sim.boot()}
    kept = []

    def fields(u):
        g = lambda f: getattr(u, f, None)
        return (build.addr_of(u.address), None if u.amount is None else u.amount.satoshis, g('label'), g('message'), g('r'), dict(u.extras))

    def want(q):
        return ((bytes.fromhex(q['a']['h']), q['a']['n'], q['a']['t']), q['amt'], q['label'], q['message'], q['r'], q['extra'])

    def args(q, node, addr):
        d = {'address': addr}
        if q['amt'] is not None:
            d['amount'] = q['amt']
        for f in ('label', 'message', 'r'):
            if q[f] is not None:
                d[f] = q[f]
        d.update(q['extra'])
        return d

    def read(node, t, q, intact, who):
        """a participant reads the text"""
        o = sim.op(node, lambda: node.URI(t))
        v = sim.op(node, lambda: node.URI.is_valid(t))
        what = lambda: '%s reads %r: %r' % (who, short(t, 300), o)
        sim.check(v.kind == 'ok' and v.value in (True, False), 'is-valid-raises', lambda: '%s; is_valid %r' % (what(), v))
        sim.check(v.value == (o.kind == 'ok'), 'is-valid-disagrees', lambda: '%s; is_valid %r' % (what(), v))
        if intact:
            sim.check(o.kind == 'ok', 'refused-intact', what)
            got = fields(o.value)
            sim.check(got == want(q), 'request-differs', lambda: '%s as %r, was %r' % (what(), got, want(q)))
            sim.probe('intact-read')
        elif o.kind == 'ok':
            sim.probe('damaged-accepted')
            got = fields(o.value)
            h, net, ty = got[0]
            a = ref.addr(h, net, ty)
            clean = t.replace('\t', '').replace('\n', '').replace('\r', '')
            sim.check(a in clean, 'address-not-in-text', lambda: '%s as %r' % (what(), a))
            sim.check(got[1] is None or isinstance(got[1], int), 'amount-type', what)
            said = amount_said(t)
            if said is not None:
                sim.probe('damaged-amount-known')
                sim.check(said != 'no number' and got[1] == said, 'damaged-amount', lambda: '%s as %r satoshi; the text says %r' % (what(), got[1], said))
        else:
            sim.probe('damaged-refused')
            sim.check(isinstance(o.exc, Exception), 'refusal', what)
        sim.state(who, intact, o.kind, type(o.exc).__name__, bool(q and q['amt'] is not None))
        return o.value if o.kind == 'ok' else None

    def start(no, q):
        if q['by'] == 'foreign':
            t = emit_foreign(q, q['style'])
        else:
            a = ref.addr(bytes.fromhex(q['a']['h']), q['a']['n'], q['a']['t'])
            d = args(q, merchant, a)
            before = dict(d)
            u, t = sim.need(merchant, 'building a payment request', lambda: (lambda u: (u, u.to_uri()))(merchant.URI(d)))
            sim.check(d == before, 'arguments-changed', 'the dict given to URI was modified')
            sim.check(fields(u) == want(q), 'request-differs', lambda: 'built request reads %r, given %r' % (fields(u), want(q)))
            sim.check(isinstance(t, str), 'uri-type', 'to_uri returned %s' % type(t))
        hop(no, q, t, True, 0)

    def hop(no, q, t, intact, i):
        if i >= len(q['hops']):
            deliver(no, q, t, intact)
            return
        h = q['hops'][i]
        sim.after(h['lat'], arrive, no, q, t, intact, i)
        if h['dup'] is not None:
            sim.fault('duplicate')
            sim.after(h['lat'] + h['dup'], arrive, no, q, t, intact, i)

    def arrive(no, q, t, intact, i):
        h = q['hops'][i]
        if h['restart']:
            box['relay'] = sim.boot()
            sim.fault('relay-restart')
        R = box['relay']
        if h['dmg']:
            t2 = chars_damage(t, h['dmg'], q['chars'])
            if t2 != t:
                sim.fault('text-damage')
                # the damaged copy travels on; the sender repeats the intact one
                hop(no, q, t2, False, i + 1)
        u = read(R, t, q, intact, 'relay')
        if not intact:
            if u is not None:
                o = sim.op(R, lambda: u.to_uri())
                if o.kind == 'ok' and isinstance(o.value, str):
                    a0, a1 = build.addr_of(u.address), None
                    v = sim.op(R, lambda: R.URI(o.value))
                    if v.kind == 'ok':
                        sim.check(build.addr_of(v.value.address) == a0, 'reemit-address', lambda: 're-emitted %r reads another address' % o.value)
            deliver(no, q, t, False)
            return
        if h['kind'] == 'reemit':
            t = sim.need(R, 're-emitting a request', lambda: R.URI(t).to_uri())
            sim.probe('reemit')
        elif h['kind'] == 'dict':
            def f():
                u = R.URI(t)
                d = dict(u.extras, address=u.address.to_string())
                if u.amount is not None:
                    d['amount'] = u.amount.satoshis
                for k in ('label', 'message', 'r'):
                    if getattr(u, k, None):
                        d[k] = getattr(u, k)
                return R.URI(d).to_uri()
            t = sim.need(R, 'rebuilding a request', f)
        elif h['kind'] == 'recode':
            t = emit_foreign(q, h['style'])
            sim.fault('re-encoded')
        hop(no, q, t, True, i + 1)

    def deliver(no, q, t, intact):
        P = box['payer']
        u = read(P, t, q, intact, 'payer')
        sim.log('deliver', no, intact, u is not None)
        if u is None:
            return
        if intact:
            def f():
                s = u.address.to_string()
                a = P.Address.from_string(s)
                return s, a == u.address, repr(u) != ''
            s, eq, _ = sim.need(P, 'using a request', f)
            sim.check(eq and s == ref.addr(*want(q)[0]), 'address-string', lambda: 'payer would pay %s' % s)
            if u.amount is not None:
                sim.check(type(u.amount.satoshis) is int, 'amount-type', 'amount is %r' % (u.amount.satoshis,))
            kept.append((u, want(q)))
            u2, w2 = kept[(len(kept) * 5) % len(kept)]
            sim.check(fields(u2) == w2, 'earlier-object-changed', lambda: 'an earlier request now reads %r, was %r' % (fields(u2), w2))

    for no, q in enumerate(plan['reqs']):
        sim.after(q['at'], start, no, q)
    for no, j in enumerate(plan['junk']):
        sim.after(300000 + no, lambda j=j: (sim.fault('junk-text'), read(box['payer'], j['t'], None, False, 'junk')))

    def addresses():
        # damaged address strings on their own
        for no, q in enumerate(plan['reqs']):
            s = ref.addr(bytes.fromhex(q['a']['h']), q['a']['n'], q['a']['t'])
            for h in q['hops']:
                if not h['dmg']:
                    continue
                t = chars_damage(s, h['dmg'], q['chars'] + ref.B58)
                P = box['payer']
                o = sim.op(P, lambda: P.Address.from_string(t))
                w = ref.unaddr(t)
                what = lambda: 'address text %r: %r' % (t, o)
                sim.check((o.kind == 'ok') == (w is not None), 'address-accepted' if w is None else 'address-refused', what)
                if o.kind == 'ok':
                    sim.check(build.addr_of(o.value) == w, 'address-differs', what)
    sim.after(5 * 10**6, addresses)
    sim.drain()
