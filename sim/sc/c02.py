"""C02: damaged wire bytes."""
from .. import build, ref
from ..core import short, str_exc
from ..gens import I, apply_damage, ref_input, ref_output, ref_tx
from .c01 import cls_of, picture, ref_bytes

TITLE = 'a receiver fed by links and disks that damage bytes'
REAL = ['bitforge.transaction.*', 'bitforge.tools.Buffer', 'bitforge.encoding', 'bitforge.script.* (parsing, serialising)', 'bitforge.errors']
STUB = ['links and disks (damage: flips, overwrites, cuts, drops, repeats, insertions, splices, lost heads)']
RULE = ('a run = one seed: several messages, each damaged by one or more faults and decoded by a long-lived receiver')
RUNS = {'quick': 16000, 'thorough': 300000}


def nasty(r):
    """hand-shaped hostile bytes"""
    k = r.randrange(9)
    big = r.pick([b'\xff' + b'\xff' * 8, b'\xfe\xff\xff\xff\xff', b'\xfd\xff\xff', b'\xff' + b'\0' * 7 + b'\x80', b'\xfe\0\0\0\x80', b'\xfd\xfd\0'])
    tail = bytes.fromhex(r.hexb(r.pick([0, 1, 5, 40, 300])))
    if k == 0:
        return 'tx', b'\1\0\0\0' + big + tail
    if k == 1:
        return 'input', bytes(36) + big + tail
    if k == 2:
        return 'output', bytes(8) + big + tail
    if k == 3:
        return 'script', bytes([r.pick([76, 77, 78, 75, 1])]) + tail
    if k == 4:
        return 'script', bytes(range(79, 256)) + tail
    if k == 5:
        return 'script', b'\x4e' + big[1:5].ljust(4, b'\xff') + tail
    if k == 6:      # non-canonical lengths around a real object
        return 'output', bytes(8) + r.pick([b'\xfd\x02\0', b'\xfe\x02\0\0\0', b'\xff\x02\0\0\0\0\0\0\0']) + b'\x51\x52' + (tail if r.chance(.3) else b'')
    if k == 7:
        return r.pick(['tx', 'input', 'output']), tail
    n = r.randrange(1, 4)
    return 'script', b''.join(bytes([r.randrange(256)]) + bytes.fromhex(r.hexb(r.randrange(0, 4))) for _ in range(n))


def gen(r, tier):
    items, txs = [], []
    for _ in range(r.randrange(30, 80) if r.chance(.08) else r.randrange(2, 10)):
        if items and r.chance(.2):                # delivered again
            items.append({'again': r.randrange(len(items)), 'dmg': r.damage(60) if r.chance(.2) else [], 'buf': r.chance(.3), 'tail': r.hexb(r.randrange(0, 5)), 'hex': r.chance(.15)})
            continue
        if r.chance(.25):
            kind, b = nasty(r)
            items.append({'kind': kind, 'raw': b.hex(), 'dmg': r.damage(len(b)) if r.chance(.2) else [], 'buf': r.chance(.3), 'tail': r.hexb(r.randrange(0, 5))})
            continue
        kind = r.weighted([('tx', 5), ('input', 2), ('output', 2), ('script', 3)])
        big = r.chance(.1)
        spec = {'tx': lambda: r.tx(txs, big, many=r.chance(.3)), 'input': lambda: r.input(txs[-1]['in'] if txs else None, big),
                'output': lambda: r.output(txs[-1]['out'] if txs else None, big), 'script': lambda: r.script(big=big)}[kind]()
        if kind == 'tx':
            txs.append(spec)
        n = len(ref_bytes(kind, spec))
        items.append({'kind': kind, 'spec': spec, 'dmg': r.damage(n) if r.chance(.9) else [],
                      'buf': r.chance(.3), 'tail': r.hexb(r.randrange(0, 5)), 'hex': r.chance(.15),
                      'as': r.pick(['tx', 'input', 'output', 'script']) if r.chance(.06) else kind})
    return {'cfg': {}, 'items': items}


def judge(kind, data):
    """(verdict, picture, used): verdict 'ok' must accept, 'grey' may, 'bad' must refuse"""
    if kind == 'script':
        try:
            return 'ok', ref.script_parse(data), len(data)
        except ref.Bad:
            return 'bad', None, None
    rd = ref.Rd(data)
    try:
        o = {'tx': ref.read_tx, 'input': ref.read_input, 'output': ref.read_output}[kind](rd)
        for part in (o['in'] + o['out'] if kind == 'tx' else [o]):
            ref.script_parse(part['script'])
    except (ref.Short, ref.Bad, OverflowError, MemoryError):
        return 'bad', None, None
    ok = rd.canon
    if kind == 'tx' and not (o['in'] and o['out']):
        ok = False
    return ('ok' if ok else 'grey'), o, rd.i


def run(plan, sim):
    R = sim.boot(worn=True)
    prev = b''
    kept, past = [], []
    for no, it in enumerate(plan['items']):
        if 'again' in it:
            if not past:
                continue
            kind, clean = past[it['again'] % len(past)]
            sim.fault('delivered-again')
        else:
            kind = it.get('as') or it['kind']
            clean = bytes.fromhex(it['raw']) if 'raw' in it else ref_bytes(it['kind'], it['spec'])
        data = apply_damage(clean, it['dmg'], prev)
        prev = clean
        past.append((kind, data))
        for e in it['dmg']:
            sim.fault('damage-' + e[0])
        sim.now += 1000
        verdict, pic, used = judge(kind, data)
        tail = bytes.fromhex(it['tail'])
        c = cls_of(R, kind)
        buf = None
        if it['buf'] and kind in ('input', 'output'):
            buf = R.Buffer(data + tail)
            verdict, pic, used = judge(kind, data + tail)
            o = sim.op(R, lambda: c.from_buffer(buf))
        elif it.get('hex') and kind != 'script':
            o = sim.op(R, lambda: c.from_hex(data.hex()))
        else:
            o = sim.op(R, lambda: c.from_bytes(data))
            if verdict == 'ok' and used != len(data):
                verdict = 'grey'                         # bytes left over: accept or refuse
        sim.log(no, kind, verdict, o.kind, len(data))
        what = lambda: '%s from %s: %r' % (kind, short(data.hex(), 300), o)
        if o.kind == 'raise':
            sim.probe('refused-' + verdict)
            sim.check(isinstance(o.exc, R.Error), 'wrong-error', what)
            msg = sim.op(R, lambda: (str(o.exc), repr(o.exc)))
            sim.check(msg.kind == 'ok' and isinstance(msg.value[0], str) and msg.value[0] != '', 'unprintable-error', lambda: '%s; printing it %r' % (what(), msg))
            sim.check(verdict != 'ok', 'refused-valid', what)
            sim.state(kind, 'refused', type(o.exc).__name__, verdict)
            continue
        sim.probe('accepted-' + verdict)
        sim.check(verdict != 'bad', 'accepted-malformed', what)
        v = o.value
        got = picture(kind, v)
        sim.check(got == pic, 'decoded-differs', lambda: '%s denotes %s' % (what(), short(repr(pic), 300)))

        def use():
            b = v.to_bytes()
            w = c.from_bytes(b)
            scripts = [v] if kind == 'script' else [x.script for x in v.inputs + v.outputs] if kind == 'tx' else [v.script]
            said = [f(x) for s in scripts for i in s.instructions[:40] for x in (i, i.opcode) for f in (repr, str)]
            return b, v == w, hash(v) == hash(w), isinstance(repr(v), str), isinstance(str(v), str) and all(isinstance(x, str) for x in said), v != w
        u = sim.op(R, use)
        sim.check(u.kind == 'ok', 'unusable-object', lambda: '%s; using it %r' % (what(), u))
        b, eq, he, r1, r2, ne = u.value
        sim.check(eq and he and not ne and r1 and r2, 're-decode-differs', what)
        if verdict == 'ok':
            sim.check(b == (data[:used] if buf is None else (data + tail)[:used]), 're-encoding', lambda: '%s re-encodes as %s' % (what(), short(b.hex())))
        if buf is not None:
            sim.check(bytes(buf) == (data + tail)[used:], 'buffer-position', lambda: '%s left %d bytes, expected %d' % (what(), len(buf), len(data + tail) - used))
        sim.state(kind, 'accepted', verdict, len(data).bit_length())
        # objects decoded earlier are still what they were
        kept.append((kind, v, pic))
        if len(kept) > 1:
            k2, v2, p2 = kept[(no * 7) % len(kept)]
            sim.check(picture(k2, v2) == p2, 'earlier-object-changed', lambda: 'after %s an earlier %s reads %s' % (what(), k2, short(repr(picture(k2, v2)))))
            e = sim.op(R, lambda: (v == v2, v2 == v))
            if k2 == kind:
                same = got == p2 and True
                sim.check(e.kind == 'ok' and e.value[0] == e.value[1] == same, 'comparison', lambda: 'comparing two decoded %s objects: %r, expected %r' % (kind, e, same))
