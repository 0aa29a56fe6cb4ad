"""C01: wire objects over fragmenting, cutting, duplicating connections."""
from .. import build, ref
from ..core import Violation, short
from ..gens import I, ref_input, ref_output, ref_tx

TITLE = 'byte streams between a sender and a receiver process'
REAL = ['bitforge.transaction.*', 'bitforge.tools.Buffer', 'bitforge.encoding', 'bitforge.script.* (parsing, serialising)']
STUB = ['network connections and their timing', 'process restarts (private module instances)']
RULE = ('a run = one seed: messages (transactions, inputs, outputs, scripts, back-to-back batches) sent over simulated '
        'connections with fragmentation, delay, cuts, duplicates and receiver restarts')
RUNS = {'quick': 7000, 'thorough': 120000}


def gen(r, tier):
    r.wide = True
    long_ = r.chance(.06)
    items, txs = [], []
    for _ in range(r.randrange(40, 120) if long_ else r.randrange(1, 7)):
        kind = r.weighted([('tx', 6), ('input', 2), ('output', 2), ('script', 2), ('bin', 1.5), ('bout', 1.5)])
        big = not long_ and r.chance(.25)
        if kind == 'tx':
            spec = r.tx(txs, big, many=not long_)
            txs.append(spec)
        elif kind == 'input':
            spec = r.input(txs[-1]['in'] if txs else None, big)
        elif kind == 'output':
            spec = r.output(txs[-1]['out'] if txs else None, big)
        elif kind == 'script':
            spec = r.script(big=big)
        elif kind == 'bin':
            spec = [r.input(big=big) for _ in range(r.randrange(2, 6))]
        else:
            spec = [r.output(big=big) for _ in range(r.randrange(2, 6))]
        items.append({
            'kind': kind, 'spec': spec, 'how': r.randrange(4), 'hex': r.chance(.25),
            'frags': sorted(round(r.random(), 4) for _ in range(r.pick([0, 1, 1, 2, 4, 9]))) + ([-1] if r.chance(.4) else []),
            'lat': [r.log_int(10, 200000) for _ in range(4)],
            'at': r.randrange(0, 300000), 'early': r.chance(.8),
            'cutat': round(r.random(), 4) if r.chance(.3) else None,
            'dup': r.chance(.15), 'crash': round(r.random(), 3) if r.chance(.08) else None})
    return {'cfg': {}, 'items': items}


def build_obj(node, kind, spec, how):
    if kind == 'tx':
        return build.tx(node, spec, how)
    if kind == 'input':
        return build.inp(node, spec, how)
    if kind == 'output':
        return build.outp(node, spec, how)
    return build.script(node, spec, how)


def ref_bytes(kind, spec):
    if kind == 'tx':
        return ref.tx_bytes(ref_tx(spec))
    if kind == 'input':
        return ref.input_bytes(ref_input(spec))
    if kind == 'output':
        return ref.output_bytes(ref_output(spec))
    return ref.script_bytes(I(spec))


def picture(kind, o):
    return {'tx': build.tx_of, 'input': build.input_of, 'output': build.output_of, 'script': build.instrs_of}[kind](o)


def ref_picture(kind, spec):
    return {'tx': ref_tx, 'input': ref_input, 'output': ref_output, 'script': I}[kind](spec)


def cls_of(node, kind):
    return {'tx': node.Transaction, 'input': node.Input, 'output': node.Output, 'script': node.Script}[kind]


def run(plan, sim):
    S = sim.boot(worn=True)
    box = {'R': sim.boot(worn=True), 'gen': 0}

    def send(no, it):
        """serialise at the sender; the wire bytes must be the protocol's"""
        kind, spec = it['kind'], it['spec']
        if kind in ('bin', 'bout'):
            k = 'input' if kind == 'bin' else 'output'
            want = [ref_bytes(k, s) for s in spec]

            def f():
                b = S.Buffer()
                for s in spec:
                    b.write(build_obj(S, k, s, it['how']).to_bytes())
                return bytes(b)
            raw = sim.need(S, 'serialising %s list' % k, f)
            sim.check(raw == b''.join(want), 'wire-encoding', lambda: 'list of %s: got %s want %s' % (k, short(raw.hex()), short(b''.join(want).hex())))
            return raw, want
        want = ref_bytes(kind, spec)

        def f():
            o = build_obj(S, kind, spec, it['how'])
            return o, o.to_bytes(), o.to_hex(), (o.get_id(), bytes(o.get_id_bytes())) if kind == 'tx' else None
        o, raw, hx, ids = sim.need(S, 'serialising %s' % kind, f)
        sim.check(type(raw) is bytes and raw == want, 'wire-encoding', lambda: '%s: got %s want %s' % (kind, short(raw), short(want)))
        sim.check(hx == want.hex(), 'wire-encoding', lambda: '%s to_hex: got %s' % (kind, short(hx)))
        if ids:
            sim.check(ids[0] == ref.txid(want) and ids[1] == ref.dsha(want), 'tx-id', lambda: 'sender id %s, protocol %s' % (ids[0], ref.txid(want)))
        return raw, want

    def parse(node, it, data):
        kind = it['kind']
        c = cls_of(node, kind)
        if it['hex'] and kind != 'script':
            return c.from_hex(bytes(data).hex())
        return c.from_bytes(bytes(data))

    def expect_short(it, data, total):
        """a receiver that misses trailing bytes never gets an object"""
        kind, R = it['kind'], box['R']
        if kind == 'script' or len(data) >= total:
            return
        if kind in ('bin', 'bout'):
            return
        o = sim.op(R, lambda: parse(R, it, data))
        sim.probe('short-parse')
        sim.check(o.kind == 'raise' and isinstance(o.exc, R.InsufficientData), 'short-not-refused',
                  lambda: '%s cut to %d of %d bytes %r' % (kind, len(data), total, o))

    def complete(no, it, raw, want):
        kind, R = it['kind'], box['R']
        if kind in ('bin', 'bout'):
            return complete_batch(it, raw, want)
        o = sim.need(R, 'parsing a complete %s' % kind, lambda: parse(R, it, raw))
        sim.check(picture(kind, o) == ref_picture(kind, it['spec']), 'parsed-differs',
                  lambda: '%s parsed as %s' % (kind, short(repr(picture(kind, o)), 400)))
        if kind == 'input':
            sim.check(isinstance(o.tx_id, str), 'parsed-differs', 'tx_id is %s' % type(o.tx_id))

        def again():
            mine = build_obj(R, kind, it['spec'], it['how'])
            return mine == o, o == mine, mine != o, o.to_bytes(), o.to_hex(), (o.get_id() if kind == 'tx' else None)
        e1, e2, ne, b, hx, i = sim.need(R, 'comparing a parsed %s' % kind, again)
        sim.check(e1 and e2 and not ne, 'not-equal', '%s rebuilt from its bytes is not equal to the original' % kind)
        sim.check(b == want and hx == want.hex(), 're-encoding', lambda: '%s re-encodes as %s' % (kind, short(b.hex())))
        if kind == 'tx':
            sim.check(i == ref.txid(want), 'tx-id', lambda: 'receiver id %s, protocol %s' % (i, ref.txid(want)))
            ref_in = sim.need(R, 'referring to the id', lambda: R.Input(i, 0, R.Script()).to_bytes())
            sim.check(ref_in[:32] == ref.dsha(want), 'tx-id', 'an input that uses the id does not refer to the transaction')
            sim.state('tx', len(it['spec']['in']) > 252, len(it['spec']['out']) > 252, len(want).bit_length())
        sim.state(kind, len(raw).bit_length(), len(it['frags']), it['hex'])

    def complete_batch(it, raw, want):
        R = box['R']
        k = 'input' if it['kind'] == 'bin' else 'output'
        c = cls_of(R, k)
        buf = R.Buffer()
        sent = 0
        got = []
        # the stream arrives in pieces; the receiver reads every object that is complete
        ends, e = [], 0
        for w in want:
            e += len(w)
            ends.append(e)
        for stop in fragments(it, len(raw)):
            sim.need(R, 'Buffer.write', lambda: buf.write(raw[sent:stop]))
            sent = stop
            while len(got) < len(want):
                nxt = ends[len(got)]
                if nxt <= sent:
                    before = len(buf)
                    o = sim.need(R, 'reading %s %d from a buffer' % (k, len(got)), lambda: c.from_buffer(buf))
                    spec = it['spec'][len(got)]
                    sim.check(picture(k, o) == ref_picture(k, spec), 'parsed-differs', lambda: '%s %d parsed as %s' % (k, len(got), short(repr(picture(k, o)), 400)))
                    sim.check(bytes(buf) == raw[nxt:sent], 'buffer-position', lambda: 'after %s %d the buffer holds %d bytes, expected %d (had %d)' % (k, len(got), len(buf), sent - nxt, before))
                    got.append(o)
                else:
                    if it['early']:
                        probe = R.Buffer(bytes(buf))
                        o = sim.op(R, lambda: c.from_buffer(probe))
                        sim.probe('short-parse')
                        sim.check(o.kind == 'raise' and isinstance(o.exc, R.InsufficientData), 'short-not-refused',
                                  lambda: '%s with %d bytes missing %r' % (k, nxt - sent, o))
                    break
        sim.check(len(got) == len(want) and len(buf) == 0, 'buffer-position', 'batch not fully read')
        o = sim.op(R, lambda: c.from_buffer(buf))
        sim.check(o.kind == 'raise' and isinstance(o.exc, R.InsufficientData), 'short-not-refused', lambda: 'empty buffer: %r' % o)
        sim.state(it['kind'], len(want), len(raw).bit_length())

    def fragments(it, n):
        cuts = sorted({int(f * n) if f >= 0 else n - 1 for f in it['frags']} - {0})
        return [c for c in cuts if 0 < c < n] + [n]

    def start(no, it):
        raw, want = send(no, it)
        sim.log('send', no, it['kind'], len(raw))
        state = {'got': 0, 'gen': box['gen']}
        t = 0
        if it['cutat'] is not None:
            n = int(it['cutat'] * len(raw))
            sim.after(it['lat'][0], cut, no, it, raw[:n], len(raw))
            t += it['lat'][0]
        stops = fragments(it, len(raw))
        if len(stops) > 1:
            sim.fault('fragment')
        for j, stop in enumerate(stops):
            t += it['lat'][j % len(it['lat'])]
            sim.after(t, deliver, no, it, raw, want, stop, state)
        if it['dup']:
            sim.after(t + it['lat'][1], dup, no, it, raw, want)

    def cut(no, it, part, total):
        sim.fault('connection-cut')
        expect_short(it, part, total)

    def dup(no, it, raw, want):
        sim.fault('duplicate')
        complete(no, it, raw, want)

    def deliver(no, it, raw, want, stop, state):
        if it['crash'] is not None and stop >= it['crash'] * len(raw):
            it = dict(it, crash=None)
            box['R'] = sim.boot()
            box['gen'] += 1
            sim.fault('receiver-restart')
        if stop < len(raw):
            if it['early']:
                expect_short(it, raw[:stop], len(raw))
        else:
            sim.log('complete', no)
            complete(no, it, raw, want)

    for no, it in enumerate(plan['items']):
        sim.after(it['at'], start, no, it)
    sim.drain()
