"""C13: an archive of scripts, as text and binary, on a faulty disk."""
from .. import build, core, ref
from ..core import BadPlan, short
from ..disk import Disk, gen_fates
from ..gens import I, apply_damage

TITLE = 'an archive process that keeps scripts as text and binary, converts them back and forth, crashes and reloads them'
REAL = ['bitforge.script.script', 'bitforge.script.instruction', 'bitforge.script.opcode', 'bitforge.tools', 'bitforge.encoding',
        'bitforge.pubkey (keys read from scripts)']
STUB = ['disk (buffered writes, sync, crash fates, rot, misdirection)', 'process restarts', 'faults inside conversions']
RULE = ('a run = one seed: scripts are archived in text, hexadecimal and binary form, torn, rotted, swapped or replaced by odd records, converted '
        'through chains of forms with interrupts in between, and every record is reloaded in restarted processes and compared, with its '
        'kind and everything its accessors read, with what the record spells out')
RUNS = {'quick': 9000, 'thorough': 150000}
ASSUME = ['text records hold single-byte characters (decimal digits of other alphabets are not judged)']

FORMS = ('text', 'bin', 'hex')


def odd_text(r):
    """text no library wrote"""
    h = lambda n: '0x' + r.hexb(n)
    n = r.randrange(1, 76)
    tok = lambda: r.pick([
        'OP_DUP', 'OP_0', 'OP_FALSE', 'OP_TRUE', 'OP_16', 'OP_17', 'OP_NOP2', 'OP_NOP1', 'OP_CHECKLOCKTIMEVERIFY', 'OP_RETURN', 'OP_1NEGATE', 'op_dup', 'DUP',
        'OP_', 'OP', '', ' ', 'OP_UNKNOWN', 'OP_INVALIDOPCODE', 'OP_PUBKEY', '_PUSH_5_BYTES', 'OP_CHECKSIG', 'OP_CHECKMULTISIG', 'OP_HASH160', 'OP_EQUAL',
        '%d %s' % (n, h(n)), '%d %s' % (n, h(n + 1)), '%d %s' % (n, h(n - 1)), '%d' % n, h(n), '%d %s' % (n, r.hexb(n)), '0%d %s' % (n, h(n)), '+%d %s' % (n, h(n)),
        '-1 0x', '0 0x', '76 ' + h(76), '75 ' + h(75), '1 ' + h(1), '%d 0x%s' % (n, r.hexb(n).upper()), '%d 0X%s' % (n, r.hexb(n)), '%d 0x%s' % (n, r.hexb(n)[:-1]),
        '%d 0x%szz' % (n, r.hexb(n - 1)), 'OP_PUSHDATA1 %d %s' % (n, h(n)), 'OP_PUSHDATA1 0 0x', 'OP_PUSHDATA2 0 0x', 'OP_PUSHDATA4 %d %s' % (n, h(n)), 'OP_PUSHDATA1 256 ' + h(256),
        'OP_PUSHDATA1 255 ' + h(255), 'OP_PUSHDATA2 256 ' + h(256), 'OP_PUSHDATA1 %d %s' % (n + 1, h(n)), 'OP_PUSHDATA1 ' + h(n), 'OP_PUSHDATA1', 'OP_PUSHDATA1 %d' % n, 'OP_PUSHDATA2 x ' + h(n),
        'OP_PUSHDATA2 %d %s' % (n, r.hexb(n)), 'OP_DUP\tOP_DUP', 'OP_DUP\n', '%d  %s' % (n, h(n)), 'OP_PUSHDATA1 1_0 ' + h(10), '\xb2 ' + h(2), '\xb9 ' + h(1), '9' * r.pick([5, 30, 4299, 5000]),
        '%d 0x' % n, '1e1 ' + h(10), '0x05 ' + h(5), 'OP_Opcode', 'OP_DUP,', '1 0x5', '2 0x 5', '1.0 ' + h(1)])
    t = ' '.join(tok() for _ in range(r.weighted([(1, 4), (2, 3), (3, 2), (5, 1)])))
    return t.encode('latin-1')


def odd_bin(r):
    pre = ref.script_bytes(I(r.script(maxlen=4)))
    tail = r.pick([b'\x4c', b'\x4d', b'\x4e', b'\x4d\x01', b'\x4e\1\0\0', b'\x4c\5abcd', b'\x05abcd', b'\x4b' + bytes(74), b'\x4d\xff\xff', b'\x4e\xff\xff\xff\xff', b'\x4e\0\0\0\x80a', b'\1', b'',
                   bytes([r.randrange(256)]), bytes([r.randrange(186, 256)]) * 2, b'\x4c\0', b'\x4d\0\0', b'\x4e\0\0\0\0', b'\x4d\5\0abcde', b'\x4e\5\0\0\0abcde'])
    return pre + tail


def gen(r, tier):
    steps, pool, slots = [], [], 0
    faulty = r.chance(.85)
    for _ in range(r.randrange(25, 60) if r.chance(.05) else r.randrange(2, 11)):
        k = r.random()
        if k < .5 or not slots:
            s = r.script(pool, big=r.chance(.12), named=True, maxlen=r.pick([4, 9, 9, 25]))
            if any(len(d or '') > 3000 for _, d in s):
                s = s[:3]
            if any(o not in ref.OPNAMES and not 1 <= o <= 78 for o, _ in s):
                s = [x for x in s if x[0] in ref.OPNAMES or 1 <= x[0] <= 78]
            pool.append(s)
            slot = r.randrange(slots) if slots and r.chance(.2) else slots
            slots = max(slots, slot + 1)
            steps.append({'op': 'put', 'slot': slot, 'form': r.pick(FORMS), 's': s, 'how': r.randrange(4), 'sync': r.chance(.7)})
        elif k < .62 or not faulty:
            steps.append({'op': 'load', 'slot': r.randrange(slots), 'chain': [r.pick(FORMS) for _ in range(r.randrange(1, 6))],
                          'fault': [r.pick(['interrupt', 'memory', 'interrupt', 'alarm']), round(r.random(), 4)] if faulty and r.chance(.4) else None})
        elif k < .7:
            steps.append({'op': 'crash', 'fates': gen_fates(r)})
        elif k < .82:
            steps.append({'op': 'rot', 'slot': r.randrange(slots), 'dmg': r.damage(40, ['flip', 'set', 'cut', 'cut', 'drop', 'dup', 'ins', 'head', 'splice', 'space', 'digit', 'hexdig', 'case', 'tokdrop', 'tokdup', 'tokswap'])})
        elif k < .87:
            steps.append({'op': 'swap', 'a': r.randrange(slots), 'b': r.randrange(slots)})
        else:
            f = r.pick(['text', 'text', 'bin', 'hex'])
            d = odd_text(r) if f == 'text' else odd_bin(r)
            if f == 'hex':
                d = r.pick([d.hex(), d.hex().upper(), d.hex() + '0', d.hex() + 'zz', '0x' + d.hex(), d.hex() + ' ', d.hex()[1:]]).encode()
            steps.append({'op': 'raw', 'slot': slots, 'form': f, 'data': d.hex()})
            slots += 1
    steps.append({'op': 'crash', 'fates': gen_fates(r)})
    return {'cfg': {'real_ec': r.chance(.02), 'gran': r.pick(['line', 'line', 'instr'])}, 'steps': steps}


def rot(data, edits, other):
    for e in edits:
        k, a, v = e
        n = len(data)
        i = min(int(a * n), max(0, n - 1))
        if k == 'space':
            j = data.find(b' ', i)
            if j >= 0:
                data = data[:j] + [b'', b'  ', b'\n', b'\t', b'_'][v % 5] + data[j + 1:]
        elif k in ('digit', 'hexdig', 'case') and n:
            c = {'digit': b'0123456789'[v % 10:v % 10 + 1], 'hexdig': b'0123456789abcdef'[v % 16:v % 16 + 1], 'case': data[i:i + 1].swapcase()}[k]
            data = data[:i] + c + data[i + 1:]
        elif k in ('tokdrop', 'tokdup', 'tokswap'):
            t = data.split(b' ')
            j = min(int(a * len(t)), len(t) - 1)
            if k == 'tokdrop':
                del t[j]
            elif k == 'tokdup':
                t.insert(j, t[j])
            else:
                x = v % len(t)
                t[j], t[x] = t[x], t[j]
            data = b' '.join(t)
        else:
            data = apply_damage(data, [e], other)
    return data


def decode(form, data):
    """instructions the record spells out; Bad; Short when it is not ours to judge"""
    if form == 'text':
        return ref.script_untext(data.decode('latin-1'))
    if form == 'hex':
        t = data.decode('latin-1')
        data = ref._hex(t)
        if data is None:
            raise ref.Bad('hex')
    try:
        return ref.script_parse(data)
    except ref.Short:
        raise ref.Bad('cut')


def encode(form, ins):
    if form == 'text':
        return ref.script_text(ins).encode()
    b = ref.script_bytes(ins)
    return b.hex().encode() if form == 'hex' else b


def sayable(ins): return all(o in ref.OPNAMES or 1 <= o <= 78 for o, _ in ins)


KINDS = ('PayToPubkeyIn', 'PayToPubkeyOut', 'PayToScriptIn', 'PayToScriptOut', 'OpReturnOut', 'RedeemMultisig')


def kinds(n, s): return {k for k in KINDS if isinstance(s, getattr(n, k))} or ({'Script'} if isinstance(s, n.Script) else set())


def run(plan, sim):
    box = {'n': sim.boot(worn=True)}
    disk = Disk(sim)
    meta = {}
    kept = []

    def writer(s, form):
        return {'text': s.to_string, 'bin': s.to_bytes, 'hex': s.to_hex}[form]()

    def reader(n, data, form):
        if form == 'text':
            return n.Script.from_string(data.decode('latin-1'))
        if form == 'bin':
            return n.Script.from_bytes(data)
        return n.Script.from_bytes(n.enc.decode_hex(data.decode('latin-1')))

    def raw(v): return v.encode('utf-8') if isinstance(v, str) else bytes(v)

    def same(n, s, ins, what):
        """everything readable from the script is what the instructions say"""
        got = build.instrs_of(s)
        sim.check(got == ins, 'script-differs', lambda: '%s reads %s, the record says %s' % (what(), short(repr(got), 300), short(repr(ins), 300)))
        kind = ref.classify(ins)
        sim.check(kinds(n, s) == {kind}, 'kind', lambda: '%s is a %s, should be %s' % (what(), kinds(n, s), kind))

        def plain():
            twin = n.Script.create([n.Instruction(n.Opcode(o), d) if d is not None else n.Instruction(n.Opcode(o)) for o, d in ins])
            return (s == twin, hash(s) == hash(twin), not (s != twin), bytes(s.to_bytes()), s.to_hex(), bytes(s.to_hash()), bool(s.is_push_only()), bool(s.is_script_hash_out()),
                    repr(s) == repr(twin), [bool(i.is_push()) for i in s.instructions])
        b = ref.script_bytes(ins)
        exp = (True, True, True, b, b.hex(), ref.hash160(b), all(o <= 96 for o, _ in ins), len(b) == 23 and b[:2] == b'\xa9\x14' and b[22] == 135, True, [1 <= o <= 78 for o, _ in ins])
        got2 = sim.need(n, 'reading a script', plain)
        sim.check(got2 == exp, 'script-facts', lambda: '%s: %s, should be %s' % (what(), short(repr(got2), 400), short(repr(exp), 400)))
        if sayable(ins):
            t = sim.need(n, 'printing a script', s.to_string)
            sim.check(t == ref.script_text(ins), 'text', lambda: '%s prints %s, should be %s' % (what(), short(t, 300), short(ref.script_text(ins), 300)))
        datas = [d for _, d in ins if d is not None]

        def key(d):
            q = ref.unsec(d)
            return None if q is None else [list(q[0]), q[1]]

        def pk(k): return [list(k.pair), bool(k.compressed)]
        acc = {'PayToPubkeyIn': [('get_signature', bytes, lambda: datas[0]), ('get_public_key', pk, lambda: key(datas[1]))],
               'PayToPubkeyOut': [('get_address_hash', bytes, lambda: datas[0])],
               'PayToScriptOut': [('get_script_hash', bytes, lambda: datas[0])],
               'OpReturnOut': [('get_data', bytes, lambda: datas[0])],
               'PayToScriptIn': [('get_signatures', lambda v: [bytes(x) for x in v], lambda: datas[:-1]), ('get_script', build.instrs_of, lambda: parse(datas[-1]))],
               'RedeemMultisig': [('get_min_signatures', int, lambda: 0 if ins[0][0] == 0 else ins[0][0] - 80),
                                  ('get_public_keys', lambda v: [pk(x) for x in v], lambda: None if any(key(d) is None for d in datas) else [key(d) for d in datas])]}.get(kind, [])
        for name, pic, want in acc:
            w = want()
            o = sim.op(n, lambda: pic(getattr(s, name)()))
            if w is None:
                sim.check(o.kind == 'raise' and isinstance(o.exc, n.Error), 'accessor-accepts', lambda: '%s: %s() of unreadable content %r' % (what(), name, o))
            else:
                sim.check(o.kind == 'ok' and o.value == w, 'accessor', lambda: '%s: %s() %r, the record says %s' % (what(), name, o, short(repr(w), 300)))
        if kind == 'PayToScriptIn' and parse(datas[-1]) is not None:
            inner = sim.need(n, 'reading the redeem script', s.get_script)
            k2 = ref.classify(parse(datas[-1]))
            sim.check(kinds(n, inner) == {k2}, 'kind', lambda: '%s: redeem script is a %s, should be %s' % (what(), kinds(n, inner), k2))
        sim.state(kind, len(ins), tuple(min(o, 79) // 76 for o, _ in ins[:4]))

    def parse(b):
        try:
            return ref.script_parse(b)
        except (ref.Short, ref.Bad):
            return None

    def load(slot, chain=(), fault=None):
        name = 'r%d' % slot
        data = disk.read(name)
        if data is None or name not in meta:
            return
        n, form = box['n'], meta[name]
        try:
            want = decode(form, data)
        except ref.Bad:
            want = None
        except ref.Short:
            sim.probe('grey-record')
            o = sim.op(n, lambda: reader(n, data, form))
            return
        if fault:
            o = sim.op(n, lambda: reader(n, data, form), core.aim(fault, 200))
            if o.kind == 'ok':
                sim.check(want is not None and build.instrs_of(o.value) == want, 'cut-short-wrong', lambda: 'a disturbed load of %s gave %r' % (short(repr(data)), o))
        o = sim.op(n, lambda: reader(n, data, form))
        what = lambda: '%s record %s' % (form, short(repr(data), 220))
        if o.kind == 'raise':
            sim.probe('refused')
            sim.check(want is None, 'refused-valid', lambda: '%s %r' % (what(), o))
            sim.check(isinstance(o.exc, n.Error), 'wrong-error', lambda: '%s %r' % (what(), o))
            m = sim.op(n, lambda: str(o.exc))
            sim.check(m.kind == 'ok' and m.value, 'unprintable-error', lambda: '%s %r' % (what(), o))
            sim.state(form, 'refused', type(o.exc).__name__)
            return
        sim.probe('accepted')
        sim.check(want is not None, 'accepted-invalid', lambda: '%s %r' % (what(), o))
        s = o.value
        same(n, s, want, what)
        kept.append((s, want, what))
        # conversions in any order
        trail = [form]
        for f in chain:
            if f == 'text' and not sayable(want):
                f = 'bin'
            trail.append(f)
            if fault:
                x = sim.op(n, lambda: reader(n, raw(writer(s, f)), f), core.aim((fault[0], (fault[1] * 7 + len(trail) * .37) % 1), 300))
                if x.kind == 'ok':
                    sim.check(build.instrs_of(x.value) == want, 'cut-short-wrong', lambda: 'a disturbed conversion of %s gave %r' % (what(), x))
            v = sim.need(n, 'writing a script as %s' % f, lambda: writer(s, f))
            sim.check(raw(v) == encode(f, want), 'written-form', lambda: '%s after %s written as %s' % (what(), '>'.join(trail), short(repr(raw(v)), 300)))
            s = sim.need(n, 'reading a script back from %s' % f, lambda: reader(n, raw(v), f))
            same(n, s, want, lambda: '%s after %s' % (what(), '>'.join(trail)))
        s2, w2, what2 = kept[(len(kept) * 7) % len(kept)]
        sim.check(build.instrs_of(s2) == w2, 'earlier-object-changed', lambda: 'after %s, an earlier script (%s) reads %r' % (what(), what2(), build.instrs_of(s2)))

    for st in plan['steps']:
        sim.now += 500
        op = st['op']
        if op == 'put':
            n, form = box['n'], st['form']
            ins = I(st['s'])
            if form == 'text' and not sayable(ins):
                raise BadPlan('opcode without a name')
            s = sim.need(n, 'building a script', lambda: build.script(n, st['s'], st['how']))
            v = sim.need(n, 'writing a script', lambda: writer(s, form))
            sim.check(raw(v) == encode(form, ins), 'written-form', lambda: '%s of %s is %s' % (form, short(repr(ins), 200), short(repr(raw(v)), 300)))
            name = 'r%d' % st['slot']
            if name in meta and meta[name] != form:
                disk.sync()
                disk.durable.pop(name, None)
            meta[name] = form
            disk.write(name, raw(v))
            if st['sync']:
                disk.sync()
        elif op == 'load':
            load(st['slot'], st['chain'], st['fault'])
        elif op == 'crash':
            disk.crash(st['fates'])
            box['n'] = sim.boot()
            kept.clear()
            sim.fault('process-crash')
            for name in disk.names():
                load(int(name[1:]), ['bin'] if int(name[1:]) % 2 else ['text', 'hex'])
        elif op == 'rot':
            disk.sync()
            name = 'r%d' % st['slot']
            if name in disk.durable:
                other = disk.durable.get('r%d' % (st['slot'] // 2), b'')
                disk.durable[name] = rot(disk.durable[name], st['dmg'], other)
                sim.fault('disk-rot')
                load(st['slot'])
        elif op == 'swap':
            disk.sync()
            disk.swap('r%d' % st['a'], 'r%d' % st['b'])
            load(st['a'])
            load(st['b'])
        elif op == 'raw':
            name = 'r%d' % st['slot']
            meta[name] = st['form']
            disk.write(name, bytes.fromhex(st['data']))
            disk.sync()
            sim.fault('odd-record')
            load(st['slot'], ['bin'])
