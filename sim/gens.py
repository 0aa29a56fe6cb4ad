"""Seeded generators of plan material.  They only produce JSON values ("specs"); nothing here
touches the code under test.  Values are biased towards the edges of their ranges, and towards
near-copies of values already made (siblings), because stale state shows up between similar things."""
import random

from . import ref

HALF = 1 << 31


class R(random.Random):
    wide = False

    def chance(self, p): return self.random() < p

    def pick(self, xs): return xs[self.randrange(len(xs))]

    def weighted(self, pairs):
        t = sum(w for _, w in pairs)
        x = self.random() * t
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def hexb(self, n): return self.getrandbits(8 * n).to_bytes(n, 'big').hex() if n else ''

    def log_int(self, lo, hi):
        """log-uniform in [lo, hi]"""
        import math
        if hi <= lo:
            return lo
        v = int(math.exp(self.uniform(math.log(lo + 1), math.log(hi + 2)))) - 1
        return min(hi, max(lo, v))

    # ---- scalar fields
    def u32(self):
        return self.weighted([
            (0, 2), (1, 2), (0xffffffff, 3), (0xfffffffe, 1), (HALF, 1), (HALF - 1, 1), (255, 1), (256, 1), (65535, 1),
            (65536, 1), (self.getrandbits(32), 4), (self.getrandbits(31) << 1 & 0xffffff00, 1), (self.getrandbits(8), 2),
            (self.getrandbits(8) << 24, 1), (500000000, 1), (0x00ffffff, 1), (1 << 24, 1), (self.getrandbits(16), 1)])

    def amount(self):
        M = 21 * 10**14
        if self.wide and self.chance(.08):            # any 8 bytes
            return self.pick([2**63 - 1, 2**63, 2**64 - 1, 2**53 + 1, 2**56 + 1, self.getrandbits(64), self.getrandbits(60)])
        return self.weighted([
            (0, 1), (1, 2), (M, 2), (M - 1, 1), (546, 1), (10**8, 2), (10**8 - 1, 1), (29000000, 1), (0xffffffff, 2),
            (1 << 32, 2), ((1 << 32) + 1, 1), (self.randrange(M + 1), 6), (self.log_int(0, M), 6), (255, 1), (256, 1),
            (65535, 1), (65536, 1), (1 << 40, 1), ((1 << 48) - 1, 1), (self.randrange(1, 21000001) * 10**8, 2),
            (self.getrandbits(31), 2), (1 << 31, 1), ((1 << 31) - 1, 1),
            (self.randrange(1, 100) * 10**self.randrange(0, 13), 3)])

    def txid(self):
        return self.weighted([
            (self.hexb(32), 10), ('00' * 32, 1), ('ff' * 32, 1), ('00' + self.hexb(31), 2), (self.hexb(31) + '00', 2),
            ('00' * 4 + self.hexb(28), 1), ('00' * 31 + '01', 1), ('0' + self.hexb(32)[1:], 1)])

    def bytes_len(self, big=False, zero=False):
        opts = [(self.randrange(1, 8), 6), (self.randrange(1, 76), 5), (20, 2), (32, 2), (33, 2), (65, 1), (72, 1), (75, 2), (76, 2),
                (77, 1), (80, 1), (252, 2), (253, 2), (254, 1), (255, 2), (256, 2), (257, 1), (self.randrange(76, 600), 3), (520, 1), (521, 1)]
        if zero:
            opts.append((0, 1))
        if big:
            opts += [(65535, .35), (65536, .35), (65537, .2), (self.randrange(1000, 66000), .3), (70000, .2)]
        return self.weighted(opts)

    def data(self, n):
        """n bytes of hex"""
        k = self.randrange(8)
        if k == 0:
            return '00' * n
        if k == 1:
            return 'ff' * n
        if k == 2 and n:
            return '00' + self.hexb(n - 1)
        if k == 3 and n:
            return self.hexb(n - 1) + '00'
        if n > 600:
            b = self.hexb(64)
            return (b * (n // 64 + 1))[:2 * n]
        return self.hexb(n)

    # ---- keys
    def secret(self):
        return self.weighted([
            (self.randrange(1, ref.N), 10), (1, 1), (2, 1), (ref.N - 1, 1), (ref.N - 2, 1), (ref.N // 2, .5),
            (self.getrandbits(248) or 1, 2), (self.getrandbits(240) or 1, 1), (self.getrandbits(64) or 1, 1),
            (self.getrandbits(16) + 1, 2), ((self.getrandbits(247) << 8) or 1, 1), (1 << self.randrange(256), 1)])

    def net(self): return self.pick(['livenet', 'livenet', 'testnet'])

    def key(self, pool=None):
        """{'s': hex secret, 'n': net, 'c': compressed}; sometimes a sibling of an earlier key"""
        if pool and self.chance(.35):
            k = dict(self.pick(pool))
            f = self.randrange(6)
            s = int(k['s'], 16)
            if f == 0:
                k['c'] = not k['c']
            elif f == 1:
                k['n'] = 'testnet' if k['n'] == 'livenet' else 'livenet'
            elif f == 2:
                k['s'] = '%064x' % (ref.N - s)                # same x coordinate
            elif f == 3:
                s = self.pick([s ^ 1 << self.randrange(256), s & (1 << 128) - 1 | self.getrandbits(128) << 128, s >> 128 << 128 | self.getrandbits(128),
                               s + (2**61 - 1), s + 1, s >> 8, s << 8])      # alike in part
                if 0 < s < ref.N:
                    k['s'] = '%064x' % s
            return k
        return {'s': '%064x' % self.secret(), 'n': self.net(), 'c': self.chance(.7)}

    def hash20(self):
        return self.weighted([(self.hexb(20), 8), ('00' * 20, 1), ('ff' * 20, .5), ('00' + self.hexb(19), 2),
                              ('0000' + self.hexb(18), 1), (self.hexb(19) + '00', 1)])

    def address(self, pool=None):
        """{'h': hex20, 'n': net, 't': 'pkh'|'sh'}"""
        if pool and self.chance(.35):
            a = dict(self.pick(pool))
            f = self.randrange(3)
            if f == 0:
                a['n'] = 'testnet' if a['n'] == 'livenet' else 'livenet'
            elif f == 1:
                a['t'] = 'sh' if a['t'] == 'pkh' else 'pkh'
            else:
                i = self.randrange(20)
                b = bytearray.fromhex(a['h'])
                b[i] ^= 1 << self.randrange(8)
                a['h'] = bytes(b).hex()
            return a
        return {'h': self.hash20(), 'n': self.net(), 't': self.pick(['pkh', 'pkh', 'sh'])}

    # ---- scripts: list of [op, hexdata or None]
    def instr(self, big=False, named=False):
        k = self.random()
        if k < .5:
            n = self.bytes_len(big=big)
            op = ref.push_op(n)
            if self.chance(.15):                      # longer push form than needed
                op = self.pick([o for o in (76, 77, 78) if n < 1 << (8 * {76: 1, 77: 2, 78: 4}[o])])
            return [op, self.data(n)]
        if k < .53:
            return [self.pick([76, 77, 78]), '']       # empty variable push
        if named:
            return [self.pick(ref.NAMED), None]
        return [self.weighted([(self.pick(ref.NAMED), 6), (self.randrange(79, 256), 2), (0, 1)]), None]

    def exact(self, n):
        """a script of exactly n bytes"""
        out = []
        while n > 0:
            for op, head in ((77, 3), (76, 2), (0, 1)):
                m = min(n - head, {77: 65535, 76: 255, 0: 75}[op])
                if m >= {77: 256, 76: 76, 0: 1}[op]:
                    out.append([op or m, self.data(m)])
                    n -= head + m
                    break
            else:
                out.append([97, None])
                n -= 1
        if len(out) > 1 and self.chance(.5):
            out.reverse()
        return out

    def script(self, pool=None, big=False, named=False, maxlen=8):
        if self.chance(.04):                          # lengths at which the length prefix changes form
            return self.exact(self.pick([75, 76, 252, 252, 253, 253, 254, 255, 256, 257]))
        if big and self.chance(.12):
            return self.exact(self.pick([65534, 65535, 65535, 65536, 65536, 65537]))
        if pool and self.chance(.3):
            s = [list(i) for i in self.pick(pool)]
            if s:
                j = self.randrange(len(s))
                f = self.randrange(4)
                if f == 0:
                    del s[j]
                elif f == 1:
                    s.insert(j, self.instr(big, named))
                elif f == 2 and s[j][1]:
                    b = bytearray.fromhex(s[j][1])
                    b[self.randrange(len(b))] ^= 1 << self.randrange(8)
                    s[j][1] = bytes(b).hex()
                elif f == 3 and s[j][1] and len(s[j][1]) // 2 <= 75:
                    s[j][0] = 76 if s[j][0] <= 75 else len(s[j][1]) // 2   # same data, other push form
            return s
        k = self.randrange(10)
        if k < 5:
            return [self.instr(big, named) for _ in range(self.randrange(0, maxlen))]
        return self.template(pool)[1]

    def tkey(self, seen, p=.7):
        """serialised key of a template; sometimes a relative of one already in it"""
        s, c = self.randrange(1, 5000), self.chance(p)
        if seen and self.chance(.25):
            s0, neg, c0 = self.pick(seen)
            s, neg, c = self.pick([(s0, not neg, c0), (s0, neg, not c0), (s0, neg, c0)])
        else:
            neg = self.chance(.2)
        seen.append((s, neg, c))
        x, y = ref.pub(s)
        return ref.sec((x, ref.P - y if neg else y), c).hex()

    def template(self, pool=None):
        """(kind, instrs) of a standard script"""
        k = self.randrange(6)
        push = lambda h: [ref.push_op(len(h) // 2), h]
        if k == 0:
            return 'PayToPubkeyOut', [[118, None], [169, None], push(self.hash20()), [136, None], [172, None]]
        if k == 1:
            return 'PayToScriptOut', [[169, None], push(self.hash20()), [135, None]]
        if k == 2:
            return 'OpReturnOut', [[106, None], push(self.data(self.pick([1, 2, 20, 40, 74, 75, 76, 79, 80])))]
        seen = self.__dict__.setdefault('seen', [])
        del seen[:-6]
        key = self.tkey(seen)
        sig = self.hexb(self.pick([70, 71, 72, 73]))
        if k == 3:
            return 'PayToPubkeyIn', [push(sig), push(key)]
        n = self.weighted([(1, 2), (2, 3), (3, 3), (self.randrange(1, 17), 2), (15, 1), (16, 1)])
        m = self.randrange(0 if self.chance(.1) else 1, n + 1)
        num = lambda v: [0 if v == 0 else 80 + v, None]
        keys = [self.tkey(seen, .8) for _ in range(n)]
        multi = [num(m)] + [push(x) for x in keys] + [num(n), [174, None]]
        if k == 4:
            return 'RedeemMultisig', multi
        inner = ref.script_bytes([(o, None if d is None else bytes.fromhex(d)) for o, d in multi]).hex()
        return 'PayToScriptIn', [[0, None]] + [push(self.hexb(self.pick([70, 71, 72, 73]))) for _ in range(max(1, m))] + [push(inner)]

    # ---- wire objects
    def input(self, pool=None, big=False):
        if pool and self.chance(.3):
            i = dict(self.pick(pool))
            f = self.pick(['id', 'ix', 'seq', 'script'])
            i[f] = {'id': self.txid, 'ix': self.u32, 'seq': self.u32, 'script': lambda: self.script([i['script']])}[f]()
            return i
        return {'id': self.txid(), 'ix': self.u32(), 'seq': self.u32(), 'script': self.script(big=big)}

    def output(self, pool=None, big=False):
        if pool and self.chance(.3):
            o = dict(self.pick(pool))
            if self.chance(.5):
                o['amt'] = self.amount()
            else:
                o['script'] = self.script([o['script']])
            return o
        return {'amt': self.amount(), 'script': self.script(big=big)}

    def count(self, many=True):
        return self.weighted([(1, 6), (2, 4), (3, 2), (self.randrange(1, 8), 2)] +
                             ([(252, .12), (253, .2), (254, .08), (self.randrange(250, 300), .08)] if many else []))

    def tx(self, pool=None, big=False, many=True):
        if pool and self.chance(.35):
            t = dict(self.pick(pool))
            f = self.randrange(6)
            if f == 0:
                t['v'] = self.u32()
            elif f == 1:
                t['lt'] = self.u32()
            elif f == 2:
                t['in'] = list(t['in'])
                t['in'][self.randrange(len(t['in']))] = self.input(t['in'])
            elif f == 3:
                t['out'] = list(t['out'])
                t['out'][self.randrange(len(t['out']))] = self.output(t['out'])
            elif f == 4:
                t['out'] = t['out'][::-1]
            else:
                t['in'] = t['in'] + [self.input(t['in'])]
            return t
        ni, no = self.count(many), self.count(many)
        small = ni > 50 or no > 50
        ins, outs = [], []
        for _ in range(ni):
            ins.append(self.input(ins, big and not small) if not (small and ins) else
                       {'id': self.txid(), 'ix': self.u32(), 'seq': self.u32(), 'script': [[2, self.hexb(2)]] if self.chance(.3) else []})
        for _ in range(no):
            outs.append(self.output(outs, big and not small) if not (small and outs) else
                        {'amt': self.amount(), 'script': [[106, None]] if self.chance(.3) else []})
        return {'v': self.weighted([(1, 3), (2, 2), (self.u32(), 2)]), 'lt': self.u32(), 'in': ins, 'out': outs}

    # ---- damage to bytes (list of edits, applied in order)
    def damage(self, n, kinds=None):
        out = []
        for _ in range(self.weighted([(1, 6), (2, 2), (3, 1)])):
            k = self.pick(kinds or ['flip', 'flip', 'set', 'cut', 'drop', 'dup', 'ins', 'splice', 'head'])
            a = self.random()
            out.append([k, round(a if not self.chance(.3) else a * 12 / max(12, n), 6), self.getrandbits(16)])
        return out

    def schedule(self, ntasks, length=None, mean=None, touch=None):
        """preemption schedule: [quantum, pick]"""
        n = length or self.pick([4, 10, 30, 60, 150])
        mean = mean or self.pick([2, 5, 15, 40, 150, 600])
        if self.chance(.35 if touch is None else touch):              # switch at accesses to shared or lasting state (negative: see core.Sched)
            m, share = self.pick([1, 2, 5, 15]), self.pick([.3, .7, 1])
            return [[-(1 + int(self.expovariate(1.0 / m))) if self.chance(share) else 1 + int(self.expovariate(1.0 / mean)), self.randrange(ntasks)]
                    for _ in range(n)]
        return [[1 + int(self.expovariate(1.0 / mean)), self.randrange(ntasks)] for _ in range(n)]


def apply_damage(b, edits, other=b''):
    """pure function used both by plan checking and by the run"""
    b = bytearray(b)
    for k, a, v in edits:
        n = len(b)
        i = min(int(a * n), max(0, n - 1))
        if k == 'flip' and n:
            b[i] ^= 1 << (v & 7)
        elif k == 'set' and n:
            b[i] = [0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x4c, 0x4d, 0x4e, 0x4b, v & 0xff, v >> 8 & 0xff][v % 12]
        elif k == 'cut':
            del b[i:]
        elif k == 'head':
            del b[:i]
        elif k == 'drop':
            del b[i:i + 1 + v % 9]
        elif k == 'dup':
            b[i:i] = b[i:i + 1 + v % 40]
        elif k == 'ins':
            b[i:i] = bytes([v & 255] * (1 + (v >> 8) % 4))
        elif k == 'splice':
            o = bytes(other) or bytes(b[::-1])
            j = v % max(1, len(o))
            b[i:] = o[j:]
    return bytes(b)


def I(spec):
    """script spec -> reference instructions"""
    return [(o, None if d is None else bytes.fromhex(d)) for o, d in spec]


def ref_tx(t):
    return {'v': t['v'], 'lt': t['lt'],
            'in': [dict(i, script=ref.script_bytes(I(i['script']))) for i in t['in']],
            'out': [dict(o, script=ref.script_bytes(I(o['script']))) for o in t['out']]}


def ref_input(i): return dict(i, script=ref.script_bytes(I(i['script'])))
def ref_output(o): return dict(o, script=ref.script_bytes(I(o['script'])))
