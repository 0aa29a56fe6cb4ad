"""A simulated disk: named records, buffered writes, crash fates, rot and misdirection."""
from .gens import apply_damage


class Disk:
    def __init__(self, sim):
        self.sim, self.durable, self.pending = sim, {}, []

    def write(self, name, data):
        self.pending.append((name, bytes(data)))

    def sync(self):
        for n, d in self.pending:
            self.durable[n] = d
        self.pending = []

    def read(self, name):
        for n, d in reversed(self.pending):
            if n == name:
                return d
        return self.durable.get(name)

    def names(self):
        return sorted(set(self.durable) | {n for n, _ in self.pending})

    def crash(self, fates):
        """what had not been synced is lost, torn or, by luck, complete"""
        for i, (n, d) in enumerate(self.pending):
            kind, frac = fates[i % len(fates)] if fates else ('lost', 0)
            if kind == 'full':
                self.durable[n] = d
                self.sim.fault('crash-write-kept')
            elif kind == 'torn':
                self.durable[n] = d[:int(frac * len(d))]
                self.sim.fault('crash-write-torn')
            elif kind == 'mixed' and n in self.durable:
                k = int(frac * len(d))
                self.durable[n] = d[:k] + self.durable[n][k:]
                self.sim.fault('crash-write-mixed')
            else:
                self.sim.fault('crash-write-lost')
        self.pending = []

    def rot(self, name, edits, other=b''):
        if name in self.durable:
            self.durable[name] = apply_damage(self.durable[name], edits, other)
            self.sim.fault('disk-rot')

    def swap(self, a, b):
        if a in self.durable and b in self.durable:
            self.durable[a], self.durable[b] = self.durable[b], self.durable[a]
            self.sim.fault('disk-misdirected')

    def copy(self, a, b):
        if a in self.durable:
            self.durable[b] = self.durable[a]
            self.sim.fault('disk-misdirected')


def gen_fates(r, n=6):
    return [[r.pick(['lost', 'torn', 'torn', 'mixed', 'full']), round(r.random(), 4)] for _ in range(n)]


def gen_text_rot(r, n):
    """damage aimed at text: a character replaced by another of the same alphabet as well as raw byte damage"""
    return r.damage(n)
