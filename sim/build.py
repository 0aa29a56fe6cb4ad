"""Builders: spec (JSON) -> object of the code under test, through its public API on a given node."""
from . import ref
from .gens import I


def script(node, spec, how=0):
    """how: which public way to build it"""
    ins = I(spec)
    if how == 1:
        return node.Script.from_bytes(ref.script_bytes(ins))
    objs = [node.Instruction(node.Opcode(o), d) if d is not None else node.Instruction(node.Opcode(o)) for o, d in ins]
    if how == 2:
        return node.Script.create(objs)
    if how == 3:
        return node.Script.compile([(node.Opcode(o), d) if d is not None else node.Opcode(o) for o, d in ins])
    return node.Script(objs)


def inp(node, i, how=0): return (node.Input.create if how == 2 else node.Input)(i['id'], i['ix'], script(node, i['script'], how), i['seq'])
def outp(node, o, how=0): return (node.Output.create if how == 2 else node.Output)(o['amt'], script(node, o['script'], how))


def tx(node, t, how=0):
    return node.Transaction([inp(node, i, how) for i in t['in']], [outp(node, o, how) for o in t['out']], t['lt'], t['v'])


def net(node, n): return getattr(node.networks, n)


def priv(node, k): return node.PrivateKey(int(k['s'], 16), net(node, k['n']), k['c'])


def pubk(node, k):
    return node.PublicKey.from_bytes(ref.sec(ref.pub(int(k['s'], 16)), k['c']), net(node, k['n']))


def addr(node, a):
    return node.Address(bytes.fromhex(a['h']), net(node, a['n']),
                        node.Address.Type.PublicKey if a['t'] == 'pkh' else node.Address.Type.Script)


# ---- plain pictures of library objects, in reference terms

def instrs_of(s): return [(i.opcode.number, None if i.data is None else bytes(i.data)) for i in s.instructions]


def input_of(i): return dict(id=i.tx_id, ix=i.txo_index, script=ref.script_bytes(instrs_of(i.script)), seq=i.seq_number)
def output_of(o): return dict(amt=o.amount, script=ref.script_bytes(instrs_of(o.script)))


def tx_of(t):
    return {'v': t.version, 'lt': t.lock_time, 'in': [input_of(i) for i in t.inputs], 'out': [output_of(o) for o in t.outputs]}


def key_of(k): return (k.secret, k.network.name, bool(k.compressed))
def pub_of(k): return (tuple(k.pair), k.network.name, bool(k.compressed))
def addr_of(a): return (bytes(a.phash), a.network.name, {'PublicKey': 'pkh', 'Script': 'sh'}[a.type.name])
