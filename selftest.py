#!/usr/bin/env python
"""Self tests of the machinery.
  selftest.py                 the reference model against published vectors (fast; the setup command)
  selftest.py determinism [N] every property, N seeds: one process vs fresh processes, two hash seeds, other order
"""
import json
import os
import subprocess
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def model():
    from sim import ref
    # curve and keys
    assert ref.pub(1) == (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
    assert ref.sec(ref.pub(ref.N - 1)).hex() == '0379be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798'
    assert ref.mul(ref.N, ref.pub(7)) is None and ref.add(ref.pub(3), ref.pub(5)) == ref.pub(8) and ref.mul(12345, ref.pub(678)) == ref.pub(12345 * 678)
    assert ref.key_addr(1, 'livenet', True) == '1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH'
    assert ref.key_addr(1, 'livenet', False) == '1EHNa6Q4Jz2uvNExL497mE43ikXhwF6kZm'
    assert ref.wif(0x0C28FCA386C7A227600B2FE50B7CAE11EC86D3BF1FBE471BE89827E19D72AA1D, 'livenet', False) == '5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ'
    assert ref.wif(1, 'livenet', True) == 'KwDiBf89QgGbjEhKnhXJuH7LrciVrZi3qYjgd9M7rFU73sVHnoWn'
    # BIP32, test vector 1
    x = ref.XKey.from_seed(bytes.fromhex('000102030405060708090a0b0c0d0e0f'))
    assert x.string(True) == 'xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi'
    y = x.derive(2**31).derive(1)
    assert y.string(True) == 'xprv9wTYmMFdV23N2TdNG573QoEsfRrWKQgWeibmLntzniatZvR9BmLnvSxqu53Kw1UmYPxLgboyZQaXwTCg8MSY3H2EU4pWcQDnRnrVA1xe8fs'
    assert y.public().string(False) == 'xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ'
    # the genesis coinbase
    g = bytes.fromhex('01000000010000000000000000000000000000000000000000000000000000000000000000ffffffff4d04ffff001d0104455468652054696d65732030332f4a616e2f323030'
                      '39204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73ffffffff0100f2052a01000000434104678afdb0'
                      'fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac00000000')
    assert ref.txid(g) == '4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b'
    t = ref.read_tx(ref.Rd(g))
    assert t['out'][0]['amt'] == 50 * 10**8 and ref.tx_bytes(t) == g
    # the first payment: block 170, Satoshi to Hal Finney, pay to public key
    b = bytes.fromhex('0100000001c997a5e56e104102fa209c6a852dd90660a20b2d9c352423edce25857fcd3704000000004847304402204e45e16932b8af514961a1d3a1a25fdf3f4f7732e9d624c6c6'
                      '1548ab5fb8cd410220181522ec8eca07de4860a4acdd12909d831cc56cbbac4622082221a8768d1d0901ffffffff0200ca9a3b00000000434104ae1a62fe09c5f51b13905f07f06b'
                      '99a2f7159b2225f374cd378d71302fa28414e7aab37397f554a7df5f142c21c1b7303b8a0626f1baded5c72a704f7e6cd84cac00286bee0000000043410411db93e1dcdb8a016b49'
                      '840f8c53bc1eb68a382e97b1482ecad7b148a6909a5cb2e0eaddfb84ccf9744464f82e160bfa9b8b64f9d4c03f999b8643f656b412a3ac00000000')
    assert ref.txid(b) == 'f4184fc596403b9d638783cf57adfe4c75c605f6356fbc91338530e9831e9e16'
    lock = bytes.fromhex('410411db93e1dcdb8a016b49840f8c53bc1eb68a382e97b1482ecad7b148a6909a5cb2e0eaddfb84ccf9744464f82e160bfa9b8b64f9d4c03f999b8643f656b412a3ac')
    t = ref.read_tx(ref.Rd(b))
    assert ref.spend_ok(t, 0, lock)
    t['lt'] ^= 1
    assert not ref.spend_ok(t, 0, lock)
    # script numbers
    for v, h in ((0, ''), (1, '01'), (-1, '81'), (127, '7f'), (128, '8000'), (-128, '8080'), (255, 'ff00'), (-255, 'ff80'), (256, '0001'), (-2147483647, 'ffffffff')):
        assert bytes(ref.num_enc(v)).hex() == h and ref.num_dec(bytes.fromhex(h), True) == v
    # RFC 6979 on secp256k1 (a vector used by several wallets): secret 1, SHA-256 of "Satoshi Nakamoto"
    d = ref.sha256(b'Satoshi Nakamoto')
    assert ref.rfc6979(1, d) == 0x8F8A276C19F4149656B280621E358CCE24F5F52542772691EE69063B74F15D15
    assert ref.det_sign(1, d)[0] == 0x934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8 and ref.pub(1) in ref.recover(d, *ref.det_sign(1, d))
    # every scenario module loads
    from sim import runner
    for p in runner.PROPS:
        sc = runner.scenario(p)
        assert sc.RUNS['quick'] and sc.TITLE and sc.RULE
    print('reference model agrees with the published vectors')


DET = '''
import sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from sim import runner
prop, seeds = sys.argv[1], json.loads(sys.argv[2])
print(json.dumps({str(i): runner.run_plan(runner.make_plan(prop, runner.seed_for(9, prop, i)))['digest'] for i in seeds}))
''' % HERE


def determinism(n):
    from sim import runner
    bad = 0

    def go(p, seeds, hs):
        r = subprocess.run([sys.executable, '-c', DET, p, json.dumps(seeds)], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=hs))
        if r.returncode:
            raise SystemExit(r.stderr)
        return json.loads(r.stdout)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for p in runner.PROPS:
            seeds = list(range(n))
            a = ex.submit(go, p, seeds, '0')
            b = ex.submit(go, p, seeds[::-1], '777')
            cs = [ex.submit(go, p, seeds[k::4], '31') for k in range(4)]
            c = {}
            for x in cs:
                c.update(x.result())
            a, b = a.result(), b.result()
            diff = [i for i in a if not a[i] == b[i] == c[i]]
            print(p, n, 'seeds x 3 executions:', 'identical' if not diff else 'DIFFER %s' % diff[:5], flush=True)
            bad += bool(diff)
    return 1 if bad else 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['determinism']:
        sys.exit(determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 40))
    model()
