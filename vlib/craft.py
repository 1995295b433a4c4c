"""Inputs with special inner states.  A small model of both ciphers that can run backwards, used only to
choose inputs (a plaintext whose halves become equal in round 17, a key whose schedule passes through a
zero half, ...).  It judges nothing: results are decided by the TLA+ specification alone."""
import re, os

_SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


def _table(mod, name):
    with open(os.path.join(_SPEC, mod + '.tla')) as f:
        t = f.read()
    t = t[t.index('\n' + name + ' =='):]
    return [int(x) for x in re.findall(r'\d+', t[t.index('<<'):re.search(r'>>(?!\s*,)(\s*>>)?', t).end()])]


M32 = 0xffffffff
TC26 = None
ORD_ENC = list(range(8)) * 3 + list(range(7, -1, -1))
ORD_DEC = list(range(8)) + list(range(7, -1, -1)) * 3


def tc26():
    global TC26
    if TC26 is None:
        v = _table('Magma', 'PiTC26')
        assert len(v) == 128
        TC26 = v
    return TC26


def mround(w, i, v, pi=None):
    pi = pi or tc26()
    x = (v + w[i]) & M32
    y = sum(pi[16 * n + ((x >> 4 * n) & 15)] << 4 * n for n in range(8))
    return ((y << 11) | (y >> 21)) & M32


def _load(b):
    return int.from_bytes(b[:4], 'little'), int.from_bytes(b[4:], 'little')


def _store(a, b):
    return a.to_bytes(4, 'little') + b.to_bytes(4, 'little')


def menc(w, b, order=ORD_ENC, pi=None):
    a0, a1 = _load(b)
    for i in order:
        a0, a1 = a1 ^ mround(w, i, a0, pi), a0
    return _store(a1, a0) if len(order) == 32 else _store(a0, a1)


def mback(w, state, r, order=ORD_ENC, pi=None):
    """the block whose state is `state` (two words) before round r (0..len(order))"""
    a0, a1 = state
    for i in reversed(order[:r]):
        a0, a1 = a1, a0 ^ mround(w, i, a1, pi)
    return _store(a0, a1)


# ---------------------------------------------------------------- Kuznyechik
PI = None
COEF = [1, 148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148]


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 256:
            a ^= 0x1c3
        b >>= 1
    return r


def _init():
    global PI, IPI, GT, LT, LI
    if PI is not None:
        return
    p = _table('Kuznyechik', 'Pi')
    assert len(p) == 256
    GT = {c: [gmul(a, c) for a in range(256)] for c in set(COEF)}
    IPI = [p.index(i) for i in range(256)]

    def lin(b):
        b = list(b)
        for _ in range(16):
            e = 0
            for i in range(16):
                e ^= GT[COEF[i]][b[i]]
            b = b[1:] + [e]
        return b

    def inv(b):
        b = list(b)
        for _ in range(16):
            e = b[15]
            for i in range(1, 16):
                e ^= GT[COEF[i]][b[i - 1]]
            b = [e] + b[:15]
        return b
    LT, LI = lin, inv
    PI = p


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def kls(b):
    _init()
    return bytes(LT([PI[x] for x in b]))


def kils(b):
    _init()
    return bytes(IPI[x] for x in LI(b))


_CC = {}


def kconst(i):
    _init()
    if i not in _CC:
        _CC[i] = bytes(LT(list(i.to_bytes(16, 'little'))))
    return _CC[i]


def kfeistel(a, b, frm, to):
    for i in range(frm, to + 1):
        a, b = xor(kls(xor(a, kconst(i))), b), a
    return a, b


def kfeistel_back(a, b, frm, to):
    """the pair from which constants frm..to lead to (a, b)"""
    for i in range(to, frm - 1, -1):
        a, b = b, xor(a, kls(xor(b, kconst(i))))
    return a, b


def kkeys(hi, lo):
    k = [hi, lo]
    a, b = hi, lo
    for j in range(4):
        a, b = kfeistel(a, b, 8 * j + 1, 8 * j + 8)
        k += [a, b]
    return k


def kenc(k, b):
    for i in range(9):
        b = kls(xor(b, k[i]))
    return xor(b, k[9])


def kback(k, state, r):
    """the block whose state is `state` before round r (0..9)"""
    for i in range(r - 1, -1, -1):
        state = xor(kils(state), k[i])
    return state


def selftest():
    w = [int('ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff'[i:i + 8], 16) for i in range(0, 64, 8)]
    assert menc(w, bytes.fromhex('fedcba9876543210')[::-1])[::-1].hex() == '4ee901e5c2d8ca3d'
    hi, lo = bytes.fromhex('8899aabbccddeeff0011223344556677')[::-1], bytes.fromhex('fedcba98765432100123456789abcdef')[::-1]
    k = kkeys(hi, lo)
    assert kenc(k, bytes.fromhex('1122334455667700ffeeddccbbaa9988')[::-1])[::-1].hex() == '7f679d90bebc24305a468d42b9d4edcd'
    s = bytes(range(16))
    assert kils(kls(s)) == s and kfeistel_back(*kfeistel(hi, lo, 1, 11), 1, 11) == (hi, lo)
    a, b = _load(bytes(range(8)))
    assert mback(w, (1, 1), 0) == _store(1, 1)


if __name__ == '__main__':
    selftest()
    print('ok')
