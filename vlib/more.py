"""Further scenarios, one function per property: special inner states of the ciphers (vlib/craft.py), special
values at every level (ciphertext, plaintext, chain, key halves), sizes around every power of two, the same
object in several places, the same question asked again in another context."""
from .scen import *
from . import craft
from .craft import xor


def words_hex(w):
    return ''.join('%08x' % x for x in w)


def conkey(s, p, kind=None):
    """a key for which long messages are cheap to evaluate"""
    return mkey(s, p, kind or p.r.choice(['strsb', 'nat', 'cache']), None, s.mk('sb_con', '%08x' % p.r.getrandbits(32)))


def corner_states(p, w):
    """pairs of words worth having as an inner state of a Feistel cipher under key words w"""
    x = p.r.getrandbits(32)
    i = p.r.randrange(8)
    return [(x, x), (0, x), (x, 0), (0, 0), (0xffffffff, x), ((-w[i]) & craft.M32, x), ((-w[i] - 1) & craft.M32, x),
            (x, x ^ 0xffffffff), (1, x), (x, x ^ craft.mround(w, i, x)), (0x80000000, x)]


def crafted(p, w, order=craft.ORD_ENC, n=4):
    """blocks with a special state somewhere inside (also at either end)"""
    out = []
    for _ in range(n):
        r = p.r.choice([0, len(order), len(order) // 2] + list(range(len(order) + 1)) * 2)
        out.append(craft.mback(w, p.r.choice(corner_states(p, w)), r, order))
    return out


def beyond(p):
    """lengths just beyond 2^16, and beyond 2^16 blocks"""
    return [65536 + p.r.randrange(1, 60), 524288 + p.r.randrange(9, 90)]


def repeat_key(p):
    """eight words, some of them equal"""
    a, b = p.word(), p.word()
    return p.r.choice([[a] * 8, [a, b] * 4, [a] * 4 + [b] * 4, [a, b, p.word(), p.word()] * 2, [0] * 8, [0] * 7 + [a], [a] + [0] * 7,
                       [p.word() for _ in range(4)] * 2, [craft.M32] * 8])


# ---------------------------------------------------------------- C01 C02
def place(c, o, uses):
    """one key after another of each kind in the same place, the same use of each"""
    p = c.p
    for kind in LAZY:
        for use in uses:
            s = Sc()
            b, m = p.block(), p.msg(p.r.choice([8, 16, 16, 24]))
            raw, src0, mem = s.mk('b_raw', 'lh', hx(b)), src(s, m, []), s.mk('s_mem')
            iv = (p.block(8), p.block(8))
            sb = s.mk('sb_r3412')
            for _ in range(6):
                h0 = s.h
                k = mkey(s, p, kind, p.keyhex(), sb)
                if use == 'k_use':
                    s.op('k_use', k, '12345678', 3)
                elif use in ('enc', 'dec', 'imit'):
                    s.op('b_val', s.mk('b_' + use, raw, k))
                elif use == 'eb':
                    s.op('eb_use', s.mk('eb_new', k), hx(b))
                elif use == 'mac':
                    s.op('mac', src0, k)
                elif use == 'bmac':
                    s.op('b_val', s.mk('b_mac', src0, k))
                elif use == 'di':
                    s.op('di_val', s.mk('di_new', k, hx(m)))
                elif use in ('sink', 'ecb'):
                    s.fin(s.write(layer(s, p, 'cfb' if use == 'sink' else 'ecb', mem, k, iv)[0], m))
                else:
                    s.read(unlayer(s, p, 'cfb', src0, k, iv)[0], 24)
                for h in range(s.h, h0, -1):
                    s.op('drop', h)
            o.add('place', s)


def qplace(c, o, uses):
    p = c.p
    for kind in ('str', 'qd', 'data'):
        for use in uses:
            s = Sc()
            raw, t = s.mk('qb_raw', 'lh', hx(p.block(16))), s.mk('t_mem', hx(p.bytes(40)))
            iv = p.block(8)
            for _ in range(5):
                h0 = s.h
                k = qkey(s, p, kind)
                if use in ('enc', 'kenc'):
                    s.op('qb_val', s.mk('qb_' + use, raw, k))
                elif use == 'mac':
                    s.op('t_mac', t, k)
                elif use == 'qmac':
                    s.op('qb_val', s.mk('qb_mac', t, k))
                else:
                    it = s.mk('i_iter', s.mk('t_ctr', t, k, hx(iv)))
                    s.op('i_val', it)
                    s.op('i_val', s.mk('i_next', it))
                for h in range(s.h, h0, -1):
                    s.op('drop', h)
            o.add('qplace', s)


def more_C01(c, o):
    p = c.p
    for r in list(range(33)) * c.n(2, 6):
        s = Sc()
        kh = p.keyhex()
        w = words_of(kh)
        k = mkey(s, p, p.r.choice(['str', 'nat', 'cache', 'kdstr']), kh, s.mk('sb_r3412'))
        e = s.mk('eb_new', k)
        for st in p.r.sample(corner_states(p, w), 4):
            b = craft.mback(w, st, r)
            s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'lh', hx(b)), k))
            s.op('eb_use', e, hx(b))
        o.add('state', s)
    for i in range(c.n(24)):
        s = Sc()
        w = repeat_key(p)
        ks = [s.mk('k_nat', sbox(s, p, 'r3412'), wlist(w)), s.mk('k_str', htext(words_hex(w)))]
        bs = crafted(p, w) + [bytes(8), b'\xff' * 8] + [words_hex(w[:2]) and craft._store(w[0], w[0]), craft._store(w[7], w[0])]
        for b in bs:
            s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'u64', hx(b)), p.r.choice(ks)))
            s.op('eb_use', s.mk('eb_new', p.r.choice(ks)), hx(b))
        o.add('rep', s)
    # the round function alone: the same word with every index, every index with the same word, keys in turn
    for i in range(c.n(16)):
        s = Sc()
        ks = [mkey(s, p, ['str', 'nat', 'env', 'cache', 'strsb'][(i + j) % 5]) for j in range(2)]
        v = [p.word() for _ in range(2)]
        q = [(k, x, j) for k in ks for x in v for j in range(8)]
        if i % 2:
            p.r.shuffle(q)
        else:
            q.sort(key=lambda t: p.r.choice([0]) or (t[1], t[2], t[0]) if i % 4 else (t[2], t[1], t[0]))
        for k, x, j in q:
            s.op('k_use', k, '%08x' % x, j)
        o.add('use', s)
    # one direct transform object, many blocks in turn, going back to earlier ones; blocks under several keys in turn
    for i in range(c.n(20)):
        s = Sc()
        ks = [mkey(s, p) for _ in range(2)]
        es = [s.mk('eb_new', k) for k in ks]
        bs = [p.block() for _ in range(3)]
        bs.append(bs[0][:4] + p.bytes(4))
        bs.append(p.bytes(4) + bs[0][4:])
        raws = [s.mk('b_raw', 'lh', hx(b)) for b in bs]
        xs = [s.mk('b_enc', x, k) for x in raws for k in ks]
        for _ in range(10):
            s.op('eb_use', p.r.choice(es), hx(p.r.choice(bs)))
            s.op('b_val', p.r.choice(xs))
        o.add('turn', s)


def more_C02(c, o):
    p = c.p
    for r in list(range(33)) * c.n(2, 6):
        s = Sc()
        kh = p.keyhex()
        w = words_of(kh)
        k = mkey(s, p, p.r.choice(['str', 'nat', 'cache', 'kdstr']), kh, s.mk('sb_r3412'))
        for st in p.r.sample(corner_states(p, w), 3):
            b = s.mk('b_raw', 'lh', hx(craft.mback(w, st, r, craft.ORD_DEC)))
            s.op('b_val', s.mk('b_dec', b, k))
            b = s.mk('b_raw', 'lh', hx(craft.mback(w, st, r, craft.ORD_ENC)))
            s.op('b_val', s.mk('b_dec', s.mk('b_enc', b, k), k))
        o.add('state', s)
    for i in range(c.n(24)):
        s = Sc()
        w = repeat_key(p)
        k = s.mk('k_nat', sbox(s, p, 'r3412'), wlist(w))
        for b in crafted(p, w, craft.ORD_DEC) + [bytes(8), b'\xff' * 8]:
            x = s.mk('b_raw', 'u64', hx(b))
            s.op('b_val', s.mk('b_dec', x, k))
            s.op('b_val', s.mk('b_enc', s.mk('b_dec', x, k), k))
        o.add('rep', s)
    # the plaintext is special: block values of every corner come back
    for i in range(c.n(24)):
        s = Sc()
        k = mkey(s, p)
        for b in [bytes(8), b'\xff' * 8, bytes(4) + p.bytes(4), p.bytes(4) + bytes(4), p.block(), p.block()]:
            s.op('b_val', s.mk('b_dec', s.mk('b_enc', s.mk('b_raw', 'u64', hx(b)), k), k))
        o.add('plain', s)
    # the same block object in both directions, under two keys, asked in turn
    for i in range(c.n(20)):
        s = Sc()
        ks = [mkey(s, p) for _ in range(2)]
        b = s.mk('b_raw', 'lh', hx(p.block()))
        xs = [s.mk(f, b, k) for f in ('b_enc', 'b_dec', 'b_fwd', 'b_bwd') for k in ks]
        for x in p.r.sample(xs, 8) + p.r.sample(xs, 4):
            s.op('b_val', x)
        o.add('turn', s)


# ---------------------------------------------------------------- C03
def more_C03(c, o):
    p = c.p
    # tables that are equal in part, one constant, with equal halves of words: every index of every table
    for i in range(c.n(20)):
        s = Sc()
        t = [bytes(p.r.sample(range(16), 16)) for _ in range(8)]
        j, k = p.r.sample(range(8), 2)
        t[k] = t[j]
        if i % 3 == 0:
            t[p.r.randrange(8)] = bytes([p.r.randrange(16)]) * 16
        pi = b''.join(t)
        hs = [s.mk('sb_nib', hx(pi)), s.mk('sb_byte', hx(pack(pi)))]
        hs.append(s.mk('sb_tw', hs[0]))
        hs.append(s.mk('sb_tw', hs[1]))
        for x in range(16):
            for w in (x * 0x11111111, (x << 4 * j) | (p.r.getrandbits(32) & ~(15 << 4 * j))):
                for h in hs:
                    s.op('sb_use', h, '%08x' % w)
        for _ in range(6):                       # the same word again, boxes in turn
            w = p.word()
            for h in p.r.sample(hs, 3):
                s.op('sb_use', h, '%08x' % w)
        o.add('eq', s)
    # every byte of the packed table, nibbles and bytes of the word at each value
    for i in range(16):
        s = Sc()
        u = p.bytes(64)
        hs = [s.mk('sb_byte', hx(u)), s.mk('sb_r3412')]
        for j in range(8):
            for y in (0, 15, p.r.randrange(16)):
                w = sum((i if n == j else y) << 4 * n for n in range(8))
                for h in hs:
                    s.op('sb_use', h, '%08x' % w)
        o.add('one', s)


# ---------------------------------------------------------------- C04
def more_C04(c, o):
    p = c.p
    for i in range(c.n(24)):
        s = Sc()
        w = repeat_key(p)
        kh = words_hex(w)
        kds = [s.mk('kd_str', htext(p.r.choice([kh, kh.upper()]))), s.mk('kd_nat', wlist(w)), s.mk('kd_env', 0, wlist(w))]
        kds += [s.mk('kd_cache', d) for d in kds]
        for d in kds:
            for j in p.r.sample(range(8), 8):
                s.op('kd_use', d, j)
        b = s.mk('b_raw', 'u64', hx(p.block()))
        for d in kds:
            s.op('b_val', s.mk('b_enc', b, s.mk('k_kd', d, s.mk('sb_r3412'))))
        q = s.mk('qb_raw', 'lh', hx(p.block(16)))
        for kind in ('str', 'data', 'qd'):
            s.op('qb_val', s.mk('qb_enc', q, qkey(s, p, kind, kh)))
        o.add('rep', s)
    # one digit or one bit different: words stay apart
    for pos in range(0, 64, c.n(2, 1)):
        s = Sc()
        a = p.keyhex().lower()
        b = a[:pos] + '%x' % (int(a[pos], 16) ^ (1 << p.r.randrange(4))) + a[pos + 1:]
        for kh in (a, b):
            d = s.mk('kd_str', htext(kh))
            n = s.mk('kd_nat', wlist(words_of(kh)))
            for j in (pos // 8, (pos // 8 + 1) % 8):
                s.op('kd_use', d, j)
                s.op('kd_use', n, j)
            s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'zero', '0' * 32), s.mk('qk_str', htext(kh))))
            s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'zero', '0' * 16), s.mk('k_str', htext(kh))))
        o.add('bit', s)
    # every digit in either case at every place of a word
    for x in '0123456789abcdefABCDEF':
        s = Sc()
        kh = ''.join(x if p.r.random() < .5 else p.r.choice('0123456789abcdefABCDEF') for _ in range(64))
        d = s.mk('kd_str', htext(kh))
        for j in range(8):
            s.op('kd_use', d, j)
        dd = s.mk('qd_str', htext(kh))
        s.op('qb_val', s.mk('qd_low', dd))
        s.op('qb_val', s.mk('qd_high', dd))
        s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'zero', '0' * 16), s.mk('k_str', htext(x * 64))))
        o.add('digit', s)
    # special key halves
    for i in range(c.n(20)):
        s = Sc()
        h = p.bytes(16)
        hi, lo = p.r.choice([(h, h), (bytes(16), h), (h, bytes(16)), (bytes(16), bytes(16)), (h, xor(h, b'\xff' * 16)), (h[:8] * 2, h[8:] * 2),
                             (bytes(8) + h[:8], h[:8] + bytes(8))])
        kh = hi[::-1].hex() + lo[::-1].hex()
        q = s.mk('qb_raw', 'lh', hx(p.block(16)))
        for kind in ('str', 'data', 'data', 'qd'):
            s.op('qb_val', s.mk('qb_enc', q, qkey(s, p, kind, kh)))
        x = s.mk('qb_raw', 'lh', hx(hi))
        s.op('qb_val', s.mk('qb_enc', q, s.mk('qk_data', x, x)))       # the same object as both halves
        s.op('qb_val', s.mk('qb_enc', x, s.mk('qk_data', x, x)))
        o.add('kuz', s)


# ---------------------------------------------------------------- C06 C07
def kcorner(p):
    h = p.bytes(8)
    return p.r.choice([bytes(16), b'\xff' * 16, h + h, h + bytes(8), bytes(8) + h, h + b'\xff' * 8, p.block(16),
                       bytes(15) + b'\x01', b'\x01' + bytes(15), bytes([p.r.randrange(256)]) * 16, bytes(range(16))])


def more_C06(c, o):
    p = c.p
    # a special state before every round
    for r in list(range(10)) * c.n(3, 12):
        s = Sc()
        hi, lo = p.bytes(16), p.bytes(16)
        ks = craft.kkeys(hi, lo)
        k = qkey(s, p, None, hi[::-1].hex() + lo[::-1].hex())
        for _ in range(3):
            st = p.r.choice([kcorner(p), kcorner(p), ks[min(r, 9)], xor(ks[min(r, 9)], kcorner(p))])
            s.op('qb_val', s.mk(p.r.choice(['qb_enc', 'qb_kenc']), s.mk('qb_raw', 'lh', hx(craft.kback(ks, st, min(r, 9)))), k))
        o.add('state', s)
    # special round keys: the schedule run backwards from them
    for i in range(c.n(36)):
        s = Sc()
        a, b = kcorner(p), p.r.choice([None, None, kcorner(p)])
        b = p.bytes(16) if b is None and i % 3 else (a if b is None else b)
        if i % 2:
            a, b = b, a
        n = p.r.randrange(0, 33)
        hi, lo = craft.kfeistel_back(a, b, 1, n)
        k = qkey(s, p, None, hi[::-1].hex() + lo[::-1].hex())
        for _ in range(2):
            s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'lh', hx(kcorner(p))), k))
        o.add('sched', s)
    # blocks that agree in one half, keys that agree in one half, all under all, in turn
    for i in range(c.n(24)):
        s = Sc()
        h = [p.bytes(16) for _ in range(3)]
        kh = [x[::-1].hex() for x in h]
        ks = [qkey(s, p, None, a + b) for a, b in ((kh[0], kh[1]), (kh[0], kh[2]), (kh[1], kh[0]), (kh[2], kh[1]))]
        b = p.bytes(16)
        bl = [s.mk('qb_raw', 'lh', hx(x)) for x in (b, b[:8] + p.bytes(8), p.bytes(8) + b[8:], b[8:] + b[:8])]
        xs = [s.mk(p.r.choice(['qb_enc', 'qb_kenc']), x, k) for x in bl for k in ks]
        for x in p.r.sample(xs, 16):
            s.op('qb_val', x)
        o.add('half', s)
    # one key used many times
    s = Sc()
    k = qkey(s, p)
    for i in range(c.n(300, 1200)):
        s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'lh', hx(p.block(16))), k))
        if i % 50 == 0:
            s.op('qb_val', s.mk('qb_kenc', s.mk('qb_raw', 'zero', '0' * 32), k))
    o.add('many', s)


def more_C07(c, o):
    p = c.p
    # ranges of large constants
    big = [33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 4095, 32767, 32768, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1,
           1 << 24, (1 << 31) - 20] + [x for x in literals() if 33 < x < (1 << 31) - 40][:40]
    for x in big:
        s = Sc()
        ka, kb = [s.mk('qb_raw', 'lh', hx(p.block(16))) for _ in range(2)]
        for n in (0, 1, p.r.randrange(2, 5)):
            s.op('qb_val', s.mk('qb_iter', ka, kb, x, x + n))
        s.op('qb_val', s.mk('qb_iter', ka, kb, x - 1, x))
        o.add('const', s)
    # special states of the key expansion: equal, zero, equal to a constant
    for i in range(c.n(40)):
        s = Sc()
        c1 = p.r.choice([1, 1, 9, 17, 25, p.r.randrange(1, 33)])
        n = p.r.randrange(0, 9)
        at = p.r.randrange(0, n + 1)
        a = kcorner(p) if i % 3 else craft.kconst(c1 + at)
        b = p.r.choice([a, kcorner(p), p.bytes(16)])
        if p.r.random() < .5:
            a, b = b, a
        # qb_iter's first argument is the pair's first component
        x, y = craft.kfeistel_back(a, b, c1, c1 + at - 1) if at else (a, b)
        ha, hb = [s.mk('qb_raw', 'lh', hx(v)) for v in (x, y)]
        for ka, kb in ((ha, hb), (hb, ha), (ha, ha)):
            for m in {n, at, max(at - 1, 0)}:
                s.op('qb_val', s.mk('qb_iter', ka, kb, c1, c1 + m - 1 if m else c1))
        o.add('state', s)
    # the transforms of special values, of each other's results, the same object asked again after others
    for i in range(c.n(40)):
        s = Sc()
        h = p.bytes(8)
        bs = [s.mk('qb_raw', 'lh', hx(b)) for b in (kcorner(p), h + p.bytes(8), h + bytes(8), h + p.bytes(8), kcorner(p))]
        xs = [s.mk(f, b) for b in bs for f in ('qb_s', 'qb_r', 'qb_l')]
        for x in p.r.sample(xs, len(xs)) + p.r.sample(xs, 5):
            s.op('qb_val', x)
        e = s.mk('qb_env', 1, hx(p.block(16)))        # a block that changes: each value asked is transformed
        o.add('mix', s)
    # values that map to special values: preimages under S, L, R
    craft._init()
    for i in range(c.n(30)):
        s = Sc()
        v = kcorner(p)
        for b in (craft.kils(v), bytes(craft.IPI[x] for x in v), bytes(craft.LI(list(v))), v):
            h = s.mk('qb_raw', 'lh', hx(b))
            for f in ('qb_s', 'qb_r', 'qb_l'):
                x = s.mk(f, h)
                s.op('qb_val', x)
                s.op('qb_val', s.mk(p.r.choice(['qb_s', 'qb_r', 'qb_l']), x))
        o.add('pre', s)


# ---------------------------------------------------------------- C08
def more_C08(c, o):
    p = c.p
    for i in range(c.n(40)):
        s = Sc()
        # the same object, and equal values in different objects, as several operands
        b = p.block()
        x, y = s.mk('b_raw', 'lh', hx(b)), s.mk('b_raw', 'u64', hx(p.r.choice([b, p.block(), xor(b, b'\xff' * 8)])))
        z = s.mk('b_str', htext(p.block().hex()))
        for l in ((x, x), (x, x, y), (x, y, x), (y, x, x), (x, x, x), (x, y, z, x), (x, x, y, y), (z, x, x, z, y), (x, x, x, x, x), (x, y, y, y, x)):
            s.op('b_val', s.mk('b_xor', len(l), *l))
        q = p.block(16)
        x, y = s.mk('qb_raw', 'lh', hx(q)), s.mk('qb_raw', 'pair', hx(p.r.choice([q, p.block(16), q[:8] + p.bytes(8), p.bytes(8) + q[8:]])))
        z = s.mk('qb_str', htext(p.block(16).hex()))
        for l in ((x, x), (x, x, y), (x, y, x), (y, x, x), (x, x, x), (x, y, z, x), (x, x, y, y), (z, x, x, z, y), (x, x, x, x, x), (x, y, y, y, x)):
            s.op('qb_val', s.mk('qb_xor', len(l), *l))
        o.add('same', s)
    # shifts of values with one bit, by every distance to and over the half boundary
    for n in range(0, 64):
        s = Sc()
        for bit in {0, 31, 32, 63, max(0, 31 - n), max(0, 32 - n), max(0, 63 - n), p.r.randrange(64)}:
            s.op('b_val', s.mk('b_shl', s.mk('b_raw', 'lh', hx((1 << bit).to_bytes(8, 'little'))), n))
        o.add('s1', s)
    for n in range(0, 128):
        s = Sc()
        for bit in {0, 63, 64, 127, max(0, 63 - n), max(0, 64 - n), max(0, 127 - n), p.r.randrange(128)}:
            s.op('qb_val', s.mk('qb_shl', s.mk('qb_raw', 'lh', hx((1 << bit).to_bytes(16, 'little'))), n))
        o.add('q1', s)
    # long chains of increments over the boundary; of shifts; of swaps
    for start in ((1 << 64) - 20, (1 << 128) - 20, (1 << 32) - 20, (1 << 96) - 20, (1 << 63) - 20, (1 << 16) - 20):
        s = Sc()
        x = s.mk('qb_raw', 'lh', hx(start.to_bytes(16, 'little')))
        for _ in range(40):
            x = s.mk('qb_inc', x)
            s.op('qb_val', x)
        o.add('run', s)
    for i in range(c.n(10)):
        s = Sc()
        x, y = s.mk('b_raw', 'lh', hx(p.block())), s.mk('qb_raw', 'lh', hx(p.block(16)))
        for _ in range(12):
            x = s.mk('b_shl', x, p.r.choice([0, 1, 1, 7, 8, 31, 32])) if p.r.random() < .6 else s.mk('b_swap', x)
            y = s.mk('qb_shl', y, p.r.choice([0, 1, 1, 8, 63, 64])) if p.r.random() < .6 else s.mk('qb_inc', y)
            s.op('b_val', x)
            s.op('qb_val', y)
        o.add('chain', s)
    # texts with leading zeros, of every length, all digits alike
    for n in range(1, 17):
        s = Sc()
        for d in ('0', 'f', 'F', p.r.choice('123456789abcde')):
            s.op('b_val', s.mk('b_str', htext(d * n)))
            s.op('qb_val', s.mk('qb_str', htext(d * n)))
            s.op('qb_val', s.mk('qb_str', htext(d * (n + 16))))
        s.op('b_val', s.mk('b_str', htext(('1' + '0' * 16)[:n])))
        s.op('qb_val', s.mk('qb_str', htext(('1' + '0' * 32)[:n + 16])))
        o.add('txt', s)
    # raw data from a vector longer than needed or of any alignment
    for i in range(c.n(10)):
        s = Sc()
        for _ in range(4):
            b = p.block()
            s.op('b_val', s.mk('b_raw', 'vec', hx(b)))
            s.op('b_val', s.mk('b_raw', 'ptr', hx(b)))
            s.op('qb_val', s.mk('qb_raw', 'ptr', hx(b + p.block())))
        o.add('raw', s)


# ---------------------------------------------------------------- C09 .. C12
def special_plain(p, kind, w, iv, n):
    """a plaintext of n bytes whose ciphertext has special blocks (ECB, CFB of either standard; built-in table)"""
    reg = [iv[0]] if kind in ('cfb89',) else [iv[0], iv[1]]
    out, cs = b'', []
    while len(out) < n:
        x = p.r.random()
        want = (bytes(8) if x < .2 else b'\xff' * 8 if x < .3 else cs[-1] if x < .45 and cs else reg[0] if x < .55 else iv[0] if x < .6
                else reg[-1] if x < .65 else None)
        if kind.startswith('ecb'):
            pl = craft.menc(w, want, craft.ORD_DEC) if want else p.r.choice([bytes(8), p.block(), p.bytes(8)])
            ct = craft.menc(w, pl)
        else:
            g = craft.menc(w, reg[0])
            ct = want or xor(g, p.r.choice([bytes(8), g, p.block(), p.bytes(8)]))
            pl = xor(ct, g)
            reg = reg[1:] + [ct]
        out += pl
        cs.append(ct)
    return out[:n]


def special_scen(c, o, kinds, n, read):
    p = c.p
    for i in range(n):
        s = Sc()
        kh = p.keyhex()
        k = mkey(s, p, p.r.choice(['str', 'kdstr', 'nat', 'cache']), kh, s.mk('sb_r3412'))
        kind = kinds[i % len(kinds)]
        iv = p.r.choice([(p.block(), p.block()), (bytes(8), bytes(8)), (lambda b: (b, b))(p.block())])
        ln = p.r.choice([16, 24, 32, 48])
        if not kind.startswith('ecb'):
            ln += p.r.choice([0, 0, 3, 7])
        m = special_plain(p, kind, words_of(kh), iv, ln)
        x, _ = layer(s, p, kind, s.mk('s_mem'), k, iv)
        top = x
        at = 0
        for z in chunks(p, len(m), [8, 16, 24] if kind.startswith('ecb') else None):
            x = s.write(x, m[at:at + z])
            at += z
        f = s.fin(x)
        s.fin(s.write(top, m))
        if read:
            fr = frags(p)
            y, _ = unlayer(s, p, kind, s.mk('c_from', f, ' '.join([str(len(fr))] + [str(q) for q in fr])), k, iv)
            h = y
            for _ in range(len(m) // 8 + 2):
                h = s.read(h, p.r.choice([8, 8, 16]) if kind.startswith('ecb') else p.r.choice([8, 8, 3, 16]))
            s.op('same', y, hx(m))
        o.add('special', s)


def more_C09(c, o):
    p = c.p
    special_scen(c, o, ['cfb89', 'cfb'], c.n(40), False)
    for n in lens(c, 4200, c.n(24, 200)) + lens(c, 70000, c.n(2, 12)) + beyond(p):
        s = Sc()
        k = conkey(s, p)
        for kind in ('cfb89', 'cfb') if n < 100000 else (p.r.choice(['cfb89', 'cfb']),):
            per = p.bytes(13)
            m = (per * (n // 13 + 1))[:n]
            top, _ = layer(s, p, kind, s.mk('s_mem'), k)
            if n < 4300:
                x = s.write(top, m[:5]) if p.r.random() < .5 else top
                s.fin(s.write(x, m))
            s.fin(s.write(top, m))
        o.add('size', s)
    # small and large writes by turns on a handle with k pending bytes
    for k0 in range(8):
        for n in p.pick([0, 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 70, 127, 128, 129], c.n(5, 15)):
            s = Sc()
            k = pipe_key2(s, p)
            top, _ = layer(s, p, p.r.choice(['cfb89', 'cfb']), s.mk('s_mem'), k)
            x = s.write(top, p.msg(k0))
            y = s.write(x, p.msg(n))
            z = s.write(y, p.msg(p.r.choice([0, 1, 8 - (k0 + n) % 8])))
            for h in (z, y, x):
                s.fin(h)
            o.add('pend', s)


def pipe_key2(s, p):
    return mkey(s, p, p.r.choice(['str', 'toy', 'toy', 'nat', 'cache']))


def more_C10(c, o):
    p = c.p
    special_scen(c, o, ['cfb89', 'cfb'], c.n(40), True)
    for n in lens(c, 4200, c.n(24, 200)) + lens(c, 70000, c.n(2, 12)) + beyond(p):
        s = Sc()
        k = conkey(s, p)
        for kind in ('cfb89', 'cfb') if n < 100000 else (p.r.choice(['cfb89', 'cfb']),):
            per = p.bytes(13)
            m = (per * (n // 13 + 1))[:n]
            fr = p.r.choice([[], [], [3], [8, 1], [64], [n]])
            x, _ = unlayer(s, p, kind, src(s, m, fr), k)
            s.read(s.read(x, -1), 1)
            y = s.read(x, n - p.r.choice([0, 1, 8, 9]) if n > 9 else n)
            s.read(s.read(y, 16), 8)
            y = s.read(x, p.r.choice([1, 5, 7]))
            s.read(s.read(y, n), 1)
        o.add('size', s)
    # k bytes left over from one read, then a read of every size
    for k0 in range(8):
        for n in p.pick([0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 23, 24, 25, 63, 64, 70], c.n(6, 16)):
            s = Sc()
            x, _ = unlayer(s, p, p.r.choice(['cfb89', 'cfb']), src(s, p.msg(p.r.choice([8, 13, 16, 40, 80])), frags(p)), pipe_key2(s, p))
            y = s.read(x, 8 - k0 if k0 else p.r.choice([8, 16]))
            z = s.read(y, n)
            s.read(s.read(y, 0), n)
            w = s.read(z, p.r.choice([1, 8, 11]))
            s.read(s.read(w, -1), 3)
            o.add('left', s)
    # sources over sources that deliver in large or tiny pieces
    for i in range(c.n(30)):
        s = Sc()
        m = p.msg(p.r.randrange(1, 60))
        x = csrc(s, p, p.r.choice(['cfb', 'cfb89']), m, frags(p))
        x, _ = unlayer(s, p, p.r.choice(['cfb89', 'cfb']), x, pipe_key2(s, p))
        y = x
        for z in chunks(p, len(m) + 9):
            y = s.read(y, z)
        s.read(s.read(x, -1), -1)
        o.add('over', s)


def more_C11(c, o):
    p = c.p
    special_scen(c, o, ['cfb89', 'cfb', 'ecb', 'ecb89'], c.n(48), True)
    for n in lens(c, 4200, c.n(16, 120)):
        s = Sc()
        kinds = [p.r.choice(['cfb89', 'cfb', 'ecb']) for _ in range(p.r.choice([1, 1, 2]))]
        if 'ecb' in kinds:
            n = n // 8 * 8
        m = (p.bytes(24) * (n // 24 + 1))[:n]
        keys = [conkey(s, p) for _ in kinds]
        x, ivs = s.mk('s_mem'), []
        for kind, k in zip(kinds, keys):
            x, iv = layer(s, p, kind, x, k)
            ivs.append(iv)
        x = s.write(x, m)
        for _ in kinds:
            x = s.fin(x)
        fr = p.r.choice([[], [3], [64, 5]])
        y = s.mk('c_from', x, ' '.join([str(len(fr))] + [str(f) for f in fr]))
        for kind, k, iv in zip(kinds, keys, ivs):
            y, _ = unlayer(s, p, kind, y, k, iv)
        s.op('same', y, hx(m))
        if kinds[-1] != 'ecb':
            s.read(s.read(y, -1), 1)
        o.add('size', s)
    # deep pipelines, one key everywhere, the same IV everywhere
    for i in range(c.n(24)):
        s = Sc()
        kinds = [p.r.choice(['cfb89', 'cfb', 'ecb', 'ecb89']) for _ in range(p.r.choice([2, 3, 4, 5]))]
        if i % 4 == 0:
            kinds = [kinds[0]] * len(kinds)
        n = p.r.randrange(0, 6) * 8 if any('ecb' in k for k in kinds) else p.r.randrange(0, 40)
        m = p.msg(n)
        k1, iv1 = pipe_key2(s, p), (p.block(8), p.block(8))
        x = s.mk('s_mem')
        for kind in kinds:
            x, _ = layer(s, p, kind, x, k1, iv1)
        at = 0
        for z in chunks(p, n, [8, 16, 0] if 'ecb' in kinds[-1] else None):
            x = s.write(x, m[at:at + z])
            at += z
        for _ in kinds:
            x = s.fin(x)
        y = s.mk('c_from', x, '0')
        for kind in kinds:
            y, _ = unlayer(s, p, kind, y, k1, iv1)
        h = y
        for _ in range(n // 8 + 1):
            h = s.read(h, 8)
        s.op('same', y, hx(m))
        o.add('deep', s)


def more_C12(c, o):
    p = c.p
    special_scen(c, o, ['ecb', 'ecb89'], c.n(48), True)
    # plaintexts with corner blocks come back, whatever the fragmentation
    for i in range(c.n(40)):
        s = Sc()
        n = 8 * p.r.randrange(1, 6)
        m = b''.join(p.r.choice([bytes(8), b'\xff' * 8, p.block(), p.bytes(8), bytes(7) + b'\x01', b'\x80' + bytes(7)]) for _ in range(n // 8))
        x = csrc(s, p, p.r.choice(['ecb', 'ecb89']), m, frags(p))
        h = x
        for _ in range(n // 8 + 1):
            h = s.read(h, p.r.choice([8, 8, 15, 16]))
        s.op('same', x, hx(m))
        o.add('plain', s)
    for n in list(range(40, 400, 8)) + [x // 8 * 8 for x in lens(c, 4200, c.n(16, 120))] + [x // 8 * 8 for x in lens(c, 70000, c.n(2, 12)) + beyond(p)]:
        if not n:
            continue
        s = Sc()
        k = conkey(s, p)
        m = (p.bytes(40) * (n // 40 + 1))[:n]
        top, _ = layer(s, p, p.r.choice(['ecb', 'ecb89']), s.mk('s_mem'), k)
        w = s.write(top, m)
        s.fin(w)
        if n < 5000:
            s.write(top, m + b'x')
            s.write(top, m[1:])
            s.fin(s.write(w, m[:8]))
        y, _ = unlayer(s, p, p.r.choice(['ecb', 'ecb89']), src(s, m + p.bytes(p.r.choice([0, 0, 5])), p.r.choice([[], [3], [64]])), k)
        s.read(y, p.r.choice([-1, n, 4096, 64]))
        if n < 500:
            h = y
            for _ in range(n // 8 + 1):
                h = s.read(h, 8)
            s.read(h, 8)
        o.add('size', s)
    # a misaligned write at every stage
    for n in range(1, 8):
        for pre in (0, 8, 16):
            s = Sc()
            k = pipe_key2(s, p)
            x, _ = layer(s, p, p.r.choice(['ecb', 'ecb89']), s.mk('s_mem'), k)
            if pre:
                x = s.write(x, p.msg(pre))
            s.write(x, p.msg(n))
            s.write(x, p.msg(8 - n))
            y = s.write(x, p.msg(8))
            s.write(y, p.msg(8 * p.r.randrange(1, 40) + n))
            s.fin(y)
            s.fin(x)
            o.add('mis', s)


# ---------------------------------------------------------------- C13 C14 C15
def msb(b):
    return b[-1] >> 7


def key_with(p, want, enc):
    """a key text for which the derived keys take the wanted branches (top bits of L and of 2L)"""
    while True:
        kh = p.keyhex()
        l = enc(kh)
        v = int.from_bytes(l, 'little')
        n = 8 * len(l)
        if ((v >> (n - 1)) & 1, (v >> (n - 2)) & 1) == want:
            return kh


def more_C13(c, o):
    p = c.p
    # the MAC as a block: an operand of other blocks, asked before and after them, its source and key let go of
    for i in range(c.n(24)):
        s = Sc()
        k, k2 = mkey(s, p, p.r.choice(['str', 'nat', 'cache', 'env'])), mkey(s, p)
        x = src(s, p.msg(8 * p.r.randrange(1, 4)), frags(p))
        b = s.mk('b_mac', x, k)
        raw = s.mk('b_raw', 'u64', hx(p.block()))
        if p.r.random() < .5:
            s.op('b_val', b)
        for h in p.r.sample([x, k], p.r.randrange(3)):
            s.op('drop', h)
        hs = [s.mk('b_xor', 2, *p.r.sample([raw, b], 2)), s.mk('b_xor', 2, b, b), s.mk('b_swap', b), s.mk('b_shl', b, p.r.choice([0, 1, 31, 32, 33, p.r.randrange(64)])),
              s.mk('b_enc', b, k2), s.mk('b_dec', b, k2), s.mk('b_fwd', b, k2), s.mk('b_bwd', b, k2), b, b]
        p.r.shuffle(hs)
        for h in hs:
            s.op('b_val', h)
        o.add('operand', s)
    enc0 = lambda kh: craft.menc(words_of(kh), bytes(8))
    for want in ((0, 0), (0, 1), (1, 0), (1, 1)):
        for n in (0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 32):
            s = Sc()
            k = mkey(s, p, p.r.choice(['str', 'kdstr', 'nat', 'cache']), key_with(p, want, enc0), s.mk('sb_r3412'))
            s.op('mac', src(s, p.msg(n), frags(p)), k)
            s.op('mac', src(s, bytes(n), frags(p)), k)
            o.add('top', s)
    # chains through special values, messages with special blocks at every place
    for i in range(c.n(40)):
        s = Sc()
        kh = p.keyhex()
        w = words_of(kh)
        k = mkey(s, p, p.r.choice(['str', 'nat', 'cache']), kh, s.mk('sb_r3412'))
        m, v = b'', bytes(8)
        for _ in range(p.r.randrange(1, 5)):
            x = p.r.choice([bytes(8), v, b'\xff' * 8, p.block(), craft.mback(w, p.r.choice(corner_states(p, w)), p.r.randrange(33))])
            m += xor(x, v)          # the cipher sees x here
            v = craft.menc(w, x)
        m += p.r.choice([b'', v, bytes(8), bytes(3), v[:5], b'\x80', b'\x00', b'\x80' + bytes(7), bytes(7) + b'\x80', bytes(7) + b'\x01'])
        x = src(s, m, frags(p))
        s.op('mac', x, k)
        s.op('mac', x, k)
        o.add('chain', s)
    for n in lens(c, 4200, c.n(24, 200)) + lens(c, 70000, c.n(3, 12)) + beyond(p):
        s = Sc()
        k = conkey(s, p)
        m = (p.bytes(13) * (n // 13 + 1))[:n]
        s.op('mac', src(s, m, p.r.choice([[], [3], [8], [7, 9], [1]])), k)
        o.add('size', s)
    # the source was partly read already, or delivers its end in pieces; many macs of one source in turn
    for i in range(c.n(30)):
        s = Sc()
        ks = [mkey(s, p, p.r.choice(LAZY)) for _ in range(2)]
        m = p.msg(p.r.randrange(1, 40))
        x = src(s, m, frags(p)) if i % 2 else csrc(s, p, p.r.choice(['cfb', 'cfb89']), m, frags(p))
        y = s.read(x, p.r.randrange(1, 12))
        for h in p.r.sample([x, y, x, y], 4):
            s.op('mac', h, p.r.choice(ks))
        o.add('part', s)


def more_C14(c, o):
    p = c.p
    for n in lens(c, 4200, c.n(30, 200)) + lens(c, 70000, c.n(3, 12)) + beyond(p) + [8 * x for x in (255, 256, 257, 511, 512, 513)]:
        s = Sc()
        k = conkey(s, p)
        s.op('di_val', s.mk('di_new', k, hx((p.bytes(13) * (n // 13 + 1))[:n])))
        o.add('size', s)
    for i in range(c.n(40)):
        s = Sc()
        kh = p.keyhex()
        w = words_of(kh)
        k = mkey(s, p, p.r.choice(['str', 'nat', 'cache']), kh, s.mk('sb_r3412'))
        order = list(range(8)) * 2
        m, v = b'', bytes(8)
        for _ in range(p.r.randrange(1, 6)):
            x = p.r.choice([bytes(8), v, b'\xff' * 8, p.block(), craft.mback(w, p.r.choice(corner_states(p, w)), p.r.randrange(17), order)])
            m += xor(x, v)
            v = craft.menc(w, x, order)
        m += p.r.choice([b'', v, bytes(8), bytes(3), v[:5], b'\x80', b'\x00'])
        d = s.mk('di_new', k, hx(m))
        s.op('di_val', d)
        s.op('di_val', d)
        for _ in range(3):
            b = craft.mback(w, p.r.choice(corner_states(p, w)), p.r.randrange(17), order)
            s.op('b_val', s.mk('b_imit', s.mk('b_raw', 'lh', hx(b)), k))
        o.add('chain', s)
    # several at once, asked in turn
    for i in range(c.n(20)):
        s = Sc()
        ks = [mkey(s, p, p.r.choice(LAZY)) for _ in range(2)]
        ds = [s.mk('di_new', p.r.choice(ks), hx(p.msg(p.r.randrange(0, 30)))) for _ in range(4)]
        for d in p.r.sample(ds, 4) + p.r.sample(ds, 4):
            s.op('di_val', d)
        o.add('turn', s)
    for i in range(c.n(16)):
        s = Sc()
        k = s.mk('k_nat', sbox(s, p), wlist(repeat_key(p)))
        s.op('di_val', s.mk('di_new', k, hx(p.msg(p.r.randrange(0, 40)))))
        s.op('b_val', s.mk('b_imit', s.mk('b_raw', 'u64', hx(p.block())), k))
        o.add('rep', s)


def halves(kh):
    return bytes.fromhex(kh[:32])[::-1], bytes.fromhex(kh[32:])[::-1]


def env_stream(s, bl):
    """a caller's stream of these blocks (each of 1 to 16 bytes)"""
    return s.mk('t_env', ' '.join([str(len(bl))] + ['%s %d' % (hx(b + bytes(16 - len(b))), len(b)) for b in bl]))


def more_C15(c, o):
    p = c.p
    # the MAC as a block: an operand of other blocks, half of a key
    for i in range(c.n(16)):
        s = Sc()
        k = qkey(s, p)
        st = s.mk('t_mem', hx(p.msg(16 * p.r.randrange(1, 3))))
        if p.r.random() < .3:
            st = s.mk('t_ctr', st, k, hx(p.block(8)))
        b = s.mk('qb_mac', st, k)
        raw = s.mk('qb_raw', 'lh', hx(p.block(16)))
        if p.r.random() < .5:
            s.op('qb_val', b)
        hs = [s.mk('qb_xor', 2, *p.r.sample([raw, b], 2)), s.mk('qb_shl', b, p.r.choice([0, 1, 63, 64, 65, p.r.randrange(128)])), s.mk('qb_inc', b),
              s.mk('qb_s', b), s.mk('qb_l', b), s.mk('qb_cache', b), s.mk('qb_enc', b, k),
              s.mk('qb_enc', raw, s.mk('qk_data', *p.r.sample([raw, b], 2))), b, b]
        if p.r.random() < .5:
            s.op('drop', st)
        p.r.shuffle(hs)
        for h in hs:
            s.op('qb_val', h)
        o.add('operand', s)
    enc0 = lambda kh: craft.kenc(craft.kkeys(*halves(kh)), bytes(16))
    for want in ((0, 0), (0, 1), (1, 0), (1, 1)):
        for n in (0, 1, 8, 15, 16, 24, 32, 40):
            s = Sc()
            k = qkey(s, p, None, key_with(p, want, enc0))
            for m in (p.msg(n), bytes(n)):
                s.op('t_mac', env_stream(s, [m[i:i + 16] for i in range(0, n, 16)]), k)
                if n % 8 == 0:
                    s.op('t_mac', s.mk('t_mem', hx(m)), k)
            o.add('top', s)
    for i in range(c.n(40)):
        s = Sc()
        kh = p.keyhex()
        rk = craft.kkeys(*halves(kh))
        k = qkey(s, p, None, kh)
        m, v = b'', bytes(16)
        for _ in range(p.r.randrange(1, 5)):
            x = p.r.choice([bytes(16), v, kcorner(p), craft.kback(rk, kcorner(p), p.r.randrange(10))])
            m += xor(x, v)
            v = craft.kenc(rk, x)
        m += p.r.choice([b'', v, bytes(16), bytes(8), v[:8], kcorner(p)])
        t = s.mk('t_mem', hx(m)) if i % 2 else env_stream(s, [m[j:j + 16] for j in range(0, len(m), 16)])
        s.op('t_mac', t, k)
        s.op('t_mac', t, qkey(s, p, None, kh))
        o.add('chain', s)
    # special blocks at the end and elsewhere; several streams and keys in turn
    for i in range(c.n(30)):
        s = Sc()
        ks = [qkey(s, p) for _ in range(2)]
        ts = []
        for _ in range(3):
            m = b''.join(p.r.choice([kcorner(p), p.bytes(16)]) for _ in range(p.r.randrange(1, 4)))
            m = m[:len(m) - p.r.choice([0, 0, 8])]
            ts.append(s.mk('t_mem', hx(m)))
            if p.r.random() < .4:
                ts.append(s.mk('t_ctr', ts[-1], p.r.choice(ks), hx(p.block(8))))
        for _ in range(6):
            s.op('t_mac', p.r.choice(ts), p.r.choice(ks))
        o.add('turn', s)
    # long ones: the chain runs through a cycle
    xs = [p.bytes(16) for _ in range(3)]
    kh = p.keyhex()
    rk = craft.kkeys(*halves(kh))
    ys = [craft.kenc(rk, x) for x in xs]
    cyc = xor(ys[0], xs[1]) + xor(ys[1], xs[2]) + xor(ys[2], xs[0])
    for n in [x // 48 for x in lens(c, 9000, c.n(16, 80)) if x > 200] + [85, 86, 170, 171, 341, 342, 1366 + p.r.randrange(3), 21846 + p.r.randrange(3)]:
        s = Sc()
        k = qkey(s, p, None, kh)
        tail = p.r.choice([b'', p.bytes(16), p.bytes(8), p.bytes(32)])
        s.op('t_mac', s.mk('t_mem', hx(xs[0]) + '+' + '%s*%d' % (hx(cyc), n) + ('+' + hx(tail) if tail else '')), k)
        o.add('size', s)


# ---------------------------------------------------------------- C16 C17
def full_walk(s, p, st, n):
    h = s.mk('i_iter', st)
    for i in range(n):
        for q in p.r.sample(['i_val', 'i_last', 'i_size'], 3):
            s.op(q, h)
        h = s.mk('i_next', h)


def more_C16(c, o):
    p = c.p
    # streams with short blocks anywhere
    for i in range(c.n(40)):
        s = Sc()
        bl = [p.block(16)[:p.r.choice([16, 16, 16, 1, 7, 8, 9, 15, p.r.randrange(1, 17)])] for _ in range(p.r.randrange(1, 7))]
        st = env_stream(s, bl)
        k, iv = qkey(s, p), hx(p.block(8))
        e = s.mk('t_ctr', st, k, iv)
        full_walk(s, p, e, len(bl))
        full_walk(s, p, s.mk('t_ctr', e, k, iv), len(bl))
        o.add('short', s)
    # values that encrypt to zero, counters with special encryption
    for i in range(c.n(24)):
        s = Sc()
        kh = p.keyhex()
        rk = craft.kkeys(*halves(kh))
        iv = p.r.choice([p.block(8), bytes(8), b'\xff' * 8])
        bl = []
        for j in range(4):
            g = craft.kenc(rk, j.to_bytes(8, 'little') + iv)
            bl.append(xor(g, p.r.choice([bytes(16), bytes(8) + p.bytes(8), p.bytes(8) + bytes(8), g, kcorner(p)])))
        m = b''.join(bl)[:64 - p.r.choice([0, 8])]
        e = s.mk('t_ctr', s.mk('t_mem', hx(m)), qkey(s, p, None, kh), hx(iv))
        full_walk(s, p, e, 4)
        o.add('zero', s)
    # several encryptions of one stream and of several, walked in turn, positions asked again
    for i in range(c.n(24)):
        s = Sc()
        ks = [qkey(s, p) for _ in range(2)]
        st = [s.mk('t_mem', hx(p.msg(p.r.choice([32, 40, 48])))) for _ in range(2)]
        iv = [p.block(8), p.block(8)]
        es = [s.mk('t_ctr', p.r.choice(st), p.r.choice(ks), hx(p.r.choice(iv))) for _ in range(3)]
        hs = [[s.mk('i_iter', e)] for e in es]
        for _ in range(14):
            x = p.r.choice(hs)
            if len(x) < 2 and p.r.random() < .5:
                x.append(s.mk('i_next', x[-1]))
            s.op(p.r.choice(['i_val', 'i_val', 'i_size', 'i_last']), p.r.choice(x))
        o.add('turn', s)
    # far positions, reached in several ways
    for n in p.pick([127, 128, 254, 255, 256, 257, 300, 511, 512, 1023, 1024, 2047, 4095, 4096, 8191], c.n(6, 15)) + [4097 + p.r.randrange(9), 65537 + p.r.randrange(9)]:
        s = Sc()
        st = s.mk('t_mem', rep_(p.bytes(24), (n + 3) * 16 // 24 + 1))
        e = s.mk('t_ctr', st, qkey(s, p), hx(p.block(8)))
        a = s.mk('i_iter', e)
        x = s.mk('i_walk', a, n)
        s.op('i_val', x)
        y = s.mk('i_next', s.mk('i_walk', a, n - 1))
        s.op('i_val', y)
        s.op('i_val', s.mk('i_next', x))
        s.op('i_val', s.mk('i_next', y))
        o.add('far', s)


def rep_(period, n):
    return '%s*%d' % (hx(period), n)


def more_C17(c, o):
    p = c.p
    # zero words, equal words, at the end and elsewhere
    for n in range(1, 12):
        for _ in range(c.n(3)):
            s = Sc()
            w = [p.r.choice([bytes(8), b'\xff' * 8, p.bytes(8), p.block()]) for _ in range(n)]
            if p.r.random() < .5:
                w[-1] = p.r.choice([bytes(8), b'\xff' * 8])
            if p.r.random() < .3:
                w = [w[0]] * n
            t = s.mk('t_mem', hx(b''.join(w)))
            full_walk(s, p, t, (n + 1) // 2)
            hs = [s.mk('i_iter', t)]
            for _ in range((n + 1) // 2 - 1):
                hs.append(s.mk('i_next', hs[-1]))
            for h in reversed(hs):
                for q in ('i_last', 'i_size', 'i_val'):
                    s.op(q, h)
            o.add('word', s)
    for n in lens(c, 4200, c.n(20, 120)) + [8192 + p.r.randrange(3, 9), 16384 + p.r.randrange(5), 131072 + p.r.randrange(4, 40)]:
        s = Sc()
        t = s.mk('t_mem', rep_(p.bytes(8 * 5), n // 5 + 1))
        total = ((n // 5 + 1) * 5 + 1) // 2
        a = s.mk('i_iter', t)
        if p.r.random() < .5:
            s.op('drop', t)
        for q in sorted({0, 1, total // 2, total - 2, total - 1} & set(range(total))):
            x = s.mk('i_walk', a, q) if q else a
            for f in ('i_val', 'i_last', 'i_size'):
                s.op(f, x)
            s.mk('i_next', x)
        o.add('size', s)
    # two streams side by side, iterators of both in turn, one advanced twice from the same place
    for i in range(c.n(24)):
        s = Sc()
        ts = [s.mk('t_mem', hx(p.msg(8 * p.r.randrange(1, 9)))) for _ in range(2)]
        hs = [s.mk('i_iter', t) for t in ts]
        for _ in range(14):
            h = p.r.choice(hs)
            x = p.r.random()
            if x < .3:
                hs.append(s.mk('i_next', h))
            elif x < .4:
                hs.append(s.mk('i_iter', p.r.choice(ts)))
            else:
                s.op(p.r.choice(['i_val', 'i_last', 'i_size']), h)
        o.add('turn', s)


# ---------------------------------------------------------------- C18
def more_C18(c, o):
    p = c.p
    # objects that come and go: the next one may live where the last one did
    for i in range(c.n(30)):
        s = Sc()
        b, q = p.block(), p.block(16)
        raw, qraw = s.mk('b_raw', 'lh', hx(b)), s.mk('qb_raw', 'lh', hx(q))
        m = p.msg(19)
        src0 = src(s, m, [])
        for _ in range(4):
            made = []
            kind = ['str', 'nat', 'strsb', 'cache', 'env'][i % 5]
            h0 = s.h
            k = mkey(s, p, kind)
            iv = (p.block(8), p.block(8))
            for f in ('b_enc', 'b_dec', 'b_fwd'):
                s.op('b_val', s.mk(f, raw, k))
            s.op('k_use', k, '12345678', 3)
            s.op('eb_use', s.mk('eb_new', k), hx(b))
            x, _ = layer(s, p, p.r.choice(['cfb', 'cfb89']), s.mk('s_mem'), k, iv)
            s.fin(s.write(x, m))
            y, _ = unlayer(s, p, p.r.choice(['cfb', 'cfb89']), src0, k, iv)
            s.read(s.read(y, 9), -1)
            s.op('mac', src0, k)
            s.op('di_val', s.mk('di_new', k, hx(m)))
            qk = qkey(s, p, ['str', 'data', 'qd'][i % 3])
            s.op('qb_val', s.mk('qb_enc', qraw, qk))
            t = s.mk('t_mem', hx(p.bytes(32)))
            s.op('t_mac', t, qk)
            e = s.mk('t_ctr', t, qk, hx(iv[0]))
            it = s.mk('i_iter', e)
            s.op('i_val', it)
            s.op('i_val', s.mk('i_next', it))
            made = list(range(h0 + 1, s.h + 1))
            if p.r.random() < .5:
                p.r.shuffle(made)
            for h in made:
                s.op('drop', h)
        o.add('reuse', s)
    # the same few objects again and again, each time in the places of the last ones
    for i in range(c.n(30)):
        s = Sc()
        b, q, m = p.block(), p.block(16), p.msg(19)
        raw, qraw = s.mk('b_raw', 'lh', hx(b)), s.mk('qb_raw', 'lh', hx(q))
        src0 = src(s, m, [])
        k0, qk0 = mkey(s, p, 'str'), qkey(s, p, 'str')
        kind = p.r.choice(LAZY)
        what = i % 10
        for _ in range(6):
            h0 = s.h
            if what < 3:
                k = mkey(s, p, kind)
                if what == 0:
                    s.op('k_use', k, '12345678', 3)
                elif what == 1:
                    s.op('b_val', s.mk('b_enc', raw, k))
                else:
                    s.op('mac', src0, k)
            elif what == 3:
                s.op('b_val', s.mk(p.r.choice(['b_enc', 'b_dec']), s.mk('b_raw', 'lh', hx(p.block())), k0))
            elif what == 4:
                s.op('eb_use', s.mk('eb_new', mkey(s, p, kind)), hx(b))
            elif what == 5:
                qk = qkey(s, p, 'str')
                s.op('qb_val', s.mk('qb_enc', qraw, qk))
                s.op('t_mac', s.mk('t_mem', hx(p.bytes(40))), qk)
            elif what == 6:
                s.op('qb_val', s.mk('qb_cache', s.mk('qb_enc', s.mk('qb_raw', 'lh', hx(p.block(16))), qk0)))
            elif what == 7:
                it = s.mk('i_iter', s.mk('t_ctr', s.mk('t_mem', hx(p.bytes(40))), qk0, hx(p.block(8))))
                for _ in range(2):
                    s.op('i_val', it)
                    it = s.mk('i_next', it)
                s.op('i_val', it)
            elif what == 8:
                x, _ = layer(s, p, p.r.choice(['cfb', 'cfb89']), s.mk('s_mem'), k0)
                s.fin(s.write(x, p.msg(13)))
            else:
                y, _ = unlayer(s, p, p.r.choice(['cfb', 'cfb89']), src(s, p.msg(20), []), k0)
                s.read(s.read(y, 9), -1)
                s.op('di_val', s.mk('di_new', k0, hx(p.msg(9))))
            for h in range(s.h, h0, -1):
                s.op('drop', h)
        o.add('again', s)
    place(c, o, ('k_use', 'enc', 'dec', 'eb', 'mac', 'bmac', 'di', 'imit', 'sink', 'ecb', 'source'))
    qplace(c, o, ('enc', 'kenc', 'mac', 'qmac', 'ctr'))
    # everything that is computed when asked, at every small length: asked three times, other users of its parts in between
    for n in range(0, 36):
        s = Sc()
        k, k2, qk = mkey(s, p, p.r.choice(LAZY)), mkey(s, p, p.r.choice(LAZY)), qkey(s, p)
        m = p.msg(n)
        so = src(s, m, frags(p))
        use = [('b_val', s.mk('b_mac', so, k)), ('b_val', s.mk('b_mac', so, k2)), ('b_val', s.mk('b_mac', so, k)),
               ('di_val', s.mk('di_new', k, hx(m))), ('di_val', s.mk('di_new', k, hx(m)))]
        w = m[:n // 8 * 8]
        t = s.mk('t_mem', hx(w))
        e = s.mk('t_ctr', t, qk, hx(p.block(8)))
        use += [('qb_val', s.mk('qb_mac', t, qk)), ('qb_val', s.mk('qb_mac', e, qk))]
        use += [('mac', so, k), ('t_mac', t, qk), ('t_mac', e, qk), ('c_read', so, 8), ('c_read', so, -1)]
        for kind in ('cfb', 'cfb89'):
            x, _ = unlayer(s, p, kind, so, k)
            use += [('c_read', x, -1), ('b_val', s.mk('b_mac', x, k2))]
            y, _ = layer(s, p, kind, s.mk('s_mem'), k)
            use += [('s_write', y, m), ('s_fin', s.write(y, m))]
        for y in (t, e) if w else ():
            it = s.mk('i_iter', y)
            use += [('i_val', it), ('i_size', it), ('i_last', it)] + [('i_next', it)] * (len(w) > 16)
        use = use * (3 if n < 18 else 2)
        p.r.shuffle(use)
        for u in use:
            {'s_write': s.write, 's_fin': s.fin, 'c_read': s.read, 'i_next': lambda h: s.mk('i_next', h)}.get(
                u[0], lambda *a: s.op(u[0], *a))(*u[1:])
        o.add('thrice', s)
    # what was built from an object outlives it: drop everything underneath in any order, use what remains
    for i in range(c.n(40)):
        s = Sc()
        low, tops = [], []
        k = mkey(s, p, p.r.choice(LAZY))
        b = s.mk('b_raw', 'lh', hx(p.block()))
        low += [k, b]
        e = s.mk('b_enc', b, k)
        low.append(e)
        tops += [('b_val', s.mk('b_dec', e, k)), ('b_val', s.mk('b_xor', 3, b, e, b)), ('b_val', s.mk('b_shl', e, 5)), ('b_val', s.mk('b_swap', e))]
        qk = qkey(s, p)
        q = s.mk('qb_raw', 'lh', hx(p.block(16)))
        qe = s.mk('qb_enc', q, qk)
        low += [qk, q, qe]
        tops += [('qb_val', s.mk('qb_enc', qe, qk)), ('qb_val', s.mk('qb_inc', qe)), ('qb_val', s.mk('qb_cache', qe)), ('qb_val', s.mk('qb_kenc', q, qk)),
                 ('qb_val', s.mk('qb_l', q)), ('qb_val', s.mk('qb_iter', q, qe, 1, 3))]
        t = s.mk('t_mem', hx(p.bytes(40)))
        ct = s.mk('t_ctr', t, qk, hx(p.block(8)))
        it = s.mk('i_iter', ct)
        low += [t, ct, it]
        tops += [('qb_val', s.mk('qb_mac', ct, qk)), ('i_val', s.mk('i_next', it)), ('i_last', s.mk('i_next', it))]
        so = src(s, p.msg(21), frags(p))
        z, _ = unlayer(s, p, p.r.choice(['cfb', 'cfb89']), so, k)
        low += [so, z]
        tops += [('b_val', s.mk('b_mac', z, k)), ('di_val', s.mk('di_new', k, hx(p.msg(10))))]
        y = s.read(z, 5)
        mem = s.mk('s_mem')
        snk, _ = layer(s, p, p.r.choice(['cfb', 'cfb89']), mem, k)
        w = s.write(snk, p.msg(11))
        low += [mem, snk]
        before = p.r.random() < .5
        if before:
            for f, h in p.r.sample(tops, 6):
                s.op(f, h)
        p.r.shuffle(low)
        for h in low:
            s.op('drop', h)
            f, x = p.r.choice(tops)
            s.op(f, x)
        for f, h in p.r.sample(tops, len(tops)):
            s.op(f, h)
        s.read(y, -1)
        s.fin(s.write(w, p.msg(3)))
        o.add('outlive', s)
    # equal contents in different objects, different contents used alternately
    for i in range(c.n(24)):
        s = Sc()
        kh = [p.keyhex() for _ in range(2)]
        ks = [mkey(s, p, p.r.choice(['str', 'kdstr', 'nat', 'cache']), kh[j % 2], s.mk('sb_r3412')) for j in range(4)]
        iv = (p.block(8), p.block(8))
        m = p.msg(20)
        hs = []
        for k in ks:
            x, _ = layer(s, p, p.r.choice(['cfb', 'cfb89']), s.mk('s_mem'), k, iv)
            hs.append(x)
        for at in range(0, 20, 5):
            for j in p.r.sample(range(4), 4):
                hs[j] = s.write(hs[j], m[at:at + 5])
        for x in hs:
            s.fin(x)
        ys = [unlayer(s, p, p.r.choice(['cfb', 'cfb89']), src(s, m, frags(p)), k, iv)[0] for k in ks]
        for at in range(0, 24, 6):
            for j in p.r.sample(range(4), 4):
                ys[j] = s.read(ys[j], 6)
        o.add('turn', s)


# ---------------------------------------------------------------- C05 C19 C21
def more_C05(c, o):
    p = c.p
    # one character wrong, in every reader, used in every way (what fails must go on failing; nothing must come out)
    for i in range(c.n(60)):
        s = Sc()
        t = list(p.keyhex())
        for _ in range(p.r.choice([1, 1, 2, 8])):
            t[p.r.randrange(64)] = p.r.choice('gGzZ -+xX./:@`\n\t\0_hOl,') if p.r.random() < .8 else chr(p.r.choice(list(range(0, 48)) + list(range(58, 65)) + list(range(71, 97)) + list(range(103, 256))))
        if i % 5 == 0:
            t = t[:p.r.choice([63, 62, 56, 32, 0])] if i % 2 else t + [p.r.choice('0af g\0')]
        t = ''.join(t)
        k = s.mk('k_str', htext(t))
        q = s.mk('qk_str', htext(t))
        raw, qraw = s.mk('b_raw', 'u64', hx(p.block())), s.mk('qb_raw', 'lh', hx(p.block(16)))
        xs = [s.mk(f, raw, k) for f in ('b_enc', 'b_dec')]
        for x in xs * 2:
            s.op('b_val', x)
        s.op('b_val', s.mk('b_imit', raw, k))
        s.op('di_val', s.mk('di_new', k, hx(p.msg(p.r.choice([0, 5, 16])))))
        s.op('eb_use', s.mk('eb_new', k), hx(p.block()))
        s.op('mac', src(s, p.msg(p.r.choice([0, 3, 8])), []), k)
        x = s.mk('qb_enc', qraw, q)
        s.op('qb_val', x)
        s.op('qb_val', x)
        st = s.mk('t_mem', hx(p.bytes(24)))
        s.op('t_mac', st, q)
        e = s.mk('t_ctr', st, q, hx(p.block(8)))
        it = s.mk('i_iter', e)
        s.op('i_val', it)
        o.add('use', s)
    # good and bad ones side by side: a bad one never takes the value of a good one
    for i in range(c.n(30)):
        s = Sc()
        good = p.keyhex()
        bad = p.r.choice([good[:63], good + '0', good[:-1] + 'g', 'g' + good[1:], good[:31] + ' ' + good[32:], ''])
        kg, kb = s.mk('k_str', htext(good)), s.mk('k_str', htext(bad))
        raw = s.mk('b_raw', 'u64', hx(p.block()))
        for k in (kg, kb, kg, kb):
            s.op('b_val', s.mk('b_enc', raw, k))
        qraw = s.mk('qb_raw', 'lh', hx(p.block(16)))
        for t in (good, bad, good, bad):
            s.op('qb_val', s.mk('qb_enc', qraw, s.mk('qk_str', htext(t))))
        b = good[:16]
        for t in (b, b[:15] + 'g', b + '0', b):
            x = s.mk('b_str', htext(t))
            s.op('b_val', x)
            s.op('b_val', x)
        for t in (good[:32], good[:31] + '-', good[:33], good[:32]):
            x = s.mk('qb_str', htext(t))
            s.op('qb_val', x)
            s.op('qb_val', s.mk('qb_cache', x))
        o.add('side', s)
    # words a key does not have, between those it has
    q = Pool(c.seed, 'C05/outside')
    for i in range(c.n(12)):
        s = Sc()
        k = s.mk('kd_str', htext(q.keyhex()))
        out = [-1, 8, 9, 15, 16, 63, 64, 255, 256, 257, -8, -256, 65536, 1 << 29, (1 << 29) + 1, (1 << 31) - 1, - (1 << 31), 1 << 28, - (1 << 29)]
        for j in q.r.sample(range(8), 8):
            s.op('kd_use', k, q.r.choice(out))
            s.op('kd_use', k, j)
        for j in out:
            s.op('kd_use', k, j)
        s.op('kd_use', k, 7)
        o.add('outside', s)


def more_C19(c, o):
    p = c.p
    # corner values (a zero, or anything, must not mean "not loaded")
    for i in range(c.n(40)):
        s = Sc()
        w = [p.r.choice([0, craft.M32, 0, p.word(), 0xfefefefe, 0xffffffff - 0x01010100]) for _ in range(8)]
        vary = p.r.randrange(2)
        e = s.mk('kd_env', vary, wlist(w))
        k = s.mk('kd_cache', e)
        if p.r.random() < .3:
            fuse(s, p, p.r.randrange(1, 9))
            s.op('kd_use', k, p.r.randrange(8))
            s.op('fuse', 0)
        for j in [p.r.randrange(8) for _ in range(10)] + list(range(8)):
            s.op('kd_use', k, j)
        b = s.mk('qb_env', vary, hx(p.r.choice([bytes(16), b'\xff' * 16, bytes(8) + p.bytes(8), p.bytes(8) + bytes(8), (b'\xff' * 8) + bytes(8)])))
        q = s.mk('qb_cache', b)
        if p.r.random() < .3:
            fuse(s, p, 1)
            s.op('qb_val', q)
            s.op('fuse', 0)
        for _ in range(3):
            s.op('qb_val', q)
        o.add('corner', s)
    # every kind of exception, at every word, then every access order
    for n in range(1, 9):
        for kind in range(10):
            s = Sc()
            e = s.mk('kd_env', 1, wlist([p.word() for _ in range(8)]))
            k = s.mk('kd_cache', e)
            if p.r.random() < .5:
                s.op('kd_use', k, 0) if p.r.random() < .2 else None
            s.op('fuse', n, kind)
            s.op('kd_use', k, p.r.randrange(8))
            s.op('fuse', 0)
            for j in p.r.sample(range(8), 8):
                s.op('kd_use', k, j)
            if n == 1:
                q = s.mk('qb_cache', s.mk('qb_env', 1, hx(p.block(16))))
                s.op('fuse', 1, kind)
                s.op('qb_val', q)
                s.op('fuse', 1, (kind + 3) % 10)
                s.op('qb_val', q)
                s.op('fuse', 0)
                s.op('qb_val', q)
                s.op('qb_val', q)
            o.add('exc', s)
    # the key of a cipher: its halves are blocks that may fail, and are constant
    for i in range(c.n(20)):
        s = Sc()
        ca = s.mk('qb_cache', s.mk('qb_env', 0, hx(p.block(16))))
        cb = s.mk('qb_cache', s.mk('qb_env', 0, hx(p.block(16))))
        k = s.mk('qk_data', ca, cb)
        x = [s.mk('qb_enc', s.mk('qb_raw', 'lh', hx(p.block(16))), k) for _ in range(2)]
        fuse(s, p, p.r.choice([0, 1, 2, 3]))
        for _ in range(2):
            s.op('qb_val', p.r.choice(x))
        s.op('fuse', 0)
        for h in x * 2:
            s.op('qb_val', h)
        o.add('halves', s)


def more_C21(c, o):
    p = c.p

    def armed(s, n, kind, ops, again=1):
        s.op('fuse', n, kind)
        ops()
        s.op('fuse', 0)
        for _ in range(again):
            ops()

    # every kind of exception, from every kind of object, through every operation
    for kind in range(10):
        for n in (1, 2, p.r.randrange(3, 34)):
            for mode in ('cfb89', 'cfb', 'ecb'):
                s = Sc()
                k = mkey(s, p, p.r.choice(['toy', 'str', 'env', 'cache']))
                x, _ = layer(s, p, mode, s.mk('s_mem'), k)
                m = p.msg(16)
                res = []
                armed(s, n, kind, lambda: res.append(s.write(x, m)))
                top = res[-1]
                if mode != 'ecb':
                    top = s.write(top, p.msg(3))
                armed(s, min(n, 2), kind, lambda: s.fin(top))
                y, _ = unlayer(s, p, mode, src(s, p.msg(24), frags(p)), k)
                armed(s, n, kind, lambda: res.append(s.read(y, 8)))
                z = res[-1]
                armed(s, min(n, 3), kind, lambda: res.append(s.read(z, 8)))
                z = res[-1]
                for _ in range(3):
                    z = s.read(z, 8)
                armed(s, 1, kind, lambda: s.read(z, 8))
                o.add('kind-' + mode, s)
            s = Sc()
            k = mkey(s, p, p.r.choice(['env', 'cache', 'str', 'strsb']))
            x = src(s, p.msg(p.r.choice([16, 21])), frags(p))
            b = s.mk('b_mac', x, k)
            armed(s, n, kind, lambda: s.op('mac', x, k))
            armed(s, n, kind, lambda: s.op('b_val', b))
            d = s.mk('di_new', k, hx(p.msg(19)))
            armed(s, n, kind, lambda: s.op('di_val', d))
            xs = [s.mk(f, s.mk('b_env', hx(p.block())), k) for f in ('b_enc', 'b_dec', 'b_fwd', 'b_bwd')]
            xs.append(s.mk('b_xor', 3, xs[0], xs[1], xs[2]))
            xs.append(s.mk('b_shl', xs[0], 3))
            xs.append(s.mk('b_swap', xs[1]))
            for h in xs:
                armed(s, n, kind, lambda: s.op('b_val', h))
            o.add('kind-mac', s)
            s = Sc()
            k = s.mk('qk_data', s.mk('qb_env', 0, hx(p.block(16))), s.mk('qb_env', 0, hx(p.block(16))))
            t = env_stream(s, [p.bytes(16), p.bytes(16), p.bytes(p.r.choice([5, 16]))])
            e = s.mk('t_ctr', t, k, hx(p.block(8)))
            armed(s, n, kind, lambda: s.op('t_mac', t, k))
            armed(s, n, kind, lambda: s.op('t_mac', e, k))
            q = s.mk('qb_env', 0, hx(p.block(16)))
            hs = [s.mk(f, q) for f in ('qb_inc', 'qb_s', 'qb_r', 'qb_l', 'qb_cache')] + [s.mk('qb_shl', q, 7), s.mk('qb_xor', 2, q, q), s.mk('qb_enc', q, k),
                  s.mk('qb_mac', e, k), s.mk('qb_iter', q, q, 1, 2)]
            for h in hs:
                armed(s, min(n, 4), kind, lambda: s.op('qb_val', h))
            res = []
            armed(s, 1, kind, lambda: res.append(s.mk('i_iter', e)))
            it = res[-1]
            for f in ('i_val', 'i_last', 'i_size'):
                armed(s, min(n, 2), kind, lambda: s.op(f, it))
            armed(s, min(n, 2), kind, lambda: res.append(s.mk('i_next', it)))
            s.op('i_val', res[-1])
            o.add('kind-kuz', s)
    # S-boxes of the caller, containers of the caller
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 40):
        s = Sc()
        kind = p.r.randrange(10)
        sb = s.mk('sb_tw', s.mk('sb_toy', '%08x' % p.word()))
        armed(s, 1, kind, lambda: s.op('sb_use', sb, '%08x' % p.word()))
        k = s.mk('k_strsb', htext(p.keyhex()), sb)
        armed(s, 1, kind, lambda: s.op('k_use', k, '%08x' % p.word(), 2))
        x = s.mk('b_enc', s.mk('b_raw', 'u64', hx(p.block())), k)
        armed(s, n, kind, lambda: s.op('b_val', x))
        e = s.mk('eb_new', k)
        b = hx(p.block())
        armed(s, n, kind, lambda: s.op('eb_use', e, b))
        ct = s.mk('cont', hx(p.bytes(32)), hx(p.bytes(32)), hx(p.bytes(64)))
        so = src(s, p.msg(16), frags(p))
        res = []
        s.op('fuse', n, kind)
        y = s.mk('c_ecbc', so, ct)
        s.op('fuse', 0)
        y2 = s.mk('c_ecbc', so, ct)
        armed(s, n, kind, lambda: res.append(s.read(y2, 8)))
        s.read(res[-1], 8)
        s.read(y, 8)
        o.add('box', s)
    # nested pipelines: the fault is in the middle of one call that moves many blocks
    for i in range(c.n(40)):
        s = Sc()
        mem = s.mk('s_mem')
        x = mem
        for _ in range(p.r.choice([2, 3])):
            x, _ = layer(s, p, p.r.choice(['cfb', 'cfb89']), x, mkey(s, p, 'toy' if p.r.random() < .5 else 'str'))
        x = s.write(x, p.msg(p.r.randrange(9)))
        m = p.msg(p.r.choice([17, 40, 70]))
        n = p.r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 33, 34, 65, 66, 100, 150])
        res = []
        armed(s, n, p.r.randrange(10), lambda: res.append(s.write(x, m)), 2)
        for h in res[1:]:
            armed(s, p.r.choice([1, 2, 34]), p.r.randrange(10), lambda: s.fin(h))
        so = src(s, p.msg(p.r.choice([24, 37])), frags(p))
        y = so
        for _ in range(p.r.choice([2, 3])):
            y, _ = unlayer(s, p, p.r.choice(['cfb', 'cfb89']), y, mkey(s, p, 'toy' if p.r.random() < .5 else 'str'))
        y = s.read(y, p.r.randrange(1, 7))
        res = []
        armed(s, p.r.choice([1, 2, 3, 4, 5, 6, 8, 10]), p.r.randrange(10), lambda: res.append(s.read(y, 20)), 2)
        for h in res[1:]:
            s.read(h, -1)
        k = mkey(s, p, p.r.choice(LAZY))
        armed(s, p.r.choice([1, 2, 3, 4, 5, 6, 8, 10]), p.r.randrange(10), lambda: s.op('mac', y, k), 2)
        o.add('nest', s)


# ---------------------------------------------------------------- C22
def bulk(p, what, total, grain=0):
    """a message of `total` bytes (made whole blocks where it has to be) for `what` under a real key, whose states run
    through a cycle of a few blocks"""
    s = Sc()
    k = p.r.choice([3, 5, 7, 11])
    kh = p.keyhex()
    w = words_of(kh)
    bs = 16 if what[0] == 't' else 8
    iv, pos = [], None
    st = [p.bytes(bs) for _ in range(k)]              # the cycle
    head = [p.bytes(bs) for _ in range(p.r.randrange(3))] + st[-2:]
    if what[0] == 't' or 'ecb' in what or what == 'mac':
        total = total // bs * bs
    cnt = max(1, (total - len(head) * bs - 1) // (k * bs))
    tail = p.bytes(max(bs, total - len(head) * bs - cnt * k * bs))
    if bs == 16:
        key = qkey(s, p, keyhex=kh)
        hi, lo = halves(kh)
        rk = craft.kkeys(hi, lo)
    else:
        d = p.r.choice(['str', 'str', 'nat', 'cache'])
        key = mkey(s, p, d, kh, s.mk('sb_r3412') if d != 'str' else None)
    if 'cfb' in what:
        iv = [p.block(8) for _ in range(1 if what.endswith('89') else 2)]
        if what[0] == 's':
            c = iv + head + st
            m = len(iv)
            pl = [craft.xor(c[i + m], craft.menc(w, c[i])) for i in range(len(c) - m)]
            # the first blocks of the second round are masked by the last ones of the cycle, as those of the first are
            pre, per = pl[:len(head)], pl[len(head):]
        else:
            pre, per = head, st
    elif 'ecb' in what:
        pre, per = head, st
    elif what == 't_ctr':
        pre, per, iv = head, st, [p.block(8)]
    else:
        inv = {'mac': lambda b: craft.mback(w, (int.from_bytes(b[4:], 'little'), int.from_bytes(b[:4], 'little')), 32),
               'di': lambda b: craft.mback(w, (int.from_bytes(b[:4], 'little'), int.from_bytes(b[4:], 'little')), 16, list(range(8)) * 2),
               't_mac': lambda b: craft.kback(rk, craft.xor(b, rk[9]), 9)}[what]
        c = [bytes(bs)] + head + st
        pl = [craft.xor(inv(c[i + 1]), c[i]) for i in range(len(c) - 1)]
        pre, per = pl[:len(head)], pl[len(head):]
    if what == 't_ctr':
        n = len(head) + cnt * k + len(tail) // 16
        pos = sorted({x + d for x in [0, n - 1, total // 16] + [1 << i for i in range(7, 24)] + [p.r.randrange(n) for _ in range(40)]
                      + [y * z for y in fresh() for z in (1, 16)] + [y // 16 for y in fresh()]
                      for d in (-1, 0, 1) if 0 <= x + d < n})
    s.op('bulk', what, key, hx(b''.join(pre)), hx(b''.join(per)), cnt, hx(tail), grain, len(iv), *[hx(x) for x in iv],
         *([] if pos is None else [len(pos)] + pos))
    return s


BULK = ('s_cfb89', 's_cfb', 's_ecb', 's_ecb89', 'c_cfb89', 'c_cfb', 'c_ecb', 'c_ecb89', 'mac', 'di', 't_mac', 't_ctr')


def bulks(c, o, sizes, whats=BULK):
    p = c.p
    for what in whats:
        for n in sizes:
            n += p.r.randrange(40)
            o.add('bulk-' + what, bulk(p, what, n // 4 if what == 't_mac' else n))
        g = p.r.choice([8, 16, 24]) if 'ecb' in what else p.r.choice([1, 7, 8, 9, 64, 1000])
        o.add('bulk-' + what, bulk(p, what, sizes[0] if g > 8 else min(sizes[0], 200000), g))


def bulk_more(c, o):
    """each mode at a large size, in one go and in pieces"""
    whats = {'C09': ('s_cfb89', 's_cfb'), 'C10': ('c_cfb89', 'c_cfb'), 'C12': ('s_ecb', 's_ecb89', 'c_ecb', 'c_ecb89'), 'C13': ('mac',),
             'C14': ('di',), 'C15': ('t_mac',), 'C16': ('t_ctr',)}.get(c.tag)
    if whats:
        bulks(c, o, [1 << 16, 1 << 18, 1 << 20] + ([1 << 24] if c.tier == 'thorough' else []), whats)


def more_C22(c, o):
    p = c.p
    bulks(c, o, [1 << 20, 1 << 24] + ([1 << 22, 1 << 26] if c.tier == 'thorough' else []))
    big = c.n(131072, 262144)
    far = c.n(20000, 60000)
    for what, kinds, n in [('write', ['cfb', 'cfb89', 'ecb'], big), ('writes', ['cfb', 'cfb89', 'ecb'], far), ('keep', ['cfb', 'cfb89', 'ecb'], far),
                           ('hold', ['cfb', 'cfb89', 'ecb'], far), ('read', ['cfb', 'cfb89', 'ecb'], big), ('reads', ['cfb', 'cfb89', 'ecb'], far),
                           ('mac', ['x', 'ecb'], big), ('imit', ['x'], big)]:
        for kind in kinds:
            s = Sc()
            k = conkey(s, p)
            s.op('deep', what, kind, k, 16, n)
            o.add('depth-' + what, s)
    for what in ('kmac', 'cmac', 'ctr', 'mem', 'cmem'):
        for kind in ('x', 'hold'):
            if what in ('kmac', 'cmac') and kind == 'hold':
                continue
            s = Sc()
            k = s.mk('qk_str', htext(p.keyhex()))
            s.op('deep', what, kind, k, 16, far)
            o.add('depth-' + what, s)
