"""Where the sources hold constants that the list in consts.json does not (a changed tree), scenarios in which counts,
lengths and positions come to just these numbers.  On the tree the list was made for there are none."""
from .scen import *
from .more import bulk, conkey, halves, rep_, xor
from . import craft


def near(x, limit, low=1):
    return [y for y in (x - 1, x, x + 1) if low <= y <= limit]


def more(c, o):
    p = c.p
    fs = p.fresh if len(p.fresh) <= 10 else p.pick(p.fresh, 10)
    for f in fs:
        g = globals().get('aim_' + c.tag)
        if g:
            g(c, o, f)


def uses(o, f, p, first, again, limit):
    """what first() makes, used f + 3 times"""
    if f > limit:
        return
    s = Sc()
    again(s, first(s), f + 3)
    o.add('count', s)


def blocks(c, o, f, op):
    p = c.p
    if f <= 2000:
        kh = p.keyhex()
        s = Sc()                         # many blocks under one key
        k = s.mk('k_str', htext(kh))
        for _ in range(f + 3):
            s.op('b_val', s.mk(op, s.mk('b_raw', 'u64', hx(p.block())), k))
        o.add('count', s)
        s = Sc()                         # one block many times
        x = s.mk(op, s.mk('b_raw', 'u64', hx(p.block())), s.mk('k_str', htext(kh)))
        for _ in range(f + 3):
            s.op('b_val', x)
        o.add('count', s)


def aim_C01(c, o, f):
    blocks(c, o, f, 'b_enc')
    if f <= 2000:
        p, s = c.p, Sc()
        e = s.mk('eb_new', s.mk('k_str', htext(p.keyhex())))
        for _ in range(f + 3):
            s.op('eb_use', e, hx(p.block()))
        o.add('count', s)


def aim_C02(c, o, f):
    blocks(c, o, f, 'b_dec')


def aim_C03(c, o, f):
    p = c.p
    for kind in ('r3412', 'nib', 'byte'):
        s = Sc()
        b = sbox(s, p, kind)
        for x in [y & 0xffffffff for y in (f, f - 1, f + 1, ~ f, f << 8, f << 16, f << 24, f << 4, f << 28)]:
            s.op('sb_use', b, '%08x' % x)
        for _ in range(f + 3 if f <= 3000 else 0):
            s.op('sb_use', b, '%08x' % p.word())
        o.add('aim', s)


def aim_C04(c, o, f):
    p = c.p
    for i in range(8):
        s = Sc()
        w = [p.word() for _ in range(8)]
        for j in ([i] if p.r.random() < .5 else p.r.sample(range(8), 3)):
            w[j] = p.odd(32)
        kh = ''.join('%08x' % x for x in w)
        raw = s.mk('b_raw', 'u64', hx(p.block()))
        for kind in ('str', 'nat', 'cache', 'env'):
            k = mkey(s, p, kind, kh, s.mk('sb_r3412'))
            for j in range(8):
                s.op('k_use', k, '%08x' % p.word(), j)
            s.op('b_val', s.mk('b_enc', raw, k))
        uz = p.bytes(64)
        y = s.mk('c_ecbc', src(s, p.bytes(16), []), s.mk('cont', hx(bytes.fromhex(kh)), hx(p.bytes(32)), hx(uz)))
        s.read(y, 16)
        s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'lh', hx(p.block(16))), s.mk('qk_str', htext(kh))))
        o.add('aim', s)


def aim_C05(c, o, f):
    p = c.p
    for n in near(f, 70000, 0) + near(2 * f, 70000) + near(f + 64, 70000):
        s = Sc()
        t = (p.keyhex() * (n // 64 + 1))[:n]
        raw, q = s.mk('b_raw', 'u64', hx(p.block())), s.mk('qb_raw', 'lh', hx(p.block(16)))
        s.op('b_val', s.mk('b_enc', raw, s.mk('k_str', htext(t))))
        d = s.mk('kd_str', htext(t))
        for j in (0, 7, 3):
            s.op('kd_use', d, j)
        s.op('qb_val', s.mk('qb_enc', q, s.mk('qk_str', htext(t))))
        s.op('b_val', s.mk('b_str', htext(t)))
        s.op('qb_val', s.mk('qb_str', htext(t)))
        o.add('aim', s)
        if n <= 3000:
            for kl, sl in ((n, 64), (32, n), (n, n)):
                s = Sc()
                s.read(s.mk('c_ecbc', src(s, p.bytes(16), []), s.mk('cont', hx(p.bytes(kl)), hx(p.bytes(32)), hx(p.bytes(sl)))), 8)
                o.add('aim', s)
            s = Sc()
            s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'u64', hx(p.block())),
                               s.mk('k_nat', s.mk('sb_r3412'), wlist([p.word() for _ in range(n)]))))
            o.add('aim', s)
    if f < 256:                          # a character
        for _ in range(6):
            s = Sc()
            t = list(p.keyhex())
            t[p.r.randrange(64)] = chr(f)
            t = ''.join(t)
            raw, q = s.mk('b_raw', 'u64', hx(p.block())), s.mk('qb_raw', 'lh', hx(p.block(16)))
            s.op('b_val', s.mk('b_enc', raw, s.mk('k_str', htext(t))))
            s.op('qb_val', s.mk('qb_enc', q, s.mk('qk_str', htext(t))))
            for u in (t[:16], t[48:]):
                s.op('b_val', s.mk('b_str', htext(u)))
            for u in (t[:32], t[32:]):
                s.op('qb_val', s.mk('qb_str', htext(u)))
            o.add('aim', s)


def aim_C06(c, o, f):
    p = c.p
    if f <= 700:
        for op in ('qb_enc', 'qb_kenc'):
            s = Sc()
            k = s.mk('qk_str', htext(p.keyhex()))
            b = s.mk('qb_raw', 'lh', hx(p.block(16)))
            for i in range(f + 3):
                s.op('qb_val', s.mk(op, b if i % 2 else s.mk('qb_raw', 'lh', hx(p.block(16))), k))
            o.add('count', s)
        s = Sc()
        x = s.mk('qb_enc', s.mk('qb_raw', 'lh', hx(p.block(16))), s.mk('qk_str', htext(p.keyhex())))
        for i in range(f + 3):
            s.op('qb_val', x)
        o.add('count', s)


def aim_C07(c, o, f):
    p = c.p
    for x in near(f, (1 << 31) - 20):
        s = Sc()
        ka, kb = [s.mk('qb_raw', 'lh', hx(p.block(16))) for _ in range(2)]
        for a, b in ((x, x), (max(x - 1, 0), x + 1), (x, x + 3), (max(x - 3, 0), x), (x + 1, x), (1, min(x, 12)), (x + 2, x)):
            s.op('qb_val', s.mk('qb_iter', ka, kb, a, b))
        o.add('aim', s)
    for _ in range(12):
        s = Sc()
        b = s.mk('qb_raw', 'lh', hx(p.odd(128).to_bytes(16, 'little')))
        for op in ('qb_s', 'qb_r', 'qb_l'):
            s.op('qb_val', s.mk(op, b))
        o.add('aim', s)


def aim_C08(c, o, f):
    p = c.p
    for _ in range(8):
        s = Sc()
        xs = [s.mk('b_raw', 'u64', hx((p.odd(64) if i else p.r.getrandbits(64)).to_bytes(8, 'little'))) for i in range(3)]
        qs = [s.mk('qb_raw', 'lh', hx((p.odd(128) if i else p.r.getrandbits(128)).to_bytes(16, 'little'))) for i in range(3)]
        for x in xs:
            s.op('b_val', s.mk('b_shl', x, p.r.randrange(64)))
            s.op('b_val', s.mk('b_swap', x))
        for x in qs:
            s.op('qb_val', s.mk('qb_shl', x, p.r.randrange(128)))
            s.op('qb_val', s.mk('qb_inc', x))
        s.op('b_val', s.mk('b_xor', 2, *p.r.sample(xs, 2)))
        s.op('qb_val', s.mk('qb_xor', 2, *p.r.sample(qs, 2)))
        o.add('aim', s)


def unit(p, kind):
    return p.bytes(8) if kind.startswith('ecb') else p.bytes(p.r.choice([1, 7, 8, 9]))


def big(p, n):
    k = p.r.choice([13, 31, 37])
    b = p.bytes(k)
    return rep_(b, n // k) + ('+' + hx(b[:n % k]) if n % k else '') if n >= k else hx(b[:n])


def sizes(f, limit):
    """numbers of bytes: f of them, or f words or blocks"""
    out = []
    for k in (1, 8, 16):
        for d in (0, 1, -1, 8):
            if 0 < f * k + d <= limit:
                out.append(f * k + d)
    return sorted(set(out))


def bulks(c, o, f, whats):
    """messages too long to be evaluated block by block, and as many calls"""
    p = c.p
    for what in whats:
        for n in p.pick([x for x in sizes(f, 1 << 25) if x > 3000], 8 if f < 1 << 18 else 4):
            o.add('bulk-' + what, bulk(p, what, n))
        for g in p.pick([8] if 'ecb' in what else [1, 7, 8, 9], 2) if 1000 < f <= 1 << 22 else ():
            if what not in ('di', 't_mac', 't_ctr'):
                o.add('bulk-' + what, bulk(p, what, f * g + p.r.randrange(1, 30), g))


def pipes(c, o, f, kinds, wr, rd):
    p = c.p
    bulks(c, o, f, [x + k for x in ('s_', 'c_')[not wr:1 + rd] for k in kinds])
    for n in sizes(f, 100000):
        for kind in kinds:
            ecb = kind.startswith('ecb')
            m = n // 8 * 8 if ecb else n
            if wr and m:
                s = Sc()                 # one write; and one byte more
                top, _ = layer(s, p, kind, s.mk('s_mem'), conkey(s, p))
                s.h += 1
                s.op('s_write', top, s.h, big(p, m))
                x = s.h
                s.fin(x)
                s.fin(s.write(x, p.bytes(8)))
                o.add('size', s)
            if rd and m:
                s = Sc()                 # one read, and more than one
                up = s.mk('c_mem', big(p, m + p.r.choice([0, 8, 16])), p.r.choice(['0', '2 5 3', '1 1']))
                z, _ = unlayer(s, p, kind, up, conkey(s, p))
                s.read(s.read(s.read(z, m), 8), 8)
                if not ecb:
                    for q in (m - 1, m + 1):
                        s.read(s.read(z, q), 8)
                o.add('size', s)
    for n in near(f, 70000):             # calls
        for kind in kinds:
            iv = (p.block(8), p.block(8))
            if wr:
                s = Sc()
                top, _ = layer(s, p, kind, s.mk('s_mem'), conkey(s, p), iv)
                s.h += 1
                s.op('s_many', top, s.h, n, hx(unit(p, kind)))
                s.fin(s.write(s.h, p.bytes(8)))
                o.add('count', s)
            if rd:
                s = Sc()
                q = 8 if kind.startswith('ecb') else p.r.choice([1, 5, 8, 9])
                z, _ = unlayer(s, p, kind, s.mk('c_mem', big(p, n * q + 16), '0'), conkey(s, p), iv)
                s.h += 1
                s.op('c_many', z, s.h, q, n)
                s.read(s.read(s.h, 8), 16)
                o.add('count', s)


def aim_C09(c, o, f):
    pipes(c, o, f, ['cfb89', 'cfb'], True, False)


def aim_C10(c, o, f):
    pipes(c, o, f, ['cfb89', 'cfb'], False, True)


def aim_C11(c, o, f):
    p = c.p
    for n in sizes(f, 20000):
        for kind in ('cfb89', 'cfb', 'ecb'):
            s = Sc()
            m = p.bytes(n // 8 * 8 if kind == 'ecb' else n)
            k, iv = conkey(s, p), (p.block(8), p.block(8))
            top, _ = layer(s, p, kind, s.mk('s_mem'), k, iv)
            z, _ = unlayer(s, p, kind, s.mk('c_from', s.fin(s.write(top, m)), '0'), k, iv)
            s.op('same', z, hx(m))
            o.add('size', s)


def aim_C12(c, o, f):
    pipes(c, o, f, ['ecb', 'ecb89'], True, True)


def aim_C13(c, o, f):
    p = c.p
    bulks(c, o, f, ('mac',))
    for n in sizes(f, 100000):
        s = Sc()
        k = conkey(s, p)
        for fr in ('0', '2 5 3'):
            s.op('mac', s.mk('c_mem', big(p, n), fr), k)
        o.add('size', s)


def aim_C14(c, o, f):
    p = c.p
    bulks(c, o, f, ('di',))
    for n in sizes(f, 100000):
        s = Sc()
        s.op('di_val', s.mk('di_new', conkey(s, p), big(p, n)))
        o.add('size', s)


def kmac(c, o, f, limit):
    """Kuznyechik MACs of about f blocks, f words, f bytes; long ones with a chain that runs through a cycle"""
    p = c.p
    kh = p.keyhex()
    rk = craft.kkeys(*halves(kh))
    xs = [p.bytes(16) for _ in range(3)]
    ys = [craft.kenc(rk, x) for x in xs]
    cyc = xor(ys[0], xs[1]) + xor(ys[1], xs[2]) + xor(ys[2], xs[0])
    for n in sorted({y for k in (8, 16) for y in (f * k - 8, f * k, f * k + 8, f * k + 16) if 0 < y <= limit}):
        s = Sc()
        k = s.mk('qk_str', htext(kh))
        if n <= 3000:
            t = hx(p.bytes(n))
        else:
            r, z = divmod(n - 16, 48)
            t = hx(xs[0]) + '+' + '%s*%d' % (hx(cyc), r) + ('+' + hx(p.bytes(z)) if z else '')
        s.op('t_mac', s.mk('t_mem', t), k)
        o.add('size', s)


def aim_C15(c, o, f):
    bulks(c, o, f, ('t_mac',))
    kmac(c, o, f, 200000)


def iters(c, o, f, ctr):
    p = c.p
    for n in sorted({y for x in near(f, 300000, 2) for y in (x, x // 2, x // 8, x // 16) if y > 1}):
        s = Sc()
        t = s.mk('t_mem', rep_(p.bytes(24), (n + 3) * 16 // 24 + 1))
        if ctr:
            t = s.mk('t_ctr', t, s.mk('qk_str', htext(p.keyhex())), hx(p.block(8)))
        a = s.mk('i_iter', t)
        for q in (n - 1, n, n + 1):
            x = s.mk('i_walk', a, q)
            for g in ('i_val', 'i_last', 'i_size'):
                s.op(g, x)
        o.add('far', s)
        if not ctr and n <= 70000:       # a stream of just so many words or blocks
            for words in (n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1):
                s = Sc()
                a = s.mk('i_iter', s.mk('t_mem', rep_(p.bytes(8), words)))
                total = (words + 1) // 2
                for q in {max(0, total - 2), total - 1}:
                    x = s.mk('i_walk', a, q) if q else a
                    for g in ('i_val', 'i_last', 'i_size'):
                        s.op(g, x)
                    s.mk('i_next', x)
                o.add('size', s)


def aim_C16(c, o, f):
    p = c.p
    bulks(c, o, f, ('t_ctr',))
    iters(c, o, f, True)
    for _ in range(6):
        s = Sc()
        e = s.mk('t_ctr', s.mk('t_mem', hx(p.msg(48))), s.mk('qk_str', htext(p.keyhex())), hx(p.odd(64).to_bytes(8, 'little')))
        h = s.mk('i_iter', e)
        for _ in range(3):
            s.op('i_val', h)
            h = s.mk('i_next', h)
        o.add('aim', s)


def aim_C17(c, o, f):
    iters(c, o, f, False)


def aim_C19(c, o, f):
    p = c.p
    if f <= 3000:
        s = Sc()
        d = s.mk('kd_cache', s.mk('kd_env', 1, wlist([p.word() for _ in range(8)])))
        for i in range(f + 3):
            s.op('kd_use', d, p.r.randrange(8))
        q = s.mk('qb_cache', s.mk('qb_env', 1, hx(p.block(16))))
        for i in range(f + 3):
            s.op('qb_val', q)
        o.add('count', s)


def aim_C22(c, o, f):
    pipes(c, o, f, ['cfb89', 'cfb', 'ecb'], True, True)
    aim_C13(c, o, f)
    aim_C14(c, o, f)
    bulks(c, o, f, ('t_mac',))
    kmac(c, o, f, 200000)
    iters(c, o, f, True)
