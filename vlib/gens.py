"""Scenario generators, one per property: gen_Cxx(ctx) -> [(id, script lines)]."""
from .scen import *
from . import tlc


class Ctx:
    def __init__(self, tmp, seed, tier, tag):
        self.tmp, self.seed, self.tier, self.tag = tmp, seed, tier, tag
        self.p = Pool(seed, tag)
        self.exe = None
        self.gen_states = self.gen_trans = 0
        self.gen_shapes = 0

    def n(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough if thorough is not None else quick * 6)

    def ask(self, s, op):
        """run a script on the real code now; the results of its operations `op`, as bytes"""
        from . import drive
        import json
        r, n = drive.run(self.exe, self.tmp, self.tag + 'ask', [('ask', s.l)])
        ev = [json.loads(x) for x in r['ask']]
        out = [bytes(e['out']) for e in ev if e['op'] == op and 'out' in e]
        want = sum(1 for l in s.l if l.startswith(op + ' '))
        return out + [bytes(16)] * (want - len(out))

    def shapes(self, kind, depth, sizes, total=0):
        o, r = tlc.shapes(self.tmp, kind, depth, sizes, total)
        self.gen_states += r['distinct']
        self.gen_trans += r['states']
        self.gen_shapes += len(o)
        return o


class Out(list):
    def add(self, name, s):
        self.append(('%s.%d' % (name, len(self)), s.l))


# ---------------------------------------------------------------- C01 C02
def gen_C01(c):
    p, o = c.p, Out()
    for i in range(c.n(260)):
        s = Sc()
        k = mkey(s, p, ['str', 'strsb', 'nat', 'cache', 'env', 'kdstr', 'toy'][i % 7])
        e = s.mk('eb_new', k)
        for _ in range(4):
            b = p.block()
            raw = s.mk('b_raw', p.r.choice(['lh', 'u64', 'vec', 'ptr', 'pair']), hx(b))
            x = s.mk('b_enc', raw, k)
            s.op('b_val', x)
            s.op('eb_use', e, hx(b))
        s.op('b_val', x)
        s.op('b_val', raw)
        s.op('eb_use', e, hx(b))
        o.add('enc', s)
    # round function with every key index, and degenerate tables so that inner halves stay at corner values
    for i in range(c.n(60)):
        s = Sc()
        sb = sbox(s, p, ['con', 'toy', 'nib', 'byte'][i % 4])
        kh = ''.join('%08x' % p.r.choice([0, 0, 1, 0xffffffff, 0x80000000, p.word()]) for _ in range(8))
        k = mkey(s, p, p.r.choice(['strsb', 'nat', 'cache']), kh, sb)
        for j in range(8):
            s.op('k_use', k, '%08x' % p.word(), j)
        for b in (bytes(8), b'\xff' * 8, p.block(), p.block()):
            x = s.mk('b_enc', s.mk('b_raw', 'u64', hx(b)), k)
            s.op('b_val', x)
            s.op('eb_use', s.mk('eb_new', k), hx(b))
        o.add('deg', s)
    # every single-bit plaintext and key difference from zero
    s = None
    for bit in range(64):
        if bit % 8 == 0:
            if s:
                o.add('bit', s)
            s = Sc()
            k = mkey(s, p, 'str')
            e = s.mk('eb_new', k)
        b = (1 << bit).to_bytes(8, 'little')
        s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'lh', hx(b)), k))
        s.op('eb_use', e, hx(b))
    o.add('bit', s)
    for bit in range(0, 256, 1 if c.tier == 'thorough' else 4):
        s = Sc()
        k = s.mk('k_str', htext('%064x' % (1 << bit)))
        b = p.block()
        s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'lh', hx(b)), k))
        s.op('eb_use', s.mk('eb_new', k), hx(b))
        o.add('kbit', s)
    return o


def gen_C02(c):
    p, o = c.p, Out()
    for i in range(c.n(220)):
        s = Sc()
        k = mkey(s, p, ['str', 'strsb', 'nat', 'cache', 'env', 'toy'][i % 6])
        for _ in range(3):
            raw = s.mk('b_raw', 'lh', hx(p.block()))
            e = s.mk('b_enc', raw, k)
            d = s.mk('b_dec', e, k)
            s.op('b_val', d)
            s.op('b_val', e)
            d2 = s.mk('b_dec', raw, k)
            s.op('b_val', d2)
            s.op('b_val', s.mk('b_enc', d2, k))
        # half transforms in both directions undo each other up to the swap
        f = s.mk('b_fwd', raw, k)
        s.op('b_val', f)
        g = s.mk('b_bwd', raw, k)
        s.op('b_val', g)
        s.op('b_val', s.mk('b_swap', s.mk('b_bwd', s.mk('b_swap', f), k)))
        s.op('b_val', s.mk('b_fwd', g, k))
        o.add('dec', s)
    for i in range(c.n(40)):
        s = Sc()
        sb = sbox(s, p, ['con', 'toy', 'byte', 'nib'][i % 4])
        k = mkey(s, p, 'nat', None, sb)
        for b in (bytes(8), b'\xff' * 8, p.block()):
            raw = s.mk('b_raw', 'u64', hx(b))
            s.op('b_val', s.mk('b_dec', raw, k))
            s.op('b_val', s.mk('b_dec', s.mk('b_enc', raw, k), k))
        o.add('deg', s)
    for bit in range(0, 64):
        s = Sc()
        k = mkey(s, p, 'str')
        raw = s.mk('b_raw', 'u64', hx((1 << bit).to_bytes(8, 'little')))
        s.op('b_val', s.mk('b_dec', raw, k))
        s.op('b_val', s.mk('b_dec', s.mk('b_enc', raw, k), k))
        o.add('bit', s)
    return o


# ---------------------------------------------------------------- C03
def gen_C03(c):
    p, o = c.p, Out()
    for i in range(c.n(50)):
        s = Sc()
        pi = p.pi() if i else bytes(list(range(16)) * 8)
        a = s.mk('sb_nib', hx(pi))
        b = s.mk('sb_byte', hx(pack(pi)))
        ta, tb = s.mk('sb_tw', a), s.mk('sb_tw', b)
        r = s.mk('sb_r3412')
        u = s.mk('sb_byte', hx(p.bytes(64)))
        tt = s.mk('sb_tw', ta)
        ws = [p.word() for _ in range(8)] + [0, 0xffffffff, sum((i % 16) << (4 * j) for j in range(8))]
        ws += [sum(((i + j + t) % 16) << (4 * j) for j in range(8)) for t in range(4)]
        for w in ws:
            for h in (a, b, ta, tb, r, u, tt):
                s.op('sb_use', h, '%08x' % w)
        o.add('tab', s)
    # every entry of every table of the built-in box, alone and with the others at each extreme
    for n in range(8):
        s = Sc()
        r = s.mk('sb_r3412')
        pi = p.pi()
        a, b = s.mk('sb_nib', hx(pi)), s.mk('sb_byte', hx(pack(pi)))
        for x in range(16):
            for base in (0, 0xffffffff, p.r.getrandbits(32)):
                w = (base & ~(15 << (4 * n))) | (x << (4 * n))
                for h in (r, a, b):
                    s.op('sb_use', h, '%08x' % w)
        o.add('entry', s)
    # the rotation alone: every bit
    s = Sc()
    t = s.mk('sb_tw', s.mk('sb_toy', '00000000'))
    for bit in range(32):
        s.op('sb_use', t, '%08x' % (1 << bit))
    for w in Pool.CORNER32:
        s.op('sb_use', t, '%08x' % w)
    o.add('rot', s)
    # the caller's own byte tables: every entry; boxes of boxes, which own one another
    for i in range(c.n(6)):
        s = Sc()
        b = s.mk('sb_tabs', hx(tabs(p)))
        b = b if i % 2 else s.mk('sb_tw', b)
        xs = [p.r.sample(range(256), 256) for _ in range(4)]
        for n in range(256):
            s.op('sb_use', b, '%08x' % sum(xs[j][n] << (8 * j) for j in range(4)))
        o.add('tabs', s)
    for i in range(c.n(24)):
        s = Sc()
        h = [[lambda: s.mk('sb_nib', hx(p.pi())), lambda: s.mk('sb_byte', hx(p.bytes(64))), lambda: s.mk('sb_r3412'),
              lambda: s.mk('sb_tabs', hx(tabs(p))), lambda: s.mk('sb_toy', '%08x' % p.word()),
              lambda: s.mk('sb_con', '%08x' % p.word())][i % 6]()]
        for _ in range(p.r.randrange(1, 5)):
            h.append(s.mk('sb_tw', h[-1]))
        for w in p.r.sample(Pool.CORNER32, 4) + [p.word() for _ in range(6)]:
            for x in p.r.sample(h, len(h)):
                s.op('sb_use', x, '%08x' % w)
        o.add('boxes', s)
    for i in range(c.n(60)):
        s = Sc()
        h = [s.mk('sb_r3412'), s.mk('sb_tw', s.mk('sb_byte', hx(p.bytes(64))))]
        for _ in range(40):
            w = p.r.getrandbits(32)
            for x in h:
                s.op('sb_use', x, '%08x' % w)
        o.add('rand', s)
    return o


# ---------------------------------------------------------------- C04
def gen_C04(c):
    p, o = c.p, Out()
    for i in range(c.n(70)):
        s = Sc()
        kh = p.keyhex().lower()
        w = words_of(kh)
        sb = sbox(s, p, p.r.choice(['r3412', 'nib', 'byte', 'toy']))
        txt = [kh, kh.upper(), ''.join(p.r.choice([x, x.upper()]) for x in kh)]
        kds = [s.mk('kd_str', htext(t)) for t in txt] + [s.mk('kd_nat', wlist(w)), s.mk('kd_env', 0, wlist(w))]
        kds += [s.mk('kd_cache', d) for d in kds[2:]]
        kds.append(s.mk('kd_cache', kds[-1]))
        for d in kds:
            for j in p.r.sample(range(8), 8):
                s.op('kd_use', d, j)
        keys = [s.mk('k_kd', d, sb) for d in kds] + [s.mk('k_strsb', htext(t), sb) for t in txt] + [s.mk('k_nat', sb, wlist(w))]
        b = s.mk('b_raw', 'u64', hx(p.block()))
        for k in keys:
            s.op('k_use', k, '%08x' % p.word(), p.r.randrange(8))
        for k in p.r.sample(keys, 5):
            s.op('b_val', s.mk('b_enc', b, k))
        o.add('forms', s)
    # built-in table by default
    for i in range(c.n(20)):
        s = Sc()
        kh = p.keyhex()
        b = s.mk('b_raw', 'u64', hx(p.block()))
        for k in (s.mk('k_str', htext(kh)), s.mk('k_strsb', htext(kh), s.mk('sb_r3412')), s.mk('k_nat', s.mk('sb_r3412'), wlist(words_of(kh)))):
            s.op('b_val', s.mk('b_enc', b, k))
        o.add('dflt', s)
    # container
    for i in range(c.n(40)):
        s = Sc()
        kh, u = p.keyhex(), p.bytes(64)
        ct = s.mk('cont', bytes.fromhex(kh).hex(), hx(p.bytes(32)), hx(u))
        d = p.msg(p.r.choice([8, 16, 24]))
        a = s.mk('c_ecbc', src(s, d, frags(p)), ct)
        b = s.mk('c_ecb', src(s, d, []), s.mk('k_strsb', htext(kh), s.mk('sb_tw', s.mk('sb_byte', hx(u)))))
        for h in (a, b):
            x = h
            for _ in range(len(d) // 8 + 1):
                x = s.read(x, 8)
        o.add('cont', s)
    # any key object in every mode that takes one
    for i in range(c.n(40)):
        s = Sc()
        k = mkey(s, p, ['toy', 'env', 'nat', 'cache'][i % 4])
        b = s.mk('b_raw', 'u64', hx(p.block()))
        for f in ('b_enc', 'b_dec', 'b_fwd', 'b_bwd'):
            s.op('b_val', s.mk(f, b, k))
        s.op('eb_use', s.mk('eb_new', k), hx(p.block()))
        for kind in ('cfb89', 'cfb', 'ecb', 'ecb89'):
            m = s.mk('s_mem')
            x, iv = layer(s, p, kind, m, k)
            s.fin(s.write(x, p.msg(16 if 'ecb' in kind else 19)))
            y, iv = unlayer(s, p, kind, src(s, p.msg(16 if 'ecb' in kind else 19), frags(p)), k)
            y = s.read(y, 8)
            y = s.read(y, 16)
            s.read(y, 16)
        o.add('any', s)
    # Kuznyechik
    for i in range(c.n(40)):
        s = Sc()
        kh = p.keyhex()
        b = s.mk('qb_raw', 'lh', hx(p.block(16)))
        for kind in ('str', 'data', 'qd', 'data'):
            s.op('qb_val', s.mk('qb_enc', b, qkey(s, p, kind, p.r.choice([kh, kh.upper(), kh.lower()]))))
        d = s.mk('qd_str', htext(kh))
        s.op('qb_val', s.mk('qd_low', d))
        s.op('qb_val', s.mk('qd_high', d))
        o.add('kuz', s)
    return o


# ---------------------------------------------------------------- C05
BADCH = ['g', 'G', 'z', ' ', '-', '+', 'x', 'X', '.', '/', ':', '@', '`', '\n', '\t', '\0', '\x80', '\xff', '_', 'h', 'O', 'l', ',']


def gen_C05(c):
    p, o = c.p, Out()

    def use_text(s, t):
        how = p.r.randrange(7)
        b = s.mk('b_raw', 'u64', hx(p.block()))
        q = s.mk('qb_raw', 'lh', hx(p.block(16)))
        if how == 0:
            s.op('b_val', s.mk('b_enc', b, s.mk('k_str', htext(t))))
        elif how == 1:
            d = s.mk('kd_str', htext(t))
            for j in p.r.sample(range(8), 8):
                s.op('kd_use', d, j)
        elif how == 2:
            d = s.mk('kd_cache', s.mk('kd_str', htext(t)))
            for j in p.r.sample(range(8), 3):
                s.op('kd_use', d, j)
        elif how == 3:
            s.op('b_val', s.mk('b_dec', b, s.mk('k_strsb', htext(t), sbox(s, p))))
        elif how == 4:
            s.op('qb_val', s.mk('qb_enc', q, s.mk('qk_str', htext(t))))
        elif how == 5:
            d = s.mk('qd_str', htext(t))
            s.op('qb_val', s.mk('qb_enc', q, s.mk('qk_qd', d)))
        else:
            k = s.mk('k_str', htext(t))
            kind = p.r.choice(['cfb89', 'cfb', 'ecb'])
            x, _ = layer(s, p, kind, s.mk('s_mem'), k)
            s.write(x, p.msg(8))
            y, _ = unlayer(s, p, kind, src(s, p.msg(8), []), k)
            s.read(y, 8)
            s.op('mac', src(s, p.msg(8), []), k)

    # wrong lengths
    for n in list(range(0, 67)) + [70, 72, 80, 96, 127, 128, 129, 256]:
        if n == 64:
            continue
        s = Sc()
        t = (p.keyhex() * 5)[:n]
        for how in range(2):
            use_text(s, t)
        d = s.mk('kd_str', htext(t))
        s.op('kd_use', d, p.r.randrange(8))
        s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'zero', '0' * 32), s.mk('qk_str', htext(t))))
        o.add('len', s)
    # one wrong character at every position, for every reader of text
    for pos in range(64):
        s = Sc()
        for ch in p.pick(BADCH, c.n(3, len(BADCH))) + [p.r.choice(' -+xX')]:
            t = list(p.keyhex())
            t[pos] = ch
            t = ''.join(t)
            d = s.mk('kd_str', htext(t))
            s.op('kd_use', d, pos // 8)
            s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'zero', '0' * 16), s.mk('k_str', htext(t))))
            s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'zero', '0' * 32), s.mk('qk_str', htext(t))))
        o.add('chr', s)
    # things number parsers tend to swallow
    for t in ['0x' + 'ab' * 31, ' ' + 'a' * 63, 'a' * 63 + ' ', 'a' * 63 + '\0', '-' + '1' * 63, '+' + '1' * 63, 'a' * 31 + ' ' + 'b' * 32,
              'a' * 32 + '0x' + 'b' * 30, 'a' * 32 + '-' + 'b' * 31, 'a' * 16 + ' ' + 'b' * 47, 'a' * 8 + '+' + 'b' * 55,
              'a' * 8 + '0x' + 'b' * 54, ' ' * 64, 'g' * 64, '\0' * 64, 'a' * 16 + 'zzzzzzzz' + 'a' * 40, 'a' * 62 + '.0', 'a' * 60 + '1e10',
              'a' * 48 + ' ' * 16, 'a' * 56 + ' ' * 7 + 'a', '0' * 63 + 'h', '1,' * 32, 'ab ' * 21 + 'a']:
        for _ in range(2):
            s = Sc()
            use_text(s, t)
            use_text(s, t)
            d = s.mk('kd_str', htext(t))
            for j in range(8):
                s.op('kd_use', d, j)
            q = s.mk('qd_str', htext(t))
            k = s.mk('qk_str', htext(t))
            s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'zero', '0' * 32), k))
            o.add('odd', s)
    # block text
    for n in range(0, 40):
        s = Sc()
        t = (p.keyhex())[:n]
        s.op('b_val', s.mk('b_str', htext(t)))
        s.op('qb_val', s.mk('qb_str', htext(t)))
        s.op('b_val', s.mk('b_swap', s.mk('b_str', htext(t))))
        s.op('qb_val', s.mk('qb_inc', s.mk('qb_str', htext(t))))
        o.add('btxt', s)
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33):
        for pos in range(n):
            s = Sc()
            for ch in p.pick(BADCH, 2) + [p.r.choice(' -+xX\0')]:
                t = list(p.keyhex()[:n])
                t[pos] = ch
                s.op('b_val', s.mk('b_str', htext(''.join(t))))
                s.op('qb_val', s.mk('qb_str', htext(''.join(t))))
            o.add('bchr', s)
    for t in ['0x1', '0X12', ' 1', '1 ', '-1', '+1', '0x', '1g', 'g1', '1\0', '0x12345678', '0x1234567812345678', '12345678 2345678',
              '        12345678', '-2345678-2345678', '1' * 15 + ' ', '1' * 17, '1' * 33, '0' * 17, '0' * 33, '0' * 16 + '1', '0' * 32 + '1', '1' + '0' * 16,
              '1234567g12345678', '123456781234567g', '0x345678', '1.', '1e5', '', '0']:
        s = Sc()
        b = s.mk('b_str', htext(t))
        s.op('b_val', b)
        s.op('b_val', s.mk('b_xor', 2, b, s.mk('b_raw', 'zero', '0' * 16)))
        q = s.mk('qb_str', htext(t))
        s.op('qb_val', q)
        s.op('qb_val', s.mk('qb_xor', 2, q, s.mk('qb_raw', 'zero', '0' * 32)))
        o.add('bodd', s)
    # word keys
    for n in [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 16, 24]:
        s = Sc()
        w = [p.word() for _ in range(n)]
        d = s.mk('kd_nat', wlist(w))
        for j in p.r.sample(range(8), 8):
            s.op('kd_use', d, j)
        k = s.mk('k_nat', sbox(s, p), wlist(w))
        s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'u64', hx(p.block())), k))
        s.op('eb_use', s.mk('eb_new', k), hx(p.block()))
        x, _ = layer(s, p, 'cfb', s.mk('s_mem'), k)
        s.fin(s.write(x, p.msg(3)))
        o.add('nat', s)
    # containers
    for kl, sl in [(k, 64) for k in (0, 1, 4, 8, 16, 28, 31, 33, 36, 40, 64, 100)] + [(32, k) for k in (0, 1, 16, 32, 60, 63, 65, 68, 128, 200)] + [(0, 0), (31, 63), (33, 65), (64, 32)]:
        s = Sc()
        ct = s.mk('cont', hx(p.bytes(kl)), hx(p.bytes(32)), hx(p.bytes(sl)))
        y = s.mk('c_ecbc', src(s, p.msg(16), []), ct)
        y = s.read(y, 8)
        o.add('cont', s)
    return o


# ---------------------------------------------------------------- C06 C07
def gen_C06(c):
    p, o = c.p, Out()
    for i in range(c.n(100)):
        s = Sc()
        ks = [qkey(s, p) for _ in range(p.r.choice([1, 1, 2]))]
        bl = [s.mk('qb_raw', p.r.choice(['lh', 'pair', 'ptr', 'blk']), hx(p.block(16))) for _ in range(3)]
        xs = []
        for j in range(5):
            k, b = p.r.choice(ks), p.r.choice(bl)
            x = s.mk(p.r.choice(['qb_enc', 'qb_kenc']), b, k)
            xs.append(x)
            s.op('qb_val', x)
        for x in p.r.sample(xs, 3):
            s.op('qb_val', x)
        s.op('qb_val', s.mk('qb_enc', xs[-1], ks[0]))
        o.add('enc', s)
    for bit in range(0, 128, c.n(2, 1)):
        s = Sc()
        k = qkey(s, p, 'str', '%064x' % (1 << (2 * bit + p.r.randrange(2))))
        s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'lh', hx((1 << bit).to_bytes(16, 'little'))), k))
        s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'lh', hx(p.block(16))), k))
        o.add('bit', s)
    # values created before any use, asked later in another order, and after the key handle is gone
    for i in range(c.n(30)):
        s = Sc()
        k = qkey(s, p)
        xs = [s.mk('qb_kenc' if j % 2 else 'qb_enc', s.mk('qb_raw', 'lh', hx(p.block(16))), k) for j in range(4)]
        if i % 2:
            s.op('drop', k)
        for x in p.r.sample(xs, 4) + xs[:2]:
            s.op('qb_val', x)
        o.add('order', s)
    return o


def gen_C07(c):
    p, o = c.p, Out()
    # S: every byte value at every position
    for v in range(0, 256, 8):
        s = Sc()
        for w in range(v, v + 8):
            b = bytes((w + 17 * j) % 256 for j in range(16))
            s.op('qb_val', s.mk('qb_s', s.mk('qb_raw', 'lh', hx(b))))
        o.add('S', s)
    # R: every byte value at every position (linear in each byte), L on the basis
    for pos in range(16):
        for v0 in range(0, 256, 64):
            s = Sc()
            base = bytes(16) if v0 % 128 == 0 else p.bytes(16)
            for v in range(v0, v0 + 64):
                b = bytearray(base)
                b[pos] = v
                s.op('qb_val', s.mk('qb_r', s.mk('qb_raw', 'lh', hx(b))))
            o.add('R', s)
    for bit in range(128):
        if bit % 8 == 0:
            s = Sc()
        s.op('qb_val', s.mk('qb_l', s.mk('qb_raw', 'lh', hx((1 << bit).to_bytes(16, 'little')))))
        if bit % 8 == 7:
            o.add('L', s)
    for i in range(c.n(60)):
        s = Sc()
        b = s.mk('qb_raw', p.r.choice(['lh', 'ptr']), hx(p.block(16)))
        for f in ('qb_s', 'qb_r', 'qb_l'):
            x = s.mk(f, b)
            s.op('qb_val', x)
            s.op('qb_val', s.mk(p.r.choice(['qb_s', 'qb_r', 'qb_l']), x))
            s.op('qb_val', x)
        s.op('qb_val', b)
        o.add('mix', s)
    # ranges of round constants (the cost of evaluating one grows exponentially with its length)
    pairs = [(a, b) for a in range(1, 33) for b in range(a - 1, min(33, a + 12))]
    p.r.shuffle(pairs)
    for i in range(0, len(pairs), 4):
        s = Sc()
        ka, kb = [s.mk('qb_raw', 'lh', hx(p.block(16))) for _ in range(2)]
        for c1, c2 in pairs[i:i + 4]:
            if c2 >= 1:
                s.op('qb_val', s.mk('qb_iter', ka, kb, c1, c2))
        o.add('iter', s)
    return o


# ---------------------------------------------------------------- C08
def gen_C08(c):
    p, o = c.p, Out()
    for n in range(0, 64):
        s = Sc()
        for b in [b'\xff' * 8, p.bytes(8), p.block(), bytes.fromhex('0100000000000080')]:
            h = s.mk('b_raw', 'u64', hx(b))
            x = s.mk('b_shl', h, n)
            s.op('b_val', x)
            s.op('b_val', s.mk('b_shl', x, p.r.randrange(64)))
        o.add('shl', s)
    for n in range(0, 128):
        s = Sc()
        for b in [b'\xff' * 16, p.bytes(16), p.block(16)]:
            h = s.mk('qb_raw', 'lh', hx(b))
            x = s.mk('qb_shl', h, n)
            s.op('qb_val', x)
            s.op('qb_val', s.mk('qb_shl', x, p.r.randrange(128)))
        o.add('qshl', s)
    # increments: every carry length
    for n in range(0, 129):
        s = Sc()
        v = (1 << n) - 1
        for w in (v, v ^ (1 << 127), (v | (p.r.getrandbits(128) << (n + 1))) & ((1 << 128) - 1)):
            h = s.mk('qb_raw', 'lh', hx((w % (1 << 128)).to_bytes(16, 'little')))
            x = s.mk('qb_inc', h)
            s.op('qb_val', x)
            s.op('qb_val', s.mk('qb_inc', x))
        o.add('inc', s)
    for i in range(c.n(80)):
        s = Sc()
        bs = [p.block() for _ in range(5)]
        hs = [s.mk('b_raw', how, hx(b)) for how, b in zip(['lh', 'pair', 'blk', 'u64', 'vec'], bs)] + [s.mk('b_raw', 'ptr', hx(p.block())), s.mk('b_raw', 'zero', '0' * 16), s.mk('b_env', hx(p.block()))]
        t = p.block()[::-1].hex().lstrip('0')
        hs.append(s.mk('b_str', htext(p.r.choice([t, t.upper()]))))
        p.r.shuffle(hs)
        for h in hs:
            s.op('b_val', h)
        for n in (2, 3, 4, 5):
            x = s.mk('b_xor', n, *[p.r.choice(hs) for _ in range(n)])
            s.op('b_val', x)
            hs.append(x)
        x = s.mk('b_swap', p.r.choice(hs))
        s.op('b_val', x)
        s.op('b_val', s.mk('b_swap', x))
        x = s.mk('b_shl', x, p.r.randrange(64))
        s.op('b_val', x)
        o.add('m', s)
        s = Sc()
        hs = [s.mk('qb_raw', how, hx(p.block(16))) for how in ('lh', 'pair', 'blk', 'ptr')]
        hs += [s.mk('qb_raw', 'low', hx(p.block(8) + bytes(8))), s.mk('qb_raw', 'zero', '0' * 32), s.mk('qb_env', 0, hx(p.block(16)))]
        t = p.block(16)[::-1].hex().lstrip('0')
        hs.append(s.mk('qb_str', htext(p.r.choice([t, t.upper()]))))
        p.r.shuffle(hs)
        for h in hs:
            s.op('qb_val', h)
        for n in (2, 3, 4, 5):
            x = s.mk('qb_xor', n, *[p.r.choice(hs) for _ in range(n)])
            s.op('qb_val', x)
            hs.append(x)
        x = s.mk('qb_inc', s.mk('qb_shl', p.r.choice(hs), p.r.randrange(128)))
        s.op('qb_val', x)
        o.add('q', s)
    # the same number through every constructor
    for i in range(c.n(20)):
        s = Sc()
        b = p.block()
        for how in ('lh', 'pair', 'blk', 'u64', 'vec', 'ptr'):
            s.op('b_val', s.mk('b_raw', how, hx(b)))
        s.op('b_val', s.mk('b_str', htext(b[::-1].hex())))
        b = p.block(16)
        for how in ('lh', 'pair', 'blk', 'ptr'):
            s.op('qb_val', s.mk('qb_raw', how, hx(b)))
        s.op('qb_val', s.mk('qb_str', htext(b[::-1].hex())))
        o.add('ctor', s)
    # every length of text
    for n in range(1, 33):
        s = Sc()
        for _ in range(2):
            t = p.keyhex()[:n]
            if n <= 16:
                s.op('b_val', s.mk('b_str', htext(t)))
            s.op('qb_val', s.mk('qb_str', htext(t)))
        o.add('txt', s)
    return o


# ---------------------------------------------------------------- C09 .. C12
def pipe_key(s, p):
    return mkey(s, p, p.r.choice(['str', 'strsb', 'nat', 'toy', 'toy', 'cache']))


def replay_sink(s, p, top, shape):
    """replay a generated behaviour on sink handle `top`"""
    hs = [top]
    for h, n in shape:
        if n == 99:
            hs.append(s.fin(hs[h]))
        else:
            hs.append(s.write(hs[h], p.msg(n)))
    return hs


def gen_C09(c):
    p, o = c.p, Out()
    # all behaviours of length 2 over every size up to 17, then finalize everything
    sh = c.shapes('sink', 2, range(0, 18)) if c.tier == 'thorough' else c.shapes('sink', 2, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17])
    sh = [x for x in sh if c.tier == 'thorough' or x[1][0] == 1 or p.r.random() < .3]
    for x in sh:
        s = Sc()
        k = pipe_key(s, p)
        top, _ = layer(s, p, p.r.choice(['cfb89', 'cfb']), s.mk('s_mem'), k)
        hs = replay_sink(s, p, top, x)
        for h in hs[1:]:
            s.fin(h)
        o.add('two', s)
    for x in p.pick(c.shapes('sink', 3, [99, 0, 1, 7, 8, 9]), c.n(200, 1086)):
        s = Sc()
        k = pipe_key(s, p)
        top, _ = layer(s, p, p.r.choice(['cfb89', 'cfb']), s.mk('s_mem'), k)
        hs = replay_sink(s, p, top, x)
        for h, n in zip(hs[1:], x):
            if n[1] != 99:
                s.fin(h)
        o.add('tree', s)
    # byte by byte and random splittings of longer messages; all lengths in one write
    for i in range(c.n(40)):
        s = Sc()
        k = pipe_key(s, p)
        n = p.r.randrange(1, 60)
        m = p.msg(n)
        for kind in ('cfb89', 'cfb'):
            iv = (p.block(8), p.block(8))
            for sizes in ([1], [n], None):
                x, _ = layer(s, p, kind, s.mk('s_mem'), k, iv)
                at = 0
                for z in chunks(p, n, sizes):
                    x = s.write(x, m[at:at + z])
                    at += z
                s.fin(x)
        o.add('long', s)
    for n in sorted(set(list(range(0, 50)) + lit_pick(p, 50, 400, c.n(40, 400)))):
        s = Sc()
        k = mkey(s, p, 'toy')
        for kind in ('cfb89', 'cfb'):
            x, _ = layer(s, p, kind, s.mk('s_mem'), k)
            s.fin(s.write(x, p.msg(n)))
        o.add('len', s)
    # over another encrypting sink, and over a sink that already holds data
    for i in range(c.n(40)):
        s = Sc()
        x = s.mk('s_mem')
        for j in range(p.r.choice([2, 2, 3])):
            x, _ = layer(s, p, p.r.choice(['cfb89', 'cfb']), x, pipe_key(s, p))
            if p.r.random() < .4:
                x = s.write(x, p.msg(p.r.randrange(12)))
        for z in chunks(p, p.r.randrange(1, 30)):
            x = s.write(x, p.msg(z))
        x = s.fin(x)
        s.fin(x)
        o.add('nest', s)
    return o


def replay_read(s, p, top, shape):
    hs = [top]
    for h, n in shape:
        hs.append(s.read(hs[h], n))
    return hs


def gen_C10(c):
    p, o = c.p, Out()
    sh = c.shapes('read', 2, [0, 1, 3, 5, 7, 8, 9, 15, 16, 17], 24)
    for x in p.pick(sh, c.n(300, 1000)):
        s = Sc()
        k = pipe_key(s, p)
        n = p.r.randrange(0, 27)
        up = src(s, p.msg(n), frags(p))
        top, _ = unlayer(s, p, p.r.choice(['cfb89', 'cfb']), up, k)
        hs = replay_read(s, p, top, x)
        for h in hs:
            e = s.read(h, -1)
            s.read(e, p.r.choice([0, 1, 8, 20, -1]))
        o.add('two', s)
    # every length with every constant fragmentation
    for n in range(0, c.n(18, 34)):
        for f in ([], [1], [2], [3], [5], [7], [8], [9]):
            if c.tier == 'quick' and f in ([2], [7]) and n % 3:
                continue
            s = Sc()
            k = mkey(s, p, 'toy')
            m = p.msg(n)
            for kind in ('cfb89', 'cfb'):
                x, _ = unlayer(s, p, kind, src(s, m, f), k)
                step = p.r.choice([1, 3, 8, 8, 100])
                for _ in range(n // step + 1):
                    x = s.read(x, step)
                s.read(s.read(x, 1), 8)
            o.add('frag', s)
    for i in range(c.n(60)):
        s = Sc()
        k = pipe_key(s, p)
        n = p.r.randrange(1, 70)
        m = p.msg(n)
        x, _ = unlayer(s, p, p.r.choice(['cfb89', 'cfb']), src(s, m, frags(p)), k)
        if p.r.random() < .4:
            x, _ = unlayer(s, p, p.r.choice(['cfb89', 'cfb']), x, pipe_key(s, p))
        if p.r.random() < .3:
            s.read(x, -1)
        for z in chunks(p, n) + [5, 0, 8]:
            x = s.read(x, z)
        s.read(x, -1)
        o.add('long', s)
    for n in lit_pick(p, 30, 400, c.n(40, 400)):
        s = Sc()
        k = mkey(s, p, 'toy')
        x, _ = unlayer(s, p, p.r.choice(['cfb89', 'cfb']), src(s, p.msg(n), []), k)
        s.read(s.read(x, -1), 8)
        s.read(s.read(x, n - 1), 2)
        o.add('len', s)
    return o


def gen_C11(c):
    """messages through pipelines of sinks; the driver feeds the ciphertext back (c_from)"""
    p, o = c.p, Out()
    for i in range(c.n(200)):
        s = Sc()
        depth = p.r.choice([1, 1, 2, 2, 3])
        kinds = [p.r.choice(['cfb89', 'cfb', 'ecb', 'ecb89']) for _ in range(depth)]
        if i < 16:
            kinds = [['cfb89', 'cfb', 'ecb', 'ecb89'][i % 4]]
        n = p.r.randrange(0, 50)
        if any('ecb' in k for k in kinds):
            n = n // 8 * 8
        m = p.msg(n)
        keys = [pipe_key(s, p) for _ in kinds]
        ivs = []
        x = s.mk('s_mem')
        for kind, k in zip(kinds, keys):
            x, iv = layer(s, p, kind, x, k)
            ivs.append(iv)
        at = 0
        for z in chunks(p, n, [8, 16, 24, 40, 0] if 'ecb' in kinds[-1] else None):
            x = s.write(x, m[at:at + z])
            at += z
        for _ in kinds:
            x = s.fin(x)
        fr = frags(p)
        y = s.mk('c_from', x, ' '.join([str(len(fr))] + [str(f) for f in fr]))
        # the bottom layer encrypted last, so it is undone first
        for kind, k, iv in zip(kinds, keys, ivs):
            y, _ = unlayer(s, p, kind, y, k, iv)
        h = y
        for z in (chunks(p, n, [8, 16, 24, 9] if 'ecb' in kinds[-1] else None) + [16, 8]):
            h = s.read(h, max(z, 8) if 'ecb' in kinds[-1] else z)
        s.op('same', y, hx(m))
        o.add('trip', s)
    # cross reading: each standard's source on the other's ciphertext
    for i in range(c.n(20)):
        s = Sc()
        k = pipe_key(s, p)
        a, b = p.r.choice([('cfb89', 'cfb'), ('cfb', 'cfb89'), ('cfb', 'ecb'), ('cfb89', 'ecb'), ('ecb', 'cfb'), ('ecb', 'cfb89')])
        m = p.msg(32)
        x, iv = layer(s, p, a, s.mk('s_mem'), k)
        x = s.fin(s.write(x, m))
        y = s.mk('c_from', x, '0')
        y, _ = unlayer(s, p, b, y, k, iv)
        for _ in range(4):
            y = s.read(y, 8)
        o.add('cross', s)
    return o


def gen_C12(c):
    p, o = c.p, Out()
    # writes: every size up to 33, after any earlier write
    sh = c.shapes('sink', 2, [0, 1, 4, 7, 8, 9, 15, 16, 17, 23, 24])
    for x in p.pick(sh, c.n(200, 1000)):
        s = Sc()
        k = pipe_key(s, p)
        top, _ = layer(s, p, p.r.choice(['ecb', 'ecb89']), s.mk('s_mem'), k)
        hs = replay_sink(s, p, top, x)
        for h in hs:
            s.fin(s.write(h, p.msg(8)))
        s.fin(top)
        o.add('w', s)
    for n in range(0, 42):
        s = Sc()
        k = mkey(s, p, 'toy')
        top, _ = layer(s, p, p.r.choice(['ecb', 'ecb89']), s.mk('s_mem'), k)
        s.fin(s.write(top, p.msg(n)))
        s.fin(top)
        o.add('wl', s)
    for i in range(c.n(30)):
        s = Sc()
        k = pipe_key(s, p)
        m = p.msg(p.r.choice([8, 16, 32, 48]))
        for sizes in ([8], [16], [len(m)], [8, 16, 24, 0]):
            x, _ = layer(s, p, 'ecb', s.mk('s_mem'), k)
            at = 0
            for z in chunks(p, len(m), sizes):
                x = s.write(x, m[at:at + z])
                at += z
            s.fin(x)
        o.add('split', s)
    # reads: every length of data, every read size, every fragmentation
    for n in range(0, c.n(27, 42)):
        for f in ([], [1], [3], [7], [8], [5, 3]):
            s = Sc()
            k = mkey(s, p, 'toy' if n % 2 else 'str')
            x, _ = unlayer(s, p, p.r.choice(['ecb', 'ecb89']), src(s, p.msg(n), f), k)
            s.read(x, p.r.randrange(0, 8))
            h = x
            for _ in range(n // 8 + 2):
                h = s.read(h, p.r.choice([8, 8, 9, 12, 15, 16, 17, 24, 100, -1]))
            h = x
            for _ in range(n // 8 + 1):
                h = s.read(h, 8)
            s.read(h, p.r.randrange(0, 8))
            o.add('r', s)
    for n in range(0, 8):
        s = Sc()
        k = mkey(s, p, 'str')
        x, _ = unlayer(s, p, 'ecb', src(s, p.msg(16), []), k)
        s.read(x, n)
        y = s.read(x, 8)
        s.read(y, n)
        s.read(x, 8)
        o.add('small', s)
    # over a decrypting source, and through a container
    for i in range(c.n(40)):
        s = Sc()
        k = pipe_key(s, p)
        n = p.r.randrange(0, 34)
        u, _ = unlayer(s, p, p.r.choice(['cfb', 'cfb89', 'ecb']), src(s, p.msg(n), frags(p)), k)
        if i % 2:
            x, _ = unlayer(s, p, 'ecb', u, pipe_key(s, p))
        else:
            x = s.mk('c_ecbc', u, s.mk('cont', hx(p.bytes(32)), hx(p.bytes(32)), hx(p.bytes(64))))
        h = x
        for _ in range(n // 8 + 2):
            h = s.read(h, p.r.choice([8, 8, 16, 11]))
        o.add('nest', s)
    # CFB over a misaligned ECB end: the failure comes through
    for i in range(c.n(20)):
        s = Sc()
        n = p.r.randrange(1, 26)
        u, _ = unlayer(s, p, 'ecb', src(s, p.msg(n), frags(p)), pipe_key(s, p))
        x, _ = unlayer(s, p, p.r.choice(['cfb', 'cfb89']), u, pipe_key(s, p))
        s.read(x, n // 8 * 8)
        s.read(x, -1)
        h = x
        for z in (5, 8, 13):
            h = s.read(h, z)
        s.op('mac', u, mkey(s, p, 'str'))
        # sinks: CFB tail refused by ECB
        y, _ = layer(s, p, 'ecb', s.mk('s_mem'), pipe_key(s, p))
        z, _ = layer(s, p, 'cfb', y, pipe_key(s, p))
        w = s.write(z, p.msg(n))
        f = s.fin(w)
        w = s.write(w, p.msg(8 - n % 8))
        s.fin(s.fin(w))
        o.add('err', s)
    return o


# ---------------------------------------------------------------- C13 C14 C15
def gen_C13(c):
    p, o = c.p, Out()
    for n in range(0, c.n(42, 80)):
        for f in ([], [1], [3], [7], [8], [5, 3, 9]):
            if c.tier == 'quick' and n > 26 and f != []:
                continue
            s = Sc()
            k = mkey(s, p, p.r.choice(LAZY))
            x = src(s, p.msg(n), f)
            s.op('mac', x, k)
            if p.r.random() < .3:
                b = s.mk('b_mac', x, k)
                s.op('b_val', b)
                s.op('b_val', b)
            o.add('len', s)
    # both branches of the doubling, in both derived keys: a table that makes the cipher an affine map
    for i in range(c.n(60)):
        s = Sc()
        sb = sbox(s, p, p.r.choice(['con', 'toy']))
        k = mkey(s, p, 'nat', None, sb)
        s.op('mac', src(s, p.msg(p.r.choice([0, 1, 7, 8, 9, 16, 23, 24])), frags(p)), k)
        o.add('dbl', s)
    for i in range(c.n(60)):
        s = Sc()
        k = mkey(s, p, p.r.choice(LAZY))
        s.op('mac', src(s, p.msg(p.r.choice([0, 1, 5, 7, 8, 8, 12, 16])), []), k)
        o.add('key', s)
    # over decrypting sources
    for i in range(c.n(40)):
        s = Sc()
        k = mkey(s, p, p.r.choice(LAZY))
        kind = p.r.choice(['cfb', 'cfb89', 'ecb'])
        n = p.r.randrange(0, 40)
        if kind == 'ecb' and p.r.random() < .8:
            n = n // 8 * 8
        x, _ = unlayer(s, p, kind, src(s, p.msg(n), frags(p)), pipe_key(s, p))
        if p.r.random() < .5 and n >= 8:
            x = s.read(x, 8)
        s.op('mac', x, k)
        s.op('mac', x, k)
        o.add('nest', s)
    for n in lit_pick(p, 42, 500, c.n(30, 500)):
        s = Sc()
        k = mkey(s, p, 'nat', None, sbox(s, p, 'con'))
        s.op('mac', src(s, p.msg(n), []), k)
        o.add('lit', s)
    return o


def gen_C14(c):
    p, o = c.p, Out()
    for n in range(0, c.n(60, 120)):
        for _ in range(2):
            s = Sc()
            k = mkey(s, p, p.r.choice(LAZY))
            d = s.mk('di_new', k, hx(p.msg(n)))
            s.op('di_val', d)
            s.op('di_val', d)
            o.add('len', s)
    for i in range(c.n(80)):
        s = Sc()
        k = mkey(s, p, p.r.choice(LAZY))
        for _ in range(3):
            s.op('b_val', s.mk('b_imit', s.mk('b_raw', 'u64', hx(p.block())), k))
        s.op('di_val', s.mk('di_new', k, hx(p.msg(p.r.choice([8, 16, 24])))))
        o.add('blk', s)
    # trailing zeros are part of the message only up to the block
    for i in range(c.n(30)):
        s = Sc()
        k = mkey(s, p, 'str')
        m = p.msg(p.r.randrange(0, 24))
        for z in (0, 1, 8, 16):
            s.op('di_val', s.mk('di_new', k, hx(m + bytes(z))))
        o.add('zero', s)
    for n in lit_pick(p, 60, 500, c.n(30, 500)):
        s = Sc()
        k = mkey(s, p, 'nat', None, sbox(s, p, 'con'))
        s.op('di_val', s.mk('di_new', k, hx(p.msg(n))))
        o.add('lit', s)
    return o


def kstream(s, p, n, kind=None):
    """a stream of n bytes (n multiple of 8 for memory streams)"""
    kind = kind or p.r.choice(['mem', 'env'])
    m = p.msg(n)
    if kind == 'mem':
        return s.mk('t_mem', hx(m[:n // 8 * 8]))
    bl = [m[i:i + 16] for i in range(0, n, 16)]
    return s.mk('t_env', ' '.join([str(len(bl))] + ['%s %d' % (hx(b + bytes(16 - len(b))), len(b)) for b in bl]))


def gen_C15(c):
    p, o = c.p, Out()
    for n in range(0, c.n(50, 100)):
        s = Sc()
        k = qkey(s, p)
        t = kstream(s, p, n, 'env')
        s.op('t_mac', t, k)
        if n % 8 == 0:
            s.op('t_mac', kstream(s, p, n, 'mem'), k)
        if n % 3 == 0:
            b = s.mk('qb_mac', t, k)
            s.op('qb_val', b)
            s.op('qb_val', b)
        o.add('len', s)
    for i in range(c.n(50)):
        s = Sc()
        k = qkey(s, p)
        t = kstream(s, p, p.r.choice([8, 16, 16, 32, 5, 24]))
        s.op('t_mac', t, k)
        if i % 2:
            e = s.mk('t_ctr', t, qkey(s, p), hx(p.block(8)))
            s.op('t_mac', e, k)
            s.op('t_mac', t, k)
        o.add('key', s)
    # equal presentation, equal MAC: memory, caller's, and decrypted again
    for i in range(c.n(25)):
        s = Sc()
        k, k2, iv = qkey(s, p), qkey(s, p), hx(p.block(8))
        m = p.msg(p.r.choice([16, 24, 32, 40]))
        bl = [m[j:j + 16] for j in range(0, len(m), 16)]
        a = s.mk('t_mem', hx(m))
        b = s.mk('t_env', ' '.join([str(len(bl))] + ['%s %d' % (hx(x + bytes(16 - len(x))), len(x)) for x in bl]))
        e = s.mk('t_ctr', s.mk('t_ctr', a, k2, iv), k2, iv)
        for t in (a, b, e):
            s.op('t_mac', t, k)
        o.add('same', s)
    return o


# ---------------------------------------------------------------- C16 C17
def walk(s, p, st, n, vals=True):
    """iterate a stream of n blocks completely"""
    if n == 0:
        s.mk('i_iter', st)
        return []
    h = s.mk('i_iter', st)
    hs = [h]
    for i in range(n):
        for q in p.r.sample(['i_val', 'i_last', 'i_size'], 3):
            s.op(q, h)
        h = s.mk('i_next', h)
        hs.append(h)
    return hs


def replay_iter(s, p, st, shape, total):
    """replay a generated behaviour: handle 0 is the first position"""
    hs = [s.mk('i_iter', st)]
    for h, _ in shape:
        hs.append(s.mk('i_next', hs[h]))
        for q in p.r.sample(['i_val', 'i_last', 'i_size'], p.r.randrange(0, 3)):
            s.op(q, hs[p.r.randrange(len(hs))])
    for h in hs:
        s.op('i_val', h)
        s.op('i_last', h)
        s.op('i_size', h)
    return hs


def gen_C16(c):
    p, o = c.p, Out()
    for n in range(0, c.n(50, 100)):
        s = Sc()
        k = qkey(s, p)
        t = kstream(s, p, n, 'env' if n % 8 else None)
        iv = hx(p.block(8))
        e = s.mk('t_ctr', t, k, iv)
        walk(s, p, e, (n + 15) // 16)
        o.add('len', s)
    for i in range(c.n(40)):
        s = Sc()
        k = qkey(s, p)
        n = p.r.choice([16, 24, 40, 48, 7, 33])
        t = kstream(s, p, n, None if n % 8 == 0 else 'env')
        iv = hx(p.block(8))
        e = s.mk('t_ctr', s.mk('t_ctr', t, k, iv), k, iv)
        walk(s, p, e, (n + 15) // 16)
        walk(s, p, t, (n + 15) // 16)
        e2 = s.mk('t_ctr', s.mk('t_ctr', t, qkey(s, p), iv), k, hx(p.block(8)))
        walk(s, p, e2, (n + 15) // 16)
        o.add('twice', s)
    for x in c.shapes('iter', 4, [1], 3) + c.shapes('iter', 3, [1], 3):
        s = Sc()
        k = qkey(s, p)
        t = kstream(s, p, 64 - p.r.choice([0, 8]))
        e = s.mk('t_ctr', t, k, hx(p.block(8)))
        if p.r.random() < .3:
            s.op('drop', k)
        replay_iter(s, p, e, x, 4)
        o.add('shape', s)
    for iv in (bytes(8), b'\xff' * 8, b'\x01' + bytes(7), bytes(7) + b'\x80', bytes(4) + b'\xff' * 4, b'\xff' * 4 + bytes(4)):
        s = Sc()
        e = s.mk('t_ctr', kstream(s, p, 48, 'mem'), qkey(s, p), hx(iv))
        walk(s, p, e, 3)
        o.add('iv', s)
    # one long walk: the counter passes a byte boundary
    s = Sc()
    e = s.mk('t_ctr', kstream(s, p, 16 * c.n(262, 600), 'mem'), qkey(s, p), hx(p.block(8)))
    h = s.mk('i_iter', e)
    for i in range(c.n(261, 599)):
        h2 = s.mk('i_next', h)
        s.op('drop', h)
        h = h2
        if i in (0, 1, 126, 127, 128, 253, 254, 255, 256, 257, 510, 511, 512):
            s.op('i_val', h)
    s.op('i_last', h)
    s.op('i_val', h)
    o.add('long', s)
    return o


def gen_C17(c):
    p, o = c.p, Out()
    for n in range(0, 20):
        for _ in range(c.n(3)):
            s = Sc()
            t = s.mk('t_mem', hx(p.msg(8 * n)))
            walk(s, p, t, (n + 1) // 2)
            walk(s, p, t, (n + 1) // 2)
            o.add('len', s)
    for x in c.shapes('iter', 4, [1], 3) + c.shapes('iter', 3, [1], 3) + (c.shapes('iter', 5, [1], 4) if c.tier == 'thorough' else []):
        for n in (8, 7, 10):
            s = Sc()
            t = s.mk('t_mem', hx(p.msg(8 * n)))
            it = None
            if p.r.random() < .5:
                # the stream handle goes away after the first iterator exists
                hs = [s.mk('i_iter', t)]
                s.op('drop', t)
                for h, _ in x:
                    hs.append(s.mk('i_next', hs[h]))
                order = list(hs)
                p.r.shuffle(order)
                for h in order:
                    s.op('i_val', h)
                    s.op('i_last', h)
                    s.op('i_size', h)
                    if p.r.random() < .3:
                        s.op('drop', h)
            else:
                replay_iter(s, p, t, x, 4)
            o.add('shape', s)
    # past the end, and every drop order of three iterators
    for n in (1, 2, 3, 4):
        s = Sc()
        t = s.mk('t_mem', hx(p.msg(8 * n)))
        hs = [s.mk('i_iter', t) for _ in range(3)]
        s.op('drop', hs[1])
        for h in (hs[0], hs[2]):
            e = h
            for _ in range((n + 1) // 2):
                s.op('i_last', e)
                e = s.mk('i_next', e)
        s.op('drop', t)
        for h in (hs[2], hs[0]):
            s.op('i_val', h)
            s.op('i_size', h)
            s.op('i_last', h)
        o.add('end', s)
    for n in lit_pick(p, 20, 300, c.n(10, 100)):
        s = Sc()
        t = s.mk('t_mem', hx(p.msg(8 * n)))
        h = s.mk('i_iter', t)
        for i in range((n + 1) // 2):
            s.op('i_val', h)
            s.op('i_last', h)
            h2 = s.mk('i_next', h)
            s.op('drop', h)
            h = h2
        o.add('lit', s)
    return o


# ---------------------------------------------------------------- C18
def gen_C18(c):
    p, o = c.p, Out()
    # sinks: every tree of operations, then every handle is continued and finalized again
    for x in p.pick(c.shapes('sink', 3, [99, 3, 8, 13]), c.n(170, 600)):
        s = Sc()
        k = pipe_key(s, p)
        kind = p.r.choice(['cfb89', 'cfb', 'cfb', 'ecb'])
        if kind == 'ecb':
            x = [(h, n if n == 99 else n * 8) for h, n in x]
        m = s.mk('s_mem')
        top, _ = layer(s, p, kind, m, k)
        hs = replay_sink(s, p, top, x)
        live = [h for h, y in zip(hs, [(0, 0)] + x) if y[1] != 99]
        p.r.shuffle(live)
        for h in live:
            s.fin(s.write(h, p.msg(8 if kind == 'ecb' else p.r.randrange(11))))
            s.fin(h)
            if p.r.random() < .3:
                s.op('drop', h)
        o.add('sink', s)
    for x in p.pick(c.shapes('read', 3, [3, 8, 13], 20), c.n(150, 600)):
        s = Sc()
        k = pipe_key(s, p)
        kind = p.r.choice(['cfb89', 'cfb', 'cfb', 'ecb'])
        if kind == 'ecb':
            x = [(h, 8 if n < 8 else n) for h, n in x]
        top, _ = unlayer(s, p, kind, src(s, p.msg(p.r.choice([19, 24, 16, 24]) // (8 if kind == 'ecb' else 1) * (8 if kind == 'ecb' else 1)), frags(p)), k)
        hs = replay_read(s, p, top, x)
        p.r.shuffle(hs)
        for h in hs:
            s.read(h, p.r.choice([8, 11, -1]))
            s.read(h, 8)
            if p.r.random() < .3:
                s.op('drop', h)
        o.add('src', s)
    for x in c.shapes('iter', 4, [1], 3):
        s = Sc()
        t = kstream(s, p, 64)
        if p.r.random() < .5:
            t = s.mk('t_ctr', t, qkey(s, p), hx(p.block(8)))
        replay_iter(s, p, t, x, 4)
        o.add('it', s)
    # many objects of different kinds and keys, used in an interleaved way and dropped in any order
    for i in range(c.n(60)):
        s = Sc()
        ks = [mkey(s, p, p.r.choice(LAZY)) for _ in range(2)]
        qs = [qkey(s, p) for _ in range(2)]
        objs = []
        b0 = s.mk('b_raw', 'u64', hx(p.block()))
        q0 = s.mk('qb_raw', 'lh', hx(p.block(16)))
        for j in range(4):
            objs.append(('b_val', s.mk(p.r.choice(['b_enc', 'b_dec']), p.r.choice([b0] + [h for f, h in objs if f == 'b_val']), p.r.choice(ks))))
            objs.append(('qb_val', s.mk(p.r.choice(['qb_enc', 'qb_kenc']), p.r.choice([q0] + [h for f, h in objs if f == 'qb_val']), p.r.choice(qs))))
        m = src(s, p.msg(11), [])
        objs.append(('b_val', s.mk('b_mac', m, ks[0])))
        objs.append(('qb_val', s.mk('qb_mac', kstream(s, p, 24), qs[0])))
        objs.append(('di_val', s.mk('di_new', ks[1], hx(p.msg(9)))))
        order = objs * 2
        p.r.shuffle(order)
        dropped = set()
        for f, h in order:
            s.op(f, h)
        for h in p.r.sample(ks + qs + [b0, q0, m], 4):
            s.op('drop', h)
        p.r.shuffle(order)
        for f, h in order[:10]:
            s.op(f, h)
        o.add('mix', s)
    return o


# ---------------------------------------------------------------- C19
def gen_C19(c):
    p, o = c.p, Out()
    # every sequence of accesses (positions 0..7 reduced to first, middle, last), varying and constant data
    acc = [0, 1, 6, 7]
    for x in c.shapes('use', 3, range(4)):
        for vary in (1, 0):
            s = Sc()
            e = s.mk('kd_env', vary, wlist([p.word() for _ in range(8)]))
            k = s.mk('kd_cache', e)
            for _, i in x:
                s.op('kd_use', k, acc[i])
            for i in range(8):
                s.op('kd_use', k, i)
            o.add('kd', s)
    # a failing fetch at every point of the load, before and after successful accesses
    for n in range(1, 20):
        for vary in (1, 0):
            s = Sc()
            e = s.mk('kd_env', vary, wlist([p.word() for _ in range(8)]))
            k = s.mk('kd_cache', e)
            if p.r.random() < .3:
                k2 = s.mk('kd_cache', k)
            else:
                k2 = k
            fuse(s, p, n)
            for _ in range(p.r.choice([1, 2, 3])):
                s.op('kd_use', k2, p.r.randrange(8))
            if p.r.random() < .5:
                fuse(s, p, p.r.randrange(1, 9))
                s.op('kd_use', k2, p.r.randrange(8))
            s.op('fuse', 0)
            for i in p.r.sample(range(8), 8):
                s.op('kd_use', k2, i)
            for i in p.r.sample(range(8), 3):
                s.op('kd_use', k, i)
            o.add('kdf', s)
    # several failures in a row
    for i in range(c.n(40)):
        s = Sc()
        e = s.mk('kd_env', 1, wlist([p.word() for _ in range(8)]))
        k = s.mk('kd_cache', e)
        for _ in range(p.r.randrange(1, 5)):
            fuse(s, p, p.r.randrange(1, 10))
            s.op('kd_use', k, p.r.randrange(8))
        s.op('fuse', 0)
        for j in p.r.sample(range(8), 8):
            s.op('kd_use', k, j)
        s.op('kd_use', e, p.r.randrange(8))
        for j in p.r.sample(range(8), 8):
            s.op('kd_use', k, j)
        o.add('kdm', s)
    # independent caches over the same data, and a key over a varying cache
    for i in range(c.n(40)):
        s = Sc()
        e = s.mk('kd_env', 1, wlist([p.word() for _ in range(8)]))
        cs = [s.mk('kd_cache', e) for _ in range(2)]
        for _ in range(12):
            s.op('kd_use', p.r.choice(cs), p.r.randrange(8))
        k = s.mk('k_kd', cs[0], sbox(s, p))
        xs = [s.mk(p.r.choice(['b_enc', 'b_dec', 'b_fwd']), s.mk('b_raw', 'u64', hx(p.block())), k) for _ in range(2)]
        if i % 2:
            fuse(s, p, p.r.randrange(1, 9))
        for x in xs * 2:
            s.op('b_val', x)
        s.op('fuse', 0)
        for x in xs:
            s.op('b_val', x)
        for j in range(8):
            s.op('kd_use', cs[1], j)
        o.add('key', s)
    for i in range(c.n(30)):
        s = Sc()
        e = s.mk('kd_env', 1, wlist([p.word() for _ in range(8)]))
        k = s.mk('k_kd', s.mk('kd_cache', e), sbox(s, p))
        x = s.mk('b_enc', s.mk('b_raw', 'u64', hx(p.block())), k)
        fuse(s, p, p.r.choice([0, 1, 2, 5, 8, 9]))
        for _ in range(3):
            s.op('b_val', x)
        s.op('fuse', 0)
        s.op('b_val', x)
        s.op('b_val', x)
        o.add('key2', s)
    # blocks
    for i in range(c.n(60)):
        s = Sc()
        e = s.mk('qb_env', i % 3 != 0 and 1 or 0, hx(p.block(16)))
        cs = [s.mk('qb_cache', e)]
        if p.r.random() < .4:
            cs.append(s.mk('qb_cache', cs[0]))
        if p.r.random() < .3:
            cs.append(s.mk('qb_cache', e))
        for _ in range(p.r.randrange(0, 4)):
            fuse(s, p, p.r.randrange(1, 3))
            s.op('qb_val', p.r.choice(cs))
            s.op('fuse', 0)
        for _ in range(6):
            s.op('qb_val', p.r.choice(cs))
            if p.r.random() < .2:
                fuse(s, p, 1)
        s.op('fuse', 0)
        for h in cs:
            s.op('qb_val', h)
            s.op('qb_val', h)
        o.add('qb', s)
    for b in (bytes(16), b'\xff' * 16, bytes(8) + b'\x01' + bytes(7), b'\x01' + bytes(15)):
        s = Sc()
        e = s.mk('qb_env', 0, hx(b))
        k = s.mk('qb_cache', e)
        for _ in range(3):
            s.op('qb_val', k)
        o.add('qz', s)
    for w in ([0] * 8, [0xffffffff] * 8, [0, 1, 2, 3, 4, 5, 6, 0], [0] * 7 + [5]):
        s = Sc()
        e = s.mk('kd_env', 0, wlist(w))
        k = s.mk('kd_cache', e)
        for i in list(range(8)) + [7, 0, 3]:
            s.op('kd_use', k, i)
        o.add('kz', s)
    return o


# ---------------------------------------------------------------- C21
def gen_C21(c):
    p, o = c.p, Out()
    FUSE = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24, 31, 32, 33, 34, 40, 48, 63, 64, 65, 66, 80, 96, 97, 98, 99, 128, 129, 130, 131, 160, 200]

    def armed(s, n, ops, again=1):
        """ops() makes the call(s); first with the fault armed, then without"""
        fuse(s, p, n)
        ops()
        s.op('fuse', 0)
        for _ in range(again):
            ops()

    for n in FUSE:
        for kind in ('cfb89', 'cfb', 'ecb'):
            s = Sc()
            k = mkey(s, p, 'toy' if n % 2 else p.r.choice(['env', 'strsb', 'cache']))
            x, _ = layer(s, p, kind, s.mk('s_mem'), k)
            if kind != 'ecb':
                x = s.write(x, p.msg(p.r.randrange(8)))
            m = p.msg(24 if kind == 'ecb' else p.r.choice([16, 27]))
            res = []
            armed(s, n, lambda: res.append(s.write(x, m)))
            top = res[-1]
            armed(s, p.r.choice([1, 2, 17, 32, 33]), lambda: s.fin(top))
            s.fin(x)
            o.add('w', s)
            s = Sc()
            k = mkey(s, p, 'toy' if n % 2 else p.r.choice(['env', 'strsb', 'cache']))
            x, _ = unlayer(s, p, kind, src(s, p.msg(24 if kind == 'ecb' else 27), frags(p)), k)
            y = s.read(x, 8)
            res = []
            armed(s, n, lambda: res.append(s.read(y, 16)))
            armed(s, p.r.choice([1, 2, 5]), lambda: s.read(x, 16))
            z = res[-1]
            for _ in range(4):
                z = s.read(z, 8)
            o.add('r', s)
        s = Sc()
        k = mkey(s, p, p.r.choice(['env', 'cache', 'strsb', 'str']))
        x = src(s, p.msg(p.r.choice([16, 21])), frags(p))
        b = s.mk('b_mac', x, k)
        armed(s, n, lambda: s.op('mac', x, k))
        armed(s, n, lambda: s.op('b_val', b))
        o.add('mac', s)
        s = Sc()
        k = mkey(s, p, p.r.choice(['env', 'cache']))
        d = s.mk('di_new', k, hx(p.msg(19)))
        armed(s, n, lambda: s.op('di_val', d))
        x = s.mk('b_enc', s.mk('b_env', hx(p.block())), k)
        armed(s, n, lambda: s.op('b_val', x))
        o.add('di', s)
        # Kuznyechik: key halves, stream and iterators may fail
        s = Sc()
        kh = p.keyhex()
        lo = s.mk('qb_env', 0, kh[:32].lower())
        hi = s.mk('qb_env', 0, kh[32:].lower())
        k = s.mk('qk_data', lo, hi)
        t = kstream(s, p, p.r.choice([32, 40]), 'env')
        armed(s, n if n < 40 else n % 7 + 1, lambda: s.op('t_mac', t, k))
        e = s.mk('t_ctr', t, k, hx(p.block(8)))
        res = []
        armed(s, n % 5 + 1, lambda: s.op('t_mac', e, k))
        armed(s, n % 2 + 1, lambda: res.append(s.mk('i_iter', e)))
        it = res[-1]
        armed(s, n % 4 + 1, lambda: s.op('i_val', it))
        armed(s, n % 3 + 1, lambda: res.append(s.mk('i_next', it)))
        for q in ('i_val', 'i_last', 'i_size'):
            armed(s, n % 2 + 1, lambda: s.op(q, res[-1]))
        o.add('kuz', s)
        s = Sc()
        kh = p.keyhex()
        k = s.mk('qk_data', s.mk('qb_env', 0, kh[:32].lower()), s.mk('qb_env', 0, kh[32:].lower()))
        x = s.mk('qb_enc', s.mk('qb_env', 0, hx(p.block(16))), k)
        armed(s, n % 6 + 1, lambda: s.op('qb_val', x))
        armed(s, n % 3 + 1, lambda: s.op('qb_val', x))
        o.add('kenc', s)
    # several faults in one history
    for i in range(c.n(40)):
        s = Sc()
        k = mkey(s, p, p.r.choice(['toy', 'env', 'cache']))
        kind = p.r.choice(['cfb89', 'cfb'])
        x, _ = layer(s, p, kind, s.mk('s_mem'), k)
        two = p.r.random() < .4
        if two:
            x, _ = layer(s, p, p.r.choice(['cfb89', 'cfb']), x, mkey(s, p, 'toy'))
        for _ in range(5):
            m = p.msg(p.r.randrange(1, 20))
            fuse(s, p, p.r.choice([1, 2, 3, 10, 33, 40, 70]))
            y = s.write(x, m)
            s.op('fuse', 0)
            x = s.write(x, m)
        fuse(s, p, 1)
        s.fin(x)
        s.op('fuse', 0)
        x = s.write(s.fin(x), p.msg(2))
        if two:
            fuse(s, p, 2)
            s.fin(x)
            s.op('fuse', 0)
            s.fin(x)
        o.add('many', s)
    # rejected input leaves the handle usable
    for i in range(c.n(40)):
        s = Sc()
        k = pipe_key(s, p)
        x, _ = layer(s, p, 'ecb', s.mk('s_mem'), k)
        x = s.write(x, p.msg(8))
        s.write(x, p.msg(p.r.choice([1, 7, 9, 12, 17])))
        s.fin(s.write(x, p.msg(16)))
        y, _ = unlayer(s, p, 'ecb', src(s, p.msg(p.r.choice([16, 19, 24])), frags(p)), k)
        s.read(y, p.r.randrange(8))
        y = s.read(y, 8)
        s.read(y, p.r.randrange(8))
        y = s.read(y, 8)
        s.read(y, 8)
        s.read(y, 8)
        bad = s.mk('k_str', htext(p.keyhex()[:63]))
        z, _ = layer(s, p, 'cfb', s.mk('s_mem'), bad)
        z = s.write(z, p.msg(3))
        s.write(z, p.msg(9))
        s.write(z, p.msg(9))
        s.fin(z)
        o.add('rej', s)
    return o


# ---------------------------------------------------------------- C22
def rep(period, n, tail=b''):
    """script token for period repeated n times plus tail"""
    return '%s*%d' % (hx(period), n) + ('+' + hx(tail) if tail else '')


def gen_C22(c):
    """Long messages.  Under a constant substitution the specification evaluates the cipher in closed
    form, so the number of blocks can exceed every small counter; the Kuznyechik MAC gets messages
    built so that its chain runs through a short cycle (the driver is asked for three encryptions)."""
    p, o = c.p, Out()

    def conkey(s):
        sb = s.mk('sb_con', '%08x' % p.r.getrandbits(32))
        return mkey(s, p, p.r.choice(['strsb', 'nat', 'cache']), None, sb)

    # lengths in bytes: around 2^8, 2^16 bytes and blocks
    small = [255 * 8, 256 * 8, 257 * 8 + 3, 2047, 2048, 4097, 8191]
    big = [65535, 65536, 65537, 65536 + 8 * 13 + 5, 262144 + 21, 524288 - 8, 524288, 524288 + 8, 524288 + 19]
    big = big if c.tier == 'thorough' else p.pick(big[:5], 2) + p.pick(big[5:], 1) + [524288 + 8 * p.r.randrange(3, 9) + p.r.randrange(8)]
    for n in small + big:
        per = p.bytes(p.r.choice([13, 31, 37, 101]))
        k, t = divmod(n, len(per))
        tok = rep(per, k, per[:t])
        s = Sc()
        key = conkey(s)
        x = s.mk('c_mem', tok, p.r.choice(['0', '0', '2 7 9', '1 1', '3 8 3 64']))
        s.op('mac', x, key)
        s.op('mac', x, key)
        o.add('mac', s)
        s = Sc()
        key = conkey(s)
        d = s.mk('di_new', key, tok)
        s.op('di_val', d)
        o.add('imit', s)
        for kind in ('cfb89', 'cfb', 'ecb'):
            if kind == 'ecb':            # whole blocks
                cut = per[:8 * p.r.choice([1, 1])]
                one = rep(cut, n // 8)
                n8 = n // 8 * 8
            else:
                one, n8 = tok, n
            unit = p.bytes(8 * p.r.choice([1, 1, 3])) if kind == 'ecb' else p.bytes(p.r.choice([1, 3, 7, 8, 11]))
            iv = (p.block(8), p.block(8))
            # in one write, and in many equal ones
            for way in (1, 2):
                s = Sc()
                key = conkey(s)
                mem = s.mk('s_mem')
                top, _ = layer(s, p, kind, mem, key, iv)
                s.h += 1
                w = s.h
                if way == 1:
                    s.op('s_write', top, w, one)
                else:
                    s.op('s_many', top, w, n8 // len(unit), hx(unit))
                f = s.fin(w)
                for h in (w, top, mem):
                    s.op('drop', h)
                o.add(kind + '-w%d' % way, s)
            for way in (1, 2):
                s = Sc()
                key = conkey(s)
                y = s.mk('c_mem', one, p.r.choice(['0', '2 5 3', '1 1']))
                z, _ = unlayer(s, p, kind, y, key, iv)
                s.op('drop', y)
                if kind == 'ecb' or way == 2:
                    q = 8 * way if kind == 'ecb' else p.r.choice([1, 8, 5, 13])
                    s.h += 1
                    s.op('c_many', z, s.h, q, n8 // 8 + 2 if kind == 'ecb' else n // q)
                    last = s.h
                    s.op('drop', z)
                    if kind != 'ecb' and n % q:
                        last = s.read(last, n % q)
                    s.read(last, 8)
                else:
                    s.read(s.read(z, -1), 8)
                o.add(kind + '-r%d' % way, s)
    # real keys, a few thousand bytes
    for kind in ('cfb89', 'cfb', 'ecb') * c.n(1, 4):
        s = Sc()
        key = mkey(s, p, 'str')
        n = p.r.choice([2056, 4104, 6000])
        m = p.bytes(n)
        iv = (p.block(8), p.block(8))
        top, _ = layer(s, p, kind, s.mk('s_mem'), key, iv)
        f = s.fin(s.write(top, m))
        z, _ = unlayer(s, p, kind, s.mk('c_from', f, '0'), key, iv)
        s.op('same', z, hx(m))
        s.op('mac', z, key)
        o.add('real-' + kind, s)
    # Kuznyechik: chain through a cycle of three
    pre = Sc()
    xs = [p.bytes(16) for _ in range(3)]
    kh = p.keyhex()
    k = pre.mk('qk_str', htext(kh))
    for x in xs:
        pre.op('qb_val', pre.mk('qb_enc', pre.mk('qb_raw', 'lh', hx(x)), k))
    ys = c.ask(pre, 'qb_val')
    xor = lambda a, b: bytes(u ^ v for u, v in zip(a, b))
    m1 = xs[0]
    cyc = xor(ys[0], xs[1]) + xor(ys[1], xs[2]) + xor(ys[2], xs[0])
    for n in [86, 700, 4000] + c.n([12000], [22000, 45000]):
        for tail in (p.bytes(16), p.bytes(8)) if n < 4000 else (p.bytes(16),):
            s = Sc()
            k = s.mk('qk_str', htext(kh))
            t = s.mk('t_mem', hx(m1) + '+' + rep(cyc, n, tail))
            s.op('t_mac', t, k)
            o.add('kmac', s)
    # CTR and memory stream: walk far, look at positions around the powers of two
    for n in [300, 4100] + c.n([66000], [66000, 140000]):
        s = Sc()
        k = s.mk('qk_str', htext(kh))
        per = p.bytes(24)
        t = s.mk('t_mem', rep(per, n * 2 // 3 + 1, p.bytes(8)))
        total = ((n * 2 // 3 + 1) * 24 + 8 + 15) // 16
        e = s.mk('t_ctr', t, k, hx(p.block(8)))
        h = s.mk('i_iter', e)
        s.op('drop', t)
        s.op('drop', e)
        at = 0
        for q in [x for x in (1, 127, 128, 254, 255, 256, 257, 511, 1023, 4095, 4096, 32767, 32768, 65534, 65535, 65536,
                              65537, 131071, 131072) if x < total - 1] + [total - 1]:
            s.h += 1
            s.op('i_walk', s.h, h, q - at)
            s.op('drop', h)
            h, at = s.h, q
            s.op('i_val', h)
            s.op('i_size', h)
            s.op('i_last', h)
        s.mk('i_next', h)
        o.add('ctr', s)
    return o


# ---------------------------------------------------------------- C20
def schedules(c, threads, words, calls, faults, depth):
    """behaviours of the unlocked variant of spec/Cache.tla: every order in which threads could meet"""
    r, st = tlc.printed(c.tmp, 'Cache', 'INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads = {%s}\n'
                        ' Words = %d Calls = %d Faults = %d Locked = FALSE Early = FALSE Depth = %d Trail = TRUE\n'
                        % (','.join(str(i + 1) for i in range(threads)), words, calls, faults, depth))
    c.gen_states += st['distinct']
    c.gen_trans += st['states']
    u = sorted({tuple('%s%d' % (k, t) for k, t in x) for x in r})
    c.gen_shapes += len(u)
    return u


class Par:
    """a block of operations of several threads"""
    def __init__(self, s, head):
        self.s = s
        s.l.append('par ' + head)
        self.h = {}

    def op(self, t, op, *a):
        self.s.l.append(' '.join(['T', str(t), op] + [str(x) for x in a]))

    def mk(self, t, op, *a):
        self.h[t] = self.h.get(t, 1000 * t) + 1
        self.op(t, op, self.h[t], *a)
        return self.h[t]

    def mk2(self, t, op, first, *a):            # operations whose result handle comes second
        self.h[t] = self.h.get(t, 1000 * t) + 1
        self.op(t, op, first, self.h[t], *a)
        return self.h[t]

    def end(self, sched=()):
        if sched:
            self.s.l.append('sched ' + ' '.join(sched))
        self.s.l.append('endpar')


def shared_objects(s, p, name):
    """(object to share, function appending one thread's use of it)"""
    key = lambda: mkey(s, p, p.r.choice(['str', 'strsb', 'nat', 'env', 'cache', 'toy']))
    if name == 'kd':
        k = s.mk('kd_cache', s.mk('kd_env', 1, wlist([p.word() for _ in range(8)])))
        return lambda b, t, n: [b.op(t, 'kd_use', k, p.r.randrange(8)) for _ in range(n)]
    if name == 'kdkey':              # blocks under a key over a cache, with a cache that must fetch only once
        k = s.mk('kd_cache', s.mk('kd_env', 1, wlist([p.word() for _ in range(8)])))
        q = s.mk('k_kd', k, sbox(s, p))
        xs = [s.mk(p.r.choice(['b_enc', 'b_dec', 'b_fwd']), s.mk('b_raw', 'u64', hx(p.block())), q) for _ in range(3)]
        return lambda b, t, n: [b.op(t, 'b_val', p.r.choice(xs)) for _ in range(n)]
    if name == 'qb':
        k = s.mk('qb_cache', s.mk('qb_env', 1, hx(p.block(16))))
        return lambda b, t, n: [b.op(t, 'qb_val', k) for _ in range(n)]
    if name == 'mkey':
        k = key()
        e = s.mk('eb_new', k)
        xs = [s.mk(p.r.choice(['b_enc', 'b_dec', 'b_fwd', 'b_bwd']), s.mk('b_raw', 'u64', hx(p.block())), k)
              for _ in range(3)]

        def use(b, t, n):
            for _ in range(n):
                x = p.r.randrange(4)
                if x == 0:
                    b.op(t, 'k_use', k, '%08x' % p.word(), p.r.randrange(8))
                elif x == 1:
                    b.op(t, 'eb_use', e, hx(p.block()))
                elif x == 2:
                    b.op(t, 'b_val', p.r.choice(xs))
                else:
                    b.op(t, 'b_val', b.mk(t, p.r.choice(['b_enc', 'b_dec']), p.r.choice(xs), k))
        return use
    if name == 'mblk':               # block arithmetic on shared blocks
        xs = [s.mk('b_raw', 'lh', hx(p.block())), s.mk('b_str', htext(p.block().hex())), s.mk('b_env', hx(p.block()))]
        xs += [s.mk('b_shl', xs[0], p.r.randrange(64)), s.mk('b_swap', xs[2]), s.mk('b_xor', 3, *xs[:3])]
        sb = sbox(s, p, p.r.choice(['nib', 'byte', 'r3412']))

        def use(b, t, n):
            for _ in range(n):
                if p.r.random() < .3:
                    b.op(t, 'sb_use', sb, '%08x' % p.word())
                else:
                    b.op(t, 'b_val', p.r.choice(xs))
        return use
    if name == 'qkey':
        k = qkey(s, p, p.r.choice(['str', 'data', 'qd']))
        xs = [s.mk('qb_enc', s.mk('qb_raw', 'lh', hx(p.block(16))), k) for _ in range(2)]
        xs += [s.mk('qb_kenc', s.mk('qb_raw', 'lh', hx(p.block(16))), k)]

        def use(b, t, n):
            for _ in range(n):
                x = p.r.choice(xs) if p.r.random() < .6 else b.mk(t, 'qb_enc', p.r.choice(xs[:1]), k)
                b.op(t, 'qb_val', x)
        return use
    if name == 'qblk':
        b0 = s.mk('qb_env', 0, hx(p.block(16)))
        b1 = s.mk('qb_cache', s.mk('qb_env', 0, hx(p.block(16))))
        xs = [b0, b1] + [s.mk(q, p.r.choice([b0, b1])) for q in ('qb_inc', 'qb_s', 'qb_r', 'qb_l')]
        xs += [s.mk('qb_iter', b0, b1, 1, 3), s.mk('qb_shl', b1, p.r.randrange(128)), s.mk('qb_xor', 2, b0, b1)]
        return lambda b, t, n: [b.op(t, 'qb_val', p.r.choice(xs)) for _ in range(n)]
    if name == 'st':
        k = qkey(s, p)
        st = kstream(s, p, p.r.choice([1, 3, 5]), p.r.choice(['mem', 'env']))
        if p.r.random() < .7:
            st = s.mk('t_ctr', st, k, hx(p.block(8)))
        it = s.mk('i_iter', st)

        def use(b, t, n):
            i = it
            while n > 0:
                b.op(t, p.r.choice(['i_val', 'i_val', 'i_size', 'i_last']), i)
                n -= 1
                x = p.r.random()
                if x < .2:
                    b.op(t, 't_mac', st, k)
                elif x < .4:
                    i = b.mk(t, 'i_iter', st)
                elif x < .7:
                    j = b.mk(t, 'i_next', i)
                    b.op(t, 'i_val', j)
        return use
    if name == 'src':
        k = mkey(s, p, p.r.choice(LAZY))
        z, _ = unlayer(s, p, p.r.choice(['cfb89', 'cfb', 'ecb']), src(s, p.msg(48), p.r.choice([[], [3], [8, 1]])), k)

        def use(b, t, n):
            y = z
            for _ in range(n):
                y = b.mk2(t, 'c_read', y if p.r.random() < .6 else z, p.r.choice([8, 16, -1, 24]))
            if p.r.random() < .5:
                b.op(t, 'mac', z, k)
        return use
    if name == 'snk':
        k = key()
        z, _ = layer(s, p, p.r.choice(['cfb89', 'cfb', 'ecb']), s.mk('s_mem'), k)

        def use(b, t, n):
            y = z
            for _ in range(n):
                y = b.mk2(t, 's_write', y if p.r.random() < .6 else z, hx(p.msg(p.r.choice([8, 16, 24]))))
            b.mk2(t, 's_fin', y)
        return use


def gen_C20(c):
    p, o = c.p, Out()
    # caches: every schedule of the (unlocked) model, forced at the calls of the object underneath
    one = schedules(c, 2, 1, 2, 1, 7)
    two = schedules(c, 2, 2, 1, 1, 7)
    three = schedules(c, 3, 1, 1, 1, 6)
    for name, gates, sch in [('qb', '1', one), ('qb', '1', three), ('kd', '1', one), ('kd', '1,8', two), ('kd', '4', p.pick(three, c.n(40, 999))),
                             ('kdkey', '1', p.pick(one, c.n(30, 999))), ('kdkey', '2,7', p.pick(two, c.n(20, 999))),
                             ('kd', '8', p.pick(three, c.n(40, 999)))]:
        n = max(int(x[1:]) for q in sch for x in q)
        for q in sch:
            s = Sc()
            use = shared_objects(s, p, name)
            b = Par(s, 'gated ' + gates)
            for t in range(1, n + 1):
                use(b, t, sum(1 for x in q if x == 's%d' % t) or 1)
            b.end(q)
            # afterwards, one thread again
            if name == 'kd':
                for i in range(8):
                    s.op('kd_use', 2, i)
            elif name == 'qb':
                s.op('qb_val', 2)
            o.add('gated-' + name, s)
    # everything else: a thread stopped inside an operation while others run through theirs
    for name in ('mkey', 'mblk', 'qkey', 'qblk', 'st', 'src', 'snk'):
        for q in p.pick(three + one, c.n(24, 150)):
            s = Sc()
            use = shared_objects(s, p, name)
            b = Par(s, 'gated ' + p.r.choice(['1', '2', '3', '1,2', '5', '9', '17']))
            for t in range(1, max(int(x[1:]) for x in q) + 1):
                use(b, t, 2)
            b.end(q)
            o.add('gated-' + name, s)
    # no control: values, and (built with ThreadSanitizer) no unsynchronised conflicting access
    for name in ('kd', 'kdkey', 'qb', 'mkey', 'mblk', 'qkey', 'qblk', 'st', 'src', 'snk'):
        for i in range(c.n(5, 40)):
            s = Sc()
            use = shared_objects(s, p, name)
            b = Par(s, 'free')
            for t in range(1, p.r.choice([3, 4, 6])):
                use(b, t, p.r.choice([1, 2, 4]))
            b.end()
            o.add('free-' + name, s)
    return o
