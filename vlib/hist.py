"""Concrete scripts for the histories spec/Hist.tla generates: what each operation needs besides handles."""
from .scen import *
from . import more as more_, tlc

BAD = 'gG zx-+X.@`\n\t\0\x80\xff_'


class Values:
    """The values one history draws from: few of each kind, close to one another, so that anything the code
    remembers or confuses meets a value it should have told apart."""

    def __init__(self, p, bad=0.0):
        self.p, self.bad = p, bad
        k = p.keyhex().lower()
        i = p.r.randrange(64)
        self.keys = [k, k[:i] + '%x' % (int(k[i], 16) ^ 1 << p.r.randrange(4)) + k[i + 1:], k[32:] + k[:32], k[:32] + p.keyhex()[32:],
                     p.keyhex()[:32] + k[32:]]
        b = p.block()
        self.blocks = [b, self.near(b), b[4:] + b[:4], b[:4] + p.block()[4:], p.block()[:4] + b[4:], p.block()]
        q = p.block(16)
        self.qs = [q, self.near(q), q[8:] + q[:8], q[:8] + p.block(16)[8:], p.block(16)[:8] + q[8:], p.block(16)]
        m = p.msg(64)
        self.msgs = [m, p.msg(7) + m[7:], m[:40] + p.msg(24)]
        pi = p.pi()
        pj = bytearray(pi)
        pj[p.r.randrange(128)] ^= 1 << p.r.randrange(4)
        self.pis = [pi, bytes(pj)]
        uz = bytearray(p.bytes(64) if p.r.random() < .5 else pack(pi))
        self.uzs = [bytes(uz), self.near(bytes(uz)), pack(pi)]
        self.words = [p.word() for _ in range(4)]

    def near(self, b):
        b = bytearray(b)
        b[self.p.r.randrange(len(b))] ^= 1 << self.p.r.randrange(8)
        return bytes(b)

    def pick(self, l):
        """the first ones more often"""
        r = self.p.r
        return l[min(r.randrange(len(l)), r.randrange(len(l)))]

    def key(self):
        k = self.pick(self.keys)
        return k.upper() if self.p.r.random() < .2 else k

    def spoil(self, t, good):
        """a text that is no number but looks like one"""
        r = self.p.r
        x = r.randrange(8)
        i = r.randrange(len(t)) if t else 0
        if x == 0:
            return t + '\0' + r.choice(['', t[:3], 'g', t])
        if x == 1:
            return t + r.choice(' \0\ng0')
        if x == 2:
            return t[:-1] if good else t + t + 'f' * 32
        if x == 3:
            return r.choice([' ', '0x', '+', '-', '\0']) + t
        if x == 4:
            return t[:i] + '\0' + t[i + 1:]
        if x == 5:
            return t[:i] + '\0' + t[i:]
        return t[:i] + r.choice(BAD) + t[i + 1:]

    def text(self, t, good=True):
        return htext(self.spoil(t, good) if self.p.r.random() < self.bad else t)

    def kwords(self):
        w = words_of(self.pick(self.keys))
        return wlist(w[:self.p.r.randrange(8)] if self.p.r.random() < self.bad / 2 else
                     w + w[:1] if self.p.r.random() < self.bad / 2 else w)

    def block(self):
        return self.pick(self.blocks)

    def q(self):
        return self.pick(self.qs)

    def msg(self):
        r = self.p.r
        m = self.pick(self.msgs)
        n = r.choice([0, 1, 7, 8, 8, 9, 16, 16, 24, 32, r.randrange(41)])
        at = r.choice([0, 0, 8])
        return m[at:at + n]

    def args(self, o, h):
        """the whole argument list of operation o on handles h"""
        r, p = self.p.r, self.p
        i = [str(x) for x in h]
        w = '%08x' % self.pick(self.words)
        if o == 'sb_nib':
            return [hx(self.pick(self.pis))]
        if o == 'sb_byte':
            return [hx(self.pick(self.uzs))]
        if o in ('sb_toy', 'sb_con', 'k_toy'):
            return [w]
        if o == 'sb_use':
            return i + [w]
        if o in ('kd_str', 'k_str', 'qk_str', 'qd_str'):
            return [self.text(self.key())]
        if o == 'kd_nat':
            return [self.kwords()]
        if o == 'kd_env':
            return [0, wlist(words_of(self.pick(self.keys)))]
        if o == 'kd_use':
            return i + [r.randrange(8)]
        if o == 'k_strsb':
            return [self.text(self.key())] + i
        if o == 'k_nat':
            return i + [self.kwords()]
        if o == 'k_use':
            return i + [w, r.randrange(8)]
        if o == 'cont':
            k, u = bytes.fromhex(self.key()), self.pick(self.uzs)
            if r.random() < self.bad:
                k, u = r.choice([(k[:-1], u), (k + k[:1], u), (k, u[:-1]), (k, u + u[:4]), (k[:28], u), (b'', b'')])
            return [hx(k), hx(p.bytes(32)), hx(u)]
        if o == 'b_raw':
            return [r.choice(['lh', 'pair', 'blk', 'u64', 'vec', 'ptr']), hx(self.block())]
        if o == 'b_env':
            return [hx(self.block())]
        if o == 'b_str':
            return [self.text(self.block()[::-1].hex(), False)]
        if o in ('b_xor', 'qb_xor'):
            return [2] + i
        if o in ('b_xor3', 'qb_xor3'):
            return [3] + i
        if o == 'b_shl':
            return i + [r.choice([1, 8, 31, 32, 33, r.randrange(64)])]
        if o == 'qb_shl':
            return i + [r.choice([1, 8, 63, 64, 65, r.randrange(128)])]
        if o == 'eb_use':
            return i + [hx(self.block())]
        if o in ('s_cfb89', 'c_cfb89'):
            return i + [hx(self.block())]
        if o in ('s_cfb', 'c_cfb'):
            return i + [hx(self.block()), hx(self.block())]
        if o == 'c_mem':
            f = frags(p)
            return [hx(self.msg()), ' '.join([str(len(f))] + [str(x) for x in f])]
        if o == 'c_from':
            f = frags(p)
            return i + [' '.join([str(len(f))] + [str(x) for x in f])]
        if o == 'di_new':
            return i + [hx(self.msg())]
        if o == 'qb_raw':
            return [r.choice(['lh', 'pair', 'blk', 'ptr']), hx(self.q())]
        if o == 'qb_env':
            return [0, hx(self.q())]
        if o == 'qb_str':
            return [self.text(self.q()[::-1].hex(), False)]
        if o == 'qb_iter':
            a = r.randrange(1, 33)
            return i + [a, min(32, a + r.randrange(4))]
        if o == 't_mem':
            m = self.msg() + self.q()
            return [hx(m[:8 * min(r.randrange(6), len(m) // 8)])]
        if o == 't_env':
            n = r.randrange(4)
            return [n] + ['%s %d' % (hx(q[:z] + bytes(16 - z)), z)
                          for q, z in [(self.q(), 16 if j < n - 1 else r.choice([16, 8, 1, 15])) for j in range(n)]]
        if o == 't_ctr':
            return i + [hx(self.block())]
        return i


NAMES = {'b_xor3': 'b_xor', 'qb_xor3': 'qb_xor'}
SECOND = {'s_write', 's_fin', 'c_read'}             # the result handle comes after the first argument
MAKES = set('sb_nib sb_byte sb_tw sb_r3412 sb_toy sb_con kd_str kd_nat kd_cache kd_env k_str k_strsb k_nat k_kd k_toy cont '
            'b_raw b_env b_str b_swap b_xor b_xor3 b_shl b_enc b_dec b_fwd b_bwd b_imit b_mac eb_new s_mem s_cfb89 s_cfb '
            's_ecb s_ecb89 s_write s_fin c_mem c_from c_cfb89 c_cfb c_ecb c_ecb89 c_ecbc c_read di_new qb_raw qb_env qb_str '
            'qb_shl qb_inc qb_s qb_r qb_l qb_cache qb_xor qb_xor3 qb_iter qb_enc qb_kenc qd_low qd_high qb_mac qk_str '
            'qk_data qk_qd qd_str t_mem t_env t_ctr i_iter i_next'.split())


def script(p, h, bad=0.0, fuses=0.0):
    s, v = Sc(), Values(p, bad)
    for op, hs in h:
        if fuses and p.r.random() < fuses:
            fuse(s, p, p.r.choice([0, 1, 1, 2, 3, 5]))
        n = NAMES.get(op, op)
        if op == 's_write':
            s.write(hs[0], v.msg())
        elif op == 's_fin':
            s.fin(hs[0])
        elif op == 'c_read':
            s.read(hs[0], p.r.choice([0, 1, 7, 8, 8, 9, 16, 24, 100, -1]))
        elif op in MAKES:
            s.mk(n, *v.args(op, hs))
        else:
            s.op(n, *v.args(op, hs))
    return s


def weigh(text):
    out = []
    for x in text.split():
        a, _, n = x.partition('*')
        out += [a] * int(n or 1)
    return out


def hist(c, o, name, start, ops, num, depth=24, near=3, bad=0.0, fuses=0.0):
    """num histories over these operations (op*n: n times as often), added to the scenarios"""
    seed = c.p.r.randrange(1, 1 << 30)
    hs, r = tlc.histories(c.tmp, start.split(), weigh(ops), depth, num, seed, near)
    c.gen_states += r['distinct']
    c.gen_trans += r['states']
    c.gen_shapes += len(hs)
    for h in hs:
        o.add(name, script(c.p, h, bad, fuses))


# what each property's histories are made of
SBOX = 'sb_nib sb_byte sb_tw sb_r3412 sb_toy'
MKEY = 'kd_str kd_nat kd_env kd_cache k_str*2 k_strsb k_nat k_kd*2'
MBLK = 'b_swap b_shl b_xor b_xor3'
QBLK = 'qb_shl qb_inc qb_xor qb_xor3'
QKEY = 'qk_str*2 qk_data qd_str qk_qd qd_low qd_high'
SINK = 's_cfb89*2 s_cfb*2 s_ecb s_ecb89 s_write*6 s_fin*3'
SRC = 'c_mem c_cfb89*2 c_cfb*2 c_ecb c_ecb89 c_read*8'
MSTART = 'k_str k_str b_raw b_raw'
QSTART = 'qk_str qk_str qb_raw qb_raw'
PSTART = 'k_str k_str s_mem c_mem'
TSTART = 'qk_str qk_str t_mem t_env'
EVERY = ' '.join([SBOX, MKEY, 'k_toy cont b_raw b_str b_env', MBLK, 'b_enc b_dec b_fwd b_bwd b_imit b_val*6 eb_new eb_use*2 k_use kd_use sb_use',
                  's_mem', SINK, 'c_from', SRC, 'c_ecbc mac b_mac di_new di_val*2 qb_raw qb_str qb_env', QBLK,
                  'qb_s qb_r qb_l qb_cache qb_iter qb_enc qb_kenc qb_val*6', QKEY,
                  't_mem t_env t_ctr*2 t_mac qb_mac i_iter*2 i_next*3 i_val*4 i_last i_size drop*4'])
PLAN = {
    'C01': (MSTART, 'k_str k_strsb sb_byte sb_r3412 b_raw b_enc*5 eb_new*2 eb_use*6 b_val*8 b_xor b_swap b_dec drop*2', 120, {}),
    'C02': (MSTART, 'k_str b_raw b_enc*4 b_dec*6 b_fwd*3 b_bwd*3 b_swap*2 b_val*8 b_xor drop', 200, {}),
    'C03': ('sb_r3412 sb_nib sb_byte', SBOX + ' sb_tw sb_use*20 drop', 60, {}),
    'C04': ('sb_r3412 c_mem b_raw', SBOX + ' ' + MKEY + ' cont*5 c_mem c_ecbc*5 c_ecb*2 c_read*8 kd_use*4 k_use*3 b_enc*3 b_val*3 drop', 160, {}),
    'C05': ('sb_r3412 b_raw qb_raw c_mem', MKEY + ' cont*2 c_ecbc*2 c_read*3 c_cfb s_mem s_cfb s_write s_fin b_str*3 qb_str*3 b_enc*2 b_xor '
            'b_swap b_val*6 qb_xor qb_inc qb_enc qb_val*6 qk_str*2 qd_str*2 qk_qd qd_low qd_high kd_use*4 k_use mac di_new di_val eb_new eb_use',
            260, dict(bad=.35, depth=30)),
    'C06': (QSTART, QKEY + ' qb_raw qb_enc*5 qb_kenc*5 qb_val*8 qb_xor qb_cache drop*2', 100, {}),
    'C07': (QSTART, 'qb_raw qb_s*3 qb_r*3 qb_l*3 qb_iter*3 qb_cache qb_xor qb_enc qb_val*10 drop', 120, {}),
    'C08': (MSTART + ' ' + QSTART, 'b_raw b_str b_env qb_raw qb_str qb_env b_swap*2 b_shl*3 b_xor*3 b_xor3*2 b_enc b_val*7 '
            'qb_shl*3 qb_inc*3 qb_xor*3 qb_xor3*2 qb_enc qb_cache qb_val*7 drop', 200, dict(depth=32)),
    'C09': (PSTART, 'k_str k_toy s_mem s_cfb89*2 s_cfb*2 s_write*9 s_fin*4 c_from drop', 120, {}),
    'C10': (PSTART, 'k_str k_toy c_mem c_cfb89*3 c_cfb*3 c_read*14 drop', 120, {}),
    'C11': (PSTART, 'k_str k_strsb sb_byte s_mem s_cfb89 s_cfb s_ecb s_ecb89 s_write*5 s_fin*4 c_from*4 c_cfb89*2 c_cfb*2 c_ecb*2 c_ecb89*2 c_read*5', 120, dict(depth=34)),
    'C12': (PSTART, 'k_str k_toy cont*2 s_mem s_ecb*3 s_ecb89*3 s_cfb s_write*6 s_fin*3 c_mem*2 c_from c_ecb*3 c_ecb89*3 c_ecbc*3 c_cfb c_read*10 drop', 160, {}),
    'C13': ('k_str k_str c_mem c_mem', MKEY + ' sb_byte sb_r3412 c_mem*3 c_cfb c_read*2 mac*8 b_mac*3 b_val*4 drop', 100, {}),
    'C14': ('k_str k_str b_raw', MKEY + ' sb_byte sb_r3412 di_new*5 di_val*10 b_raw b_imit*4 b_xor b_val*6 drop*2', 120, {}),
    'C15': (TSTART, 'qk_str qk_data qb_raw t_mem*3 t_env*3 t_ctr t_mac*6 qb_mac*3 qb_val*4 drop', 60, {}),
    'C16': (TSTART, 'qk_str qk_data qb_raw t_mem t_env t_ctr*5 i_iter*4 i_next*6 i_val*8 i_last*2 i_size*2 t_mac drop', 100, {}),
    'C17': (TSTART, 't_mem*4 i_iter*5 i_next*7 i_val*6 i_last*3 i_size*3 drop*2', 120, {}),
    'C18': (MSTART + ' s_mem c_mem ' + TSTART + ' qb_raw', EVERY, 260, dict(depth=46)),
    'C19': ('kd_env qb_env kd_str', 'kd_env*2 kd_cache*4 kd_use*14 qb_env*2 qb_cache*4 qb_val*8 sb_r3412 k_kd b_raw b_enc b_val*3 qb_inc qb_xor qk_data qb_enc drop', 120, dict(depth=30)),
    'C21': (MSTART + ' s_mem c_mem ' + TSTART + ' qb_raw qb_env kd_env b_env', EVERY + ' kd_env*4 qb_env*4 b_env*3 qb_cache*3 kd_cache*3', 200, dict(depth=46, fuses=.15)),
}


PLACE = {'C01': ('k_use', 'enc', 'eb'), 'C02': ('dec',), 'C04': ('k_use', 'enc'), 'C09': ('sink',), 'C10': ('source',), 'C12': ('ecb',),
         'C13': ('mac', 'bmac'), 'C14': ('di', 'imit')}
QPLACE = {'C04': ('enc',), 'C06': ('enc', 'kenc'), 'C15': ('mac', 'qmac'), 'C16': ('ctr',)}


def more(c, o):
    more_.place(c, o, PLACE.get(c.tag, ()))
    more_.qplace(c, o, QPLACE.get(c.tag, ()))
    if c.tag in PLAN:
        start, ops, num, kw = PLAN[c.tag]
        hist(c, o, 'hist', start, ops, c.n(num, num * 8), **kw)
        if c.tag not in ('C18', 'C21', 'C03'):       # and anything next to anything
            hist(c, o, 'any', start, EVERY, c.n(30, 300), 40)
