"""Scenario construction: scripts of public calls for the driver.

The shapes (which calls on which handles, sizes, where faults strike) come from behaviours the
specification generates (spec/Gen.tla) or from complete enumerations; this module fills in keys,
tables and data from a seeded generator, from corner values, and from the constants that occur in
the current sources (so that a special case written into the code meets its value)."""
import glob, json, os, random, re
from . import build


class Sc:
    def __init__(self):
        self.l = []
        self.h = 0

    def mk(self, op, *a):
        self.h += 1
        self.l.append(' '.join([op, str(self.h)] + [str(x) for x in a]))
        return self.h

    def op(self, op, *a):
        self.l.append(' '.join([op] + [str(x) for x in a]))

    # operations whose result handle comes second
    def write(self, s, data):
        self.h += 1
        self.op('s_write', s, self.h, hx(data))
        return self.h

    def fin(self, s):
        self.h += 1
        self.op('s_fin', s, self.h)
        return self.h

    def read(self, s, n):
        self.h += 1
        self.op('c_read', s, self.h, n)
        return self.h


def hx(b):
    return bytes(b).hex() if len(b) else '-'


def htext(t):
    return hx(t.encode('latin-1'))


class Pool:
    """Seeded values."""
    CORNER32 = [0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0xfffffffe, 0x55555555, 0xaaaaaaaa, 0x00010000,
                0x0000ffff, 0xffff0000, 0x01000000, 0x00000100, 0x80000001, 0x12345678]

    def __init__(self, seed, tag):
        self.r = random.Random('%s/%s' % (seed, tag))
        self.lits = literals()
        self.fresh = fresh()

    def odd(self, bits):
        """a value with a fresh constant in it: itself, next to it, or at one of its places"""
        x = self.r.choice(self.fresh) + self.r.choice([0, 0, 0, 1, -1])
        y = self.r.random()
        if y < .5:
            x <<= self.r.choice(range(0, bits, 8 if x < 256 else 32))
        if self.r.random() < .3:         # with something around it
            x |= self.r.getrandbits(bits) & ~ ((1 << self.r.choice(range(8, bits + 1, 8))) - 1)
        return x & (1 << bits) - 1

    def bytes(self, n):
        return bytes(self.r.randrange(256) for _ in range(n))

    def word(self):
        if self.fresh and self.r.random() < .2:
            return self.odd(32)
        x = self.r.random()
        if x < .25:
            return self.r.choice(self.CORNER32)
        if x < .35 and self.lits:
            return self.r.choice(self.lits) & 0xffffffff
        if x < .45:
            return 1 << self.r.randrange(32)
        return self.r.getrandbits(32)

    def block(self, n=8):
        """n bytes: corners, single bits, repeated bytes, literals, random"""
        if self.fresh and self.r.random() < .2:
            return self.odd(8 * n).to_bytes(n, 'little')
        x = self.r.random()
        if x < .08:
            return bytes(n)
        if x < .16:
            return b'\xff' * n
        if x < .24:
            return (1 << self.r.randrange(8 * n)).to_bytes(n, 'little')
        if x < .30:
            return ((1 << self.r.randrange(8 * n + 1)) - 1).to_bytes(n, 'little')
        if x < .36:
            return bytes([self.r.randrange(256)]) * n
        if x < .44:
            return b''.join(self.word().to_bytes(4, 'little') for _ in range(n // 4))
        if x < .50 and self.lits:
            return (self.r.choice(self.lits) % (1 << 8 * n)).to_bytes(n, 'little')
        return self.bytes(n)

    def keyhex(self):
        k = ''.join('%08x' % self.word() for _ in range(8)) if self.r.random() < .4 else self.bytes(32).hex()
        c = self.r.random()
        if c < .25:
            k = k.upper()
        elif c < .4:
            k = ''.join(self.r.choice([x.lower(), x.upper()]) for x in k)
        return k

    def msg(self, n):
        x = self.r.random()
        if x < .15:
            return bytes(n)
        if x < .25:
            return b'\xff' * n
        if x < .35:
            b = self.bytes(8)
            return (b * (n // 8 + 1))[:n]
        if x < .65:                      # some blocks special: corners, the same as the one before
            out = b''
            while len(out) < n:
                y = self.r.random()
                out += (self.bytes(8) if y < .4 else bytes(8) if y < .6 else b'\xff' * 8 if y < .7
                        else out[-8:] if y < .85 and out else self.block())
            return out[:n]
        return self.bytes(n)

    def pi(self):
        """128 nibble-table entries: permutations or arbitrary tables"""
        x = self.r.random()
        if x < .6:
            return b''.join(bytes(self.r.sample(range(16), 16)) for _ in range(8))
        return bytes(self.r.randrange(16) for _ in range(128))

    def pick(self, l, n):
        l = list(l)
        return l if len(l) <= n else self.r.sample(l, n)


def pack(pi):
    """the 64-byte packed form of 128 nibble entries"""
    u = bytearray(64)
    for n in range(8):
        for x in range(16):
            u[4 * x + n // 2] |= pi[16 * n + x] << (4 * (n % 2))
    return bytes(u)


_LITS = None
_FRESH = None
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'consts.json')
NUM = r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)([uUlLzZ]*)(?![\w.])"
LIMITS = {'UINT8_MAX': 255, 'INT8_MAX': 127, 'UINT16_MAX': 65535, 'INT16_MAX': 32767, 'UINT32_MAX': (1 << 32) - 1,
          'INT32_MAX': (1 << 31) - 1, 'UINT64_MAX': (1 << 64) - 1, 'INT64_MAX': (1 << 63) - 1, 'UCHAR_MAX': 255, 'CHAR_MAX': 127,
          'USHRT_MAX': 65535, 'SHRT_MAX': 32767, 'UINT_MAX': (1 << 32) - 1, 'INT_MAX': (1 << 31) - 1}


def number(t):
    t = t.replace("'", '').lower()
    return int(t, 0) if t[:2] in ('0x', '0b') else int(t, 8) if t[0] == '0' and t.isdigit() and not set(t) & set('89') else int(t)


def text_consts(t):
    """the integer constants in a text, and those of the simple expressions they stand in"""
    t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)
    t = re.sub(r'#\s*include[^\n]*', ' ', t)
    for n, v in LIMITS.items():
        t = re.sub(r'\b%s\b' % n, str(v), t)
    t = re.sub(NUM, lambda m: str(number(m.group(1))), t)
    t = re.sub(r'static_cast<[\w: ]+>', ' ', t)
    c = [int(x) for x in re.findall(r'(?<![\w.])(\d+)(?![\w.])', t)]
    # casts, parentheses, and then << * + - of two constants, until nothing changes
    for _ in range(4):
        u = re.sub(r'\b(?:u?int\d+_t|size_t|unsigned|int|long)?\s*[({]\s*(\d+)\s*[)}]', r' \1 ', t)

        def calc(m):
            x, o, y = int(m.group(1)), m.group(2), int(m.group(3))
            v = (x << y if y < 129 else 0) if o == '<<' else x * y if o == '*' else x + y if o == '+' else x - y
            if 0 <= v < 1 << 128:
                c.append(v)
                return str(v)
            return '0'
        for o in (r'\*', '<<', '[+-]'):
            u = re.sub(r'(?<![\w.])(\d+)\s*(%s)\s*(\d+)(?![\w.])' % o, calc, u)
        if u == t:
            break
        t = u
    return c


def source_consts():
    """file -> how often each constant occurs in it"""
    out = {}
    for p in glob.glob(os.path.join(build.REPO, 'goost', '**', '*.[ch]*'), recursive=True):
        try:
            c = text_consts(open(p, errors='replace').read())
        except (OSError, ValueError):
            continue
        n = {}
        for x in c:
            n[x] = n.get(x, 0) + 1
        out[os.path.relpath(p, build.REPO)] = n
    return out


def literals():
    """integer constants in the current sources"""
    global _LITS
    if _LITS is None:
        # plain small numbers are covered anyway
        _LITS = sorted({x for n in source_consts().values() for x in n if x > 16})
    return _LITS


def fresh():
    """constants that were not there, or not as often, when the list in consts.json was made (tools/gen_consts.py):
    only where to look first"""
    global _FRESH
    if _FRESH is None:
        try:
            base = json.load(open(BASE))
        except (OSError, ValueError):
            base = {}
        _FRESH = sorted({x for f, n in source_consts().items() for x, k in n.items() if x > 1 and k > base.get(f, {}).get(str(x), 0)})
        if len(_FRESH) > 40:             # a rewritten file: nothing stands out
            _FRESH = []
    return _FRESH


def fresh_lengths(limit):
    """lengths that have to do with a fresh constant: bytes, words, blocks"""
    return sorted({x * k + d for x in fresh() if x <= limit for k in (1, 4, 8, 16) for d in (-1, 0, 1, 8) if 0 < x * k + d <= limit})


def literal_lengths(limit):
    """lengths worth trying because a constant of the sources is near them"""
    s = set()
    for x in literals():
        for d in (-1, 0, 1):
            if 0 < x + d <= limit:
                s.add(x + d)
    return sorted(s)


def lit_pick(p, low, limit, n):
    """lengths from low to limit: all near fresh constants (as long as they are few), n of the others"""
    f = [x for x in fresh_lengths(limit) if x >= low]
    return sorted(set(p.pick(f, n)) | set(p.pick([x for x in literal_lengths(limit) if x >= low], n)))


# ---------------------------------------------------------------- common pieces
def sbox(s, p, kind=None):
    kind = kind or p.r.choice(['r3412', 'r3412', 'nib', 'byte', 'toy'])
    if kind == 'r3412':
        return s.mk('sb_r3412')
    if kind == 'nib':
        return s.mk('sb_tw', s.mk('sb_nib', hx(p.pi())))
    if kind == 'byte':
        return s.mk('sb_tw', s.mk('sb_byte', hx(p.bytes(64))))
    if kind == 'con':
        return s.mk('sb_con', '%08x' % p.word())
    if kind == 'toy' and p.r.random() < .25:
        t = s.mk('sb_tabs', hx(tabs(p)))
        return t if p.r.random() < .5 else s.mk('sb_tw', t)
    return s.mk('sb_toy', '%08x' % p.word())


def tabs(p):
    """four byte tables: any, permutations, few values, all the same"""
    k = p.r.randrange(4)
    if k == 0:
        return p.bytes(1024)
    if k == 1:
        return b''.join(bytes(p.r.sample(range(256), 256)) for _ in range(4))
    if k == 2:
        return bytes(p.r.choice([0, 255, 1, 128]) for _ in range(1024))
    return bytes(p.r.sample(range(256), 256)) * 4


def wlist(ws):
    return ' '.join([str(len(ws))] + ['%08x' % w for w in ws])


def words_of(keyhex):
    return [int(keyhex[i:i + 8], 16) for i in range(0, 64, 8)]


def mkey(s, p, kind=None, keyhex=None, sb=None):
    """a Magma key in one of its forms"""
    kind = kind or p.r.choice(['str', 'str', 'strsb', 'nat', 'kdstr', 'env', 'cache', 'toy'])
    keyhex = keyhex or p.keyhex()
    if kind == 'str':
        return s.mk('k_str', htext(keyhex))
    if kind == 'toy':
        return s.mk('k_toy', '%08x' % p.word())
    sb = sb or sbox(s, p)
    if kind == 'strsb':
        return s.mk('k_strsb', htext(keyhex), sb)
    if kind == 'nat':
        return s.mk('k_nat', sb, wlist(words_of(keyhex)))
    if kind == 'kdstr':
        d = s.mk('kd_str', htext(keyhex))
    elif kind == 'env':
        d = s.mk('kd_env', 0, wlist(words_of(keyhex)))
    else:
        d = s.mk('kd_cache', s.mk(*p.r.choice([('kd_str', htext(keyhex)), ('kd_env', 0, wlist(words_of(keyhex))),
                                                ('kd_nat', wlist(words_of(keyhex)))])))
    return s.mk('k_kd', d, sb)


LAZY = ['str', 'strsb', 'nat', 'kdstr', 'env', 'cache']   # forms a MAC accepts


def qkey(s, p, kind=None, keyhex=None):
    kind = kind or p.r.choice(['str', 'str', 'data', 'qd'])
    keyhex = keyhex or p.keyhex()
    if kind == 'str':
        return s.mk('qk_str', htext(keyhex))
    if kind == 'qd':
        return s.mk('qk_qd', s.mk('qd_str', htext(keyhex)))
    lo = bytes.fromhex(keyhex[32:])[::-1]
    hi = bytes.fromhex(keyhex[:32])[::-1]
    f = lambda b: p.r.choice([lambda: s.mk('qb_raw', 'lh', hx(b)), lambda: s.mk('qb_env', 0, hx(b)),
                              lambda: s.mk('qb_str', htext(b[::-1].hex()))])()
    return s.mk('qk_data', f(lo), f(hi))


def chunks(p, n, sizes=None):
    """split n bytes"""
    out, left = [], n
    while left > 0:
        k = min(left, p.r.choice(sizes or [0, 1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 40]))
        out.append(k)
        left -= k
    if p.r.random() < .2:
        out.insert(p.r.randrange(len(out) + 1), 0)
    return out


def frags(p):
    """how a caller's source cuts what it delivers: never empty before the end"""
    x = p.r.random()
    if x < .25:
        return []
    if x < .4:
        return [1]
    return [p.r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 16]) for _ in range(p.r.randrange(1, 5))]


def src(s, data, fr):
    return s.mk('c_mem', hx(data), ' '.join([str(len(fr))] + [str(f) for f in fr]))


def layer(s, p, kind, dn, key, iv=None):
    iv = iv or (p.block(8), p.block(8))
    if kind == 'cfb89':
        return s.mk('s_cfb89', dn, key, hx(iv[0])), iv
    if kind == 'cfb':
        return s.mk('s_cfb', dn, key, hx(iv[0]), hx(iv[1])), iv
    return s.mk('s_' + kind, dn, key), iv


def unlayer(s, p, kind, up, key, iv=None):
    iv = iv or (p.block(8), p.block(8))
    if kind == 'cfb89':
        return s.mk('c_cfb89', up, key, hx(iv[0])), iv
    if kind == 'cfb':
        return s.mk('c_cfb', up, key, hx(iv[0]), hx(iv[1])), iv
    return s.mk('c_' + kind, up, key), iv


def fuse(s, p, n):
    """the n-th call of the caller's objects from now fails, with some kind of exception"""
    if n:
        s.op('fuse', n, p.r.randrange(10))
    else:
        s.op('fuse', 0)


def csrc(s, p, kind, m, fr, key=None, iv=None):
    """a source that decrypts to m: encrypted here through the sink of the same kind"""
    key = key or mkey(s, p, p.r.choice(['str', 'strsb', 'toy']))
    iv = iv or (p.block(8), p.block(8))
    x, _ = layer(s, p, kind, s.mk('s_mem'), key, iv)
    y = s.mk('c_from', s.fin(s.write(x, m)), ' '.join([str(len(fr))] + [str(f) for f in fr]))
    return unlayer(s, p, kind, y, key, iv)[0]


def lens(c, limit, n=None):
    """lengths around powers of two and around the constants of the sources, a few of them picked"""
    l = sorted({x + d for x in [1 << i for i in range(5, 17)] for d in (-9, -8, -1, 0, 1, 8) if 0 < x + d <= limit}
               | set(literal_lengths(limit)))
    f = fresh_lengths(limit)
    return sorted(set(l) | set(f)) if n is None else sorted(set(c.p.pick(l, n)) | set(c.p.pick(f, n)))


MASK64 = (1 << 64) - 1
