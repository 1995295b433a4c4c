"""The same calls very many times over (the driver's "again"), and very many objects alive at once: whatever counts uses,
numbers objects, or keeps a fixed number of places must not show."""
from .more import *
from . import gens

KINDS = ['str', 'nat', 'strsb', 'cache', 'env']


def again(s, n, *ops):
    """ops: lists of tokens"""
    s.l.append('again %d %s' % (n, ' ; '.join(' '.join(str(x) for x in q) for q in ops)))


def counts(p):
    """past 2^8, and past 2^16"""
    return 256 + p.r.randrange(2, 60), 65536 + p.r.randrange(2, 60)


def edges():
    """so many in between that the next one has the number of the first, modulo 2^8 or 2^16"""
    return [n + d for n in (256, 65536) for d in (-2, -1, 0)]


def uses(s, p, q, k, raw, mem=None):
    """the uses of a Magma key"""
    f = p.r.choice(['b_enc', 'b_dec', 'b_fwd', 'b_bwd'])
    s.op('b_val', s.mk(f, raw, k))


def often_key(c, o, ops):
    p = c.p
    mid, big = counts(p)
    for kind in KINDS:
        s = Sc()
        k = mkey(s, p, kind)
        raw, raw2 = s.mk('b_raw', 'lh', hx(p.block())), s.mk('b_raw', 'lh', hx(p.block()))
        xs = [s.mk(f, raw, k) for f in ops]
        for x in xs:
            again(s, big, ['b_val', x])
        r = s.h = s.h + 1
        again(s, mid, [ops[0], r, raw2, k], ['b_val', r], ['drop', r])
        if 'b_enc' in ops:
            e = s.mk('eb_new', k)
            again(s, big, ['eb_use', e, hx(p.block())])
            s.op('eb_use', e, hx(p.block()))
        s.op('b_val', s.mk(ops[-1], raw2, k))
        for x in xs:
            s.op('b_val', x)
        o.add('often', s)


def often_made(c, o, make, use):
    """one object, then very many, then one more"""
    p = c.p
    for n in edges():
        s = Sc()
        env = make(None, s, p)
        a = make(env, s, p)
        use(s, p, a, env)
        r = s.h = s.h + 1
        t = Sc()
        t.h = r - 1
        b = make(env, t, p)
        again(s, n, t.l[-1].split())
        s.h = max(s.h, t.h)
        z = make(env, s, p)
        use(s, p, z, env)
        use(s, p, a, env)
        use(s, p, b, env)
        o.add('made', s)


def f_C01(c, o):
    often_key(c, o, ['b_enc'])


def f_C02(c, o):
    often_key(c, o, ['b_dec', 'b_fwd', 'b_bwd'])


def f_C03(c, o):
    p = c.p
    mid, big = counts(p)
    for op in ('nib', 'byte', 'r3412', 'tabs'):
        s = Sc()
        h = s.mk('sb_r3412') if op == 'r3412' else s.mk('sb_' + op, hx({'nib': p.pi, 'byte': lambda: p.bytes(64), 'tabs': lambda: tabs(p)}[op]()))
        t = s.mk('sb_tw', h)
        again(s, big, ['sb_use', h, '%08x' % p.word()])
        again(s, big, ['sb_use', t, '%08x' % p.word()])
        s.op('sb_use', h, '%08x' % p.word())
        s.op('sb_use', t, '%08x' % p.word())
        o.add('often', s)


def f_C04(c, o):
    p = c.p
    mid, big = counts(p)
    for kind in KINDS:
        s = Sc()
        k = mkey(s, p, kind)
        for n in (mid, big):
            again(s, n, ['k_use', k, '%08x' % p.word(), p.r.randrange(8)])
        for i in range(8):
            s.op('k_use', k, '%08x' % p.word(), i)
        o.add('often', s)

    def make(env, s, p):
        return 0 if env is None else s.mk('k_str', htext(p.keyhex()))

    def use(s, p, k, env):
        for i in (0, 7, p.r.randrange(8)):
            s.op('k_use', k, '%08x' % p.word(), i)
        s.op('b_val', s.mk('b_enc', s.mk('b_raw', 'lh', hx(p.block())), k))
    often_made(c, o, make, use)


def f_C06(c, o):
    p = c.p
    mid, big = counts(p)
    for kind in ('str', 'data', 'qd'):
        s = Sc()
        k = qkey(s, p, kind)
        raw = s.mk('qb_raw', 'lh', hx(p.block(16)))
        for x in (s.mk('qb_enc', raw, k), s.mk('qb_kenc', raw, k)):
            again(s, mid, ['qb_val', x])
        r = s.h = s.h + 1
        again(s, mid, ['qb_enc', r, raw, k])
        s.op('qb_val', r)
        for f in ('qb_s', 'qb_r'):
            again(s, big, ['qb_val', s.mk(f, raw)])
        again(s, mid, ['qb_val', s.mk('qb_l', raw)])
        s.op('qb_val', s.mk('qb_enc', s.mk('qb_raw', 'lh', hx(p.block(16))), k))
        o.add('often', s)


def f_C07(c, o):
    p = c.p

    def make(env, s, p):
        return (s.mk('qb_raw', 'lh', hx(p.block(16))),) if env is None else s.mk('qk_str', htext(p.keyhex()))

    def use(s, p, k, env):
        s.op('qb_val', s.mk('qb_kenc', env[0], k))
    often_made(c, o, make, use)


def f_C08(c, o):
    p = c.p
    mid, big = counts(p)
    for q, n in (('', 8), ('q', 16)):
        s = Sc()
        a, b = (s.mk(q + 'b_raw', 'lh', hx(p.block(n))) for _ in range(2))
        xs = [a, s.mk(q + 'b_shl', a, p.r.randrange(n * 8)), s.mk(q + 'b_xor', 2, a, b), s.mk(q + 'b_str', htext(hx(p.bytes(n))))]
        xs.append(s.mk('qb_inc', a) if q else s.mk('b_swap', a))
        for x in xs:
            again(s, big, [q + 'b_val', x])
        r = s.h = s.h + 1
        again(s, big, [q + 'b_raw', r, 'lh', hx(p.block(n))])
        for x in xs + [r]:
            s.op(q + 'b_val', x)
        o.add('often', s)


def often_sink(c, o, kinds):
    p = c.p
    mid, big = counts(p)
    for kind in kinds:
        s = Sc()
        k = mkey(s, p, 'strsb', None, s.mk('sb_con', '%08x' % p.word()))
        z, _ = layer(s, p, kind, s.mk('s_mem'), k)
        y = s.write(z, p.msg(16))
        m = p.msg(16 if 'ecb' in kind else 11)
        for x in (z, y):
            r = s.h = s.h + 1
            again(s, mid, ['drop', r], ['s_write', x, r, hx(m)])
            s.fin(s.write(r, p.msg(8)))
        r = s.h = s.h + 1
        again(s, mid, ['drop', r], ['s_write', z, r, '-'])
        s.fin(s.write(r, m))
        r = s.h = s.h + 1
        again(s, mid, ['drop', r], ['s_fin', y, r])
        s.fin(s.write(y, m))
        o.add('often', s)


def often_source(c, o, kinds):
    p = c.p
    mid, big = counts(p)
    for kind in kinds:
        s = Sc()
        k = mkey(s, p, p.r.choice(KINDS))
        z, _ = unlayer(s, p, kind, src(s, p.msg(48), []), k)
        y = s.read(z, 16)
        for x in (z, y):
            r = s.h = s.h + 1
            again(s, big // 2 if p.r.random() < .5 else big, ['c_read', x, r, p.r.choice([8, 9, 17])])
            s.read(s.read(r, 8), -1)
        r = s.read(z, -1)
        again(s, mid, ['c_read', r, s.h + 1, 8])
        s.h += 1
        s.read(y, -1)
        o.add('often', s)


def f_C09(c, o):
    often_sink(c, o, ['cfb', 'cfb89'])


def f_C10(c, o):
    often_source(c, o, ['cfb', 'cfb89'])


def f_C12(c, o):
    often_sink(c, o, ['ecb'])
    often_source(c, o, ['ecb'])


def f_C13(c, o):
    p = c.p
    mid, big = counts(p)
    for kind in KINDS:
        s = Sc()
        k = mkey(s, p, kind)
        a, b = src(s, p.msg(8), []), src(s, p.msg(24), [])
        again(s, big if kind in ('str', 'env') else mid, ['mac', a, k])
        again(s, mid, ['mac', b, k], ['mac', a, k])
        x = s.mk('b_mac', b, k)
        again(s, mid, ['b_val', x])
        for z in (a, b):
            s.op('mac', z, k)
        o.add('often', s)


def f_C14(c, o):
    p = c.p
    mid, big = counts(p)
    for kind in KINDS:
        s = Sc()
        k = mkey(s, p, kind)
        d, e = s.mk('di_new', k, hx(p.msg(8))), s.mk('di_new', k, hx(p.msg(21)))
        again(s, big, ['di_val', d])
        again(s, mid, ['di_val', e], ['di_val', d])
        x = s.mk('b_imit', s.mk('b_raw', 'lh', hx(p.block())), k)
        again(s, mid, ['b_val', x])
        s.op('di_val', s.mk('di_new', k, hx(p.msg(30))))
        o.add('often', s)


def f_C15(c, o):
    p = c.p
    mid, big = counts(p)
    for kind in ('str', 'data', 'qd'):
        s = Sc()
        k = qkey(s, p, kind)
        a, b = s.mk('t_mem', hx(p.bytes(16))), s.mk('t_mem', hx(p.bytes(48)))
        again(s, mid, ['t_mac', a, k], ['t_mac', b, k])
        x = s.mk('qb_mac', b, k)
        again(s, mid, ['qb_val', x])
        s.op('t_mac', s.mk('t_mem', hx(p.bytes(32))), k)
        o.add('often', s)


def f_C16(c, o):
    p = c.p
    mid, big = counts(p)
    for kind in ('str', 'data', 'qd'):
        s = Sc()
        k = qkey(s, p, kind)
        t = s.mk('t_ctr', s.mk('t_mem', hx(p.bytes(48))), k, hx(p.block()))
        i = s.mk('i_iter', t)
        j = s.mk('i_next', i)
        again(s, mid, ['i_val', j])
        for x in (i, j):
            r = s.h = s.h + 1
            again(s, big, ['i_next', r, x], ['i_last', r], ['i_size', r])
            s.op('i_val', r)
        r = s.h = s.h + 1
        again(s, big, ['i_iter', r, t])
        s.op('i_val', r)
        s.op('i_val', s.mk('i_next', j))
        o.add('often', s)


def f_C17(c, o):
    p = c.p
    mid, big = counts(p)
    for n in (1, 3, 4):
        s = Sc()
        t = s.mk('t_mem', hx(p.bytes(16 * n - 8 * (n % 2))))
        i = s.mk('i_iter', t)
        r = s.h = s.h + 1
        again(s, big, ['i_iter', r, t], ['i_val', r])
        again(s, big, ['i_val', i], ['i_last', i], ['i_size', i])
        r = s.h = s.h + 1
        again(s, big, ['i_next', r, i])
        if n > 1:
            s.op('i_val', r)
            s.mk('i_next', r)
        s.op('i_val', i)
        o.add('often', s)


def f_C18(c, o):
    p = c.p
    mid, big = counts(p)
    # one thing of each kind, very many others made, used and let go, and the first again
    for i in range(c.n(6)):
        s = Sc()
        b, q, m, iv = p.block(), p.block(16), p.msg(19), (p.block(8), p.block(8))
        raw, qraw, src0, sb = s.mk('b_raw', 'lh', hx(b)), s.mk('qb_raw', 'lh', hx(q)), src(s, m, []), s.mk('sb_r3412')
        k, qk = mkey(s, p, KINDS[i % 5]), qkey(s, p, ['str', 'data', 'qd'][i % 3])
        e, d = s.mk('b_enc', raw, k), s.mk('b_dec', raw, k)
        x, _ = layer(s, p, 'cfb', s.mk('s_mem'), k, iv)
        y, _ = unlayer(s, p, 'cfb', src0, k, iv)
        y1 = s.read(y, 9)
        qe = s.mk('qb_enc', qraw, qk)
        t = s.mk('t_ctr', s.mk('t_mem', hx(p.bytes(32))), qk, hx(iv[0]))
        it = s.mk('i_iter', t)
        x1 = s.write(x, m)

        def look():
            for h in (e, d):
                s.op('b_val', h)
            s.op('qb_val', qe)
            s.op('i_val', it)
            s.read(y1, -1)
            s.fin(s.write(x1, b))
            s.op('mac', src0, k)
            s.op('t_mac', t, qk)
        look()
        r = s.h + 1
        s.h += 12
        again(s, p.r.choice([mid, 2 * mid + 3]), ['k_str', r, htext(p.keyhex())], ['b_enc', r + 1, raw, r], ['b_val', r + 1],
              ['mac', src0, r], ['c_cfb', r + 2, src0, r, hx(iv[0]), hx(iv[1])], ['c_read', r + 2, r + 3, 8],
              ['qk_str', r + 4, htext(p.keyhex())], ['qb_enc', r + 5, qraw, r + 4], ['qb_val', r + 5], ['b_val', e],
              ['t_ctr', r + 6, t, r + 4, hx(iv[1])], ['i_iter', r + 7, r + 6], ['i_val', r + 7],
              *[['drop', r + j] for j in p.r.sample(range(8), 8)])
        look()
        o.add('often', s)
    # very many alive at once
    for i in range(c.n(3)):
        s = Sc()
        raw = s.mk('b_raw', 'lh', hx(p.block()))
        sb = s.mk('sb_con', '%08x' % p.word())
        ks = [s.mk('k_nat', sb, wlist([p.word() for _ in range(8)])) for _ in range(270)]
        if i == 0:
            xs = [s.mk('b_enc', raw, k) for k in ks]
            for h in p.r.sample(xs, len(xs)):
                s.op('b_val', h)
        elif i == 1:
            xs = [s.write(layer(s, p, p.r.choice(['cfb', 'cfb89']), s.mk('s_mem'), k)[0], p.bytes(9)) for k in ks[:180]]
            for h in p.r.sample(xs, len(xs)):
                s.fin(h)
        else:
            z = src(s, p.msg(24), [])
            xs = [unlayer(s, p, p.r.choice(['cfb', 'cfb89']), z, k)[0] for k in ks]
            ys = [s.read(h, 8) for h in xs]
            for h in p.r.sample(ys, len(ys)):
                s.read(h, 20)
        o.add('crowd', s)


def f_C19(c, o):
    p = c.p
    mid, big = counts(p)
    for vary in (0, 1):
        s = Sc()
        k = s.mk('kd_cache', s.mk('kd_env', vary, wlist([p.word() for _ in range(8)])))
        q = s.mk('qb_cache', s.mk('qb_env', vary, hx(p.block(16))))
        for n in (mid, big):
            again(s, n, ['kd_use', k, p.r.randrange(8)])
            again(s, n, ['qb_val', q])
        again(s, mid, *[['kd_use', k, i] for i in range(8)])
        o.add('often', s)
        # a failure, very many times
        s = Sc()
        k = s.mk('kd_cache', s.mk('kd_env', vary, wlist([p.word() for _ in range(8)])))
        q = s.mk('qb_cache', s.mk('qb_env', vary, hx(p.block(16))))
        again(s, mid, ['fuse', 1, 0], ['qb_val', q])
        again(s, mid, ['fuse', 1, 0], ['kd_use', k, 5])
        s.op('fuse', 0)
        for i in list(range(8)) * 2:
            s.op('kd_use', k, i)
        s.op('qb_val', q)
        s.op('qb_val', q)
        o.add('failures', s)


def f_C20(c, o):
    # many threads at once, and very many after one another
    p = c.p
    for name in ('kd', 'qb', 'mkey', 'qkey', 'st', 'snk'):
        s = Sc()
        use = gens.shared_objects(s, p, name)
        b = gens.Par(s, 'free')
        for t in range(1, 41):
            use(b, t, 1)
        b.end()
        o.add('free-crowd-' + name, s)
        s = Sc()
        use = gens.shared_objects(s, p, name)
        hs = {}
        for _ in range(90):
            b = gens.Par(s, 'free')
            b.h = hs
            for t in range(1, 4):
                use(b, t, 1)
            b.end()
        o.add('free-turns-' + name, s)


def f_C21(c, o):
    p = c.p
    mid, big = counts(p)
    for kind in KINDS:
        s = Sc()
        k = mkey(s, p, kind)
        m, iv = p.msg(24), (p.block(8), p.block(8))
        x, _ = layer(s, p, 'cfb', s.mk('s_mem'), k, iv)
        x1 = s.write(x, m)
        z = src(s, m, [])
        y, _ = unlayer(s, p, 'cfb', z, k, iv)
        r = s.h = s.h + 1
        again(s, mid, ['fuse', 1, 0], ['s_write', x1, r, hx(p.msg(16))])
        again(s, mid, ['fuse', 1, 0], ['c_read', y, r, 16])
        again(s, mid, ['fuse', 1, 0], ['mac', z, k])
        s.op('fuse', 0)
        s.fin(s.write(x1, m))
        s.read(s.read(y, 16), -1)
        s.op('mac', z, k)
        o.add('failures', s)


def more_often(c, o):
    f = globals().get('f_' + c.tag)
    if f:
        own, c.p = c.p, Pool(c.seed, c.tag + '/often')
        f(c, o)
        c.p = own
