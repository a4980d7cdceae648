#!/usr/bin/env python3
"""Writes kani/src/c51.rs (data enums) and c52.rs (unit-only enums): declarations drawn with a fixed
seed, each with the contract of combo_enum.rs."""
import random, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rnd = random.Random(11)
HEAD = '''//! Generated by tools/gen_enums.py: %s, each with the contract of combo_enum.rs.
use crate::combo_enum::*;
use crate::ghost::*;
use binread::BinRead;
'''
EN = ['', 'big', 'little']
N = 'NONE'
def data(n):
    nv = rnd.choice([1, 2, 2, 3, 3, 4])
    T = 'D%02d' % n
    unitless = True
    emag = rnd.choice([N, N, N, 3])
    epre = rnd.choice([N, N, 0])
    een = rnd.choice([0, 0, 1, 2])
    mode = rnd.choice(['', '', 'return_all_errors', 'return_unexpected_error'])
    vs, decl, arms, tags = [], [], [], set()
    kinds = [rnd.choice(['tuple', 'named', 'named', 'unit', 'tuple']) for _ in range(nv)]
    if all(k == 'unit' for k in kinds):
        kinds[-1] = 'tuple'
    easr = N if 'unit' in kinds else rnd.choice([N, N, 1])
    for i, k in enumerate(kinds):
        name = rnd.choice(['A', 'Bee', 'C', 'Delta', 'r#Type'][i:i + 1])
        mag = rnd.choice([N, 0, 1, 2, 4]) if emag == N else N
        pre = rnd.choice([N, N, 2, 3])
        asr = rnd.choice([N, N, 4, 5]) if k != 'unit' else N
        cus = asr != N and rnd.random() < .4
        ven = rnd.choice([0, 0, 1, 2]) if k != 'unit' else 0
        nf = 0 if k == 'unit' else rnd.choice([1, 1, 2])
        fas = rnd.choice([N, N, 3]) if nf else N
        arg = nf > 0 and rnd.random() < .3
        tri = nf > 0 and rnd.random() < .25
        ds = []
        if mag != N: ds.append('magic = %du8' % mag)
        if ven: ds.append(EN[ven])
        if pre != N: ds.append('pre_assert(q.k[%d])' % pre)
        if asr != N: ds.append('assert(q.k[%d]%s)' % (asr, ', Me(%d)' % i if cus else ''))
        rnd.shuffle(ds)
        fs = []
        for j in range(nf):
            fd = []
            t = 'E<%d>' % (10 * i + j)
            if j == 0:
                if arg:
                    t = 'A<%d>' % (10 * i); fd.append('args(q.arg)')
                if tri:
                    t = 'Option<%s>' % t; fd.append('try')
                if fas != N: fd.append('assert(q.k[%d])' % fas)
            rnd.shuffle(fd)
            fs.append(('#[br(%s)] ' % ', '.join(fd) if fd else '', t))
        body = '' if k == 'unit' else '(%s)' % ', '.join(a + t for a, t in fs) if k == 'tuple' else ' { %s }' % ', '.join('%sf%d: %s' % (a, j, t) for j, (a, t) in enumerate(fs))
        decl.append('    %s%s%s,' % ('#[br(%s)]\n    ' % ', '.join(ds) if ds else '', name, body))
        x0 = ('x.as_ref().map_or(0xDEAD, |x| x.0)' if tri else 'x.0') if nf else '0'
        pat = '' if k == 'unit' else '(%s)' % ', '.join(['x', 'y'][:nf]) if k == 'tuple' else ' { %s }' % ', '.join('f%d: %s' % (j, 'xy'[j]) for j in range(nf))
        arms.append('%s::%s%s => (%d, [%s, %s])' % (T, name, pat, i, x0, 'y.0' if nf > 1 else '0'))
        vs.append('Va { name: "%s", n: %d, magic: %s, pre: %s, asr: %s, cus: %s, en: %d, fas: %s, arg: %s, tri: %s }' % (name.replace('r#', ''), nf, mag, pre, asr, str(cus).lower(), ven, fas, str(arg).lower(), str(tri).lower()))
        if mag != N: tags.add('mag')
        if pre != N or asr != N or fas != N: tags.add('asr')
    td = ['import(q: K)'] + ([mode] if mode else [])
    if emag != N: td.append('magic = %du8' % emag); tags.add('mag')
    if epre != N: td.append('pre_assert(q.k[%d])' % epre); tags.add('asr')
    if easr != N: td.append('assert(q.k[%d])' % easr); tags.add('asr')
    if een: td.append(EN[een])
    rnd.shuffle(td)
    d = '#[derive(BinRead)]\n#[br(%s)]\nenum %s {\n%s\n}' % (', '.join(td), T, '\n'.join(decl))
    h = '    e%02d_%s [10] { data_enum::<%s>(En { magic: %s, pre: %s, asr: %s, en: %d, all: %s, va: &[\n        %s,\n    ] }, |e: &%s| match e { %s }) }' % (
        n, '_'.join(['d'] + sorted(tags)), T, emag, epre, easr, een, 'false' if mode == 'return_unexpected_error' else 'true', ',\n        '.join(vs), T, ', '.join(arms))
    return d, h
INTS = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'u128': 16, 'i128': 16}
def unit(n):
    T = 'U%02d' % n
    repr_ = rnd.random() < .55
    ts = list(INTS)[:8] if repr_ else list(INTS)[:8] + ['b2', 'b4', 'char', 'b1']
    t = ts[n % len(ts)] if n < 24 else rnd.choice(ts)
    size = INTS.get(t) or {'b1': 1, 'b2': 2, 'b4': 4, 'char': 1}[t]
    nv = rnd.choice([1, 2, 3, 4, 5])
    emag = rnd.choice([N, N, 3]) if size < 16 else N
    epre = N
    een = rnd.choice([0, 0, 1, 2])
    bits = 8 * size
    def pick():
        s = t.startswith('i')
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if s else (0, (1 << bits) - 1)
        return rnd.choice([lo, hi, 0, 1, 2, 7, -1 if s else hi - 1, rnd.randint(lo, hi), rnd.randint(lo, hi), rnd.randint(lo, hi)])
    decl, vs, arms, used = [], [], [], set()
    prev = None
    for i in range(nv):
        name = ['A', 'B', 'C', 'D', 'E'][i]
        ds = []
        p1 = rnd.choice([N, N, 1, 2]); p2 = rnd.choice([N, N, N, 3])
        if repr_:
            s = t.startswith('i')
            lim = ((1 << (bits - 1)) - 1) if s else (1 << bits) - 1
            if rnd.random() < .35 and (prev is None or prev < lim) and (0 if prev is None else prev + 1) not in used:
                v = 0 if prev is None else prev + 1
                disc = ''
            else:
                while True:
                    v = pick()
                    if v not in used and -(1 << 63) <= v < (1 << 63): break
                disc = ' = %d' % v
            prev = v
            used.add(v)
        else:
            disc = ''
            if t in INTS:
                v = pick() if rnd.random() < .8 or not used else rnd.choice(sorted(used))
                lit = '%d%s' % (v, t) if v >= 0 else None
                if lit is None:
                    v = abs(v) if abs(v) < (1 << (bits - 1)) else 5
                    lit = '%d%s' % (v, t)
                used.add(v)
            elif t == 'char':
                v = rnd.choice(b'aZ0~'); lit = "'%s'" % chr(v)
            else:
                bs = bytes(rnd.choice(b'ab\x01xyZ') for _ in range(size))
                v = int.from_bytes(bs, 'little')
                lit = ('b"%s"' % ''.join('\\x%02x' % c if c < 32 else chr(c) for c in bs)) if t != 'b1' else "b'%s'" % ('\\x%02x' % bs[0] if bs[0] < 32 else chr(bs[0]))
            ds.append('magic = ' + lit)
        if p1 != N: ds.append('pre_assert(q.k[%d])' % p1)
        if p2 != N: ds.append('pre_assert(q.k[%d])' % p2)
        decl.append('    %s%s%s,' % ('#[br(%s)]\n    ' % ', '.join(ds) if ds else '', name, disc))
        vs.append('(%d, %s, %s)' % (v % (1 << bits), p1, p2))
        arms.append('%s::%s => %d' % (T, name, i))
    td = ['import(q: K)'] + (['repr = ' + t] if repr_ else [])
    if emag != N: td.append('magic = %du8' % emag)
    if epre != N: td.append('pre_assert(q.k[%d])' % epre)
    if een: td.append(EN[een])
    rnd.shuffle(td)
    rr = '#[repr(%s)]\n' % t if repr_ and size in (1, 2, 4, 8) else ''
    d = '#[derive(BinRead)]\n%s#[br(%s)]\nenum %s {\n%s\n}' % (rr, ', '.join(td), T, '\n'.join(decl))
    tags = (['mag'] if emag != N else []) + (['asr'] if epre != N else [])
    h = '    u%02d_%s [10] { unit_enum::<%s>(Un { size: %d, bytes: %s, magic: %s, pre: %s, en: %d, va: &[%s] }, |e: &%s| match e { %s }) }' % (
        n, '_'.join([('repr_' if repr_ else 'magic_') + t] + tags), T, size, 'true' if t in ('b1', 'b2', 'b4', 'char') else 'false', emag, epre, een, ', '.join(vs), T, ', '.join(arms))
    return d, h
for fn, what, mk, k in (('c51', 'data enums that combine the directives of variants', data, 48), ('c52', 'unit-only enums', unit, 48)):
    out = [HEAD % what]; hs = []
    for i in range(k):
        d, h = mk(i)
        out.append(d); hs.append(h)
    out += ['\ncrate::contracts! { TAB;'] + hs + ['}']
    open(os.path.join(V, 'kani/src/%s.rs' % fn), 'w').write('\n'.join(out) + '\n')
