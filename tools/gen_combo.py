#!/usr/bin/env python3
"""Writes kani/src/c50.rs: declarations that combine field directives so that every triple of
directive values that can occur together occurs in some declaration (greedy covering, fixed seed)."""
import itertools, random, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIMS = dict(
    mode=['N', 'NA', 'NT', 'PW', 'PWA', 'CALC', 'DEF'],
    en=[0, 1, 2, 3, 4], cnt=[0, 1], off=[0, 1], offa=[0, 1], now=[0, 1, 2], mag=[0, 1, 2],
    sb=[0, 1, 2], pb=[0, 1], ab=[0, 4, 3], sz=[0, 1], pa=[0, 1], aa=[0, 8], cond=[0, 1, 2],
    map=[0, 1, 2], tri=[0, 1], asr=[0, 1, 2, 3], rp=[0, 1], temp=[0, 1], zarg=[0, 1],
    sen=[0, 1, 2], smag=[0, 1], spre=[0, 1], sas=[0, 1], shape=[0, 1, 2, 3])
K = list(DIMS)
def ok(d):
    """d may be partial"""
    g = lambda k: d.get(k)
    if g('mode') in ('CALC', 'DEF'):
        if any(g(k) for k in ('en', 'cnt', 'off', 'offa', 'now', 'mag')):
            return False
    if g('offa') and g('now'):
        return False
    if g('mag') and (g('cond') or g('rp')):
        return False
    if g('mode') == 'CALC' and g('tri') and g('map'):
        return True
    return True
def full_ok(d):
    return ok(d)
def main():
    rnd = random.Random(7)
    need = set()
    for a, b, c in itertools.combinations(range(len(K)), 3):
        for x in DIMS[K[a]]:
            for y in DIMS[K[b]]:
                for z in DIMS[K[c]]:
                    if ok({K[a]: x, K[b]: y, K[c]: z}):
                        need.add((a, x, b, y, c, z))
    rows = []
    def trips(r):
        for a, b, c in itertools.combinations(range(len(K)), 3):
            yield (a, r[K[a]], b, r[K[b]], c, r[K[c]])
    total = len(need)
    N = int(os.environ.get('N', '110'))
    while need and len(rows) < N:
        best = None
        order = sorted(need, key=repr)
        for _ in range(40):
            s = rnd.choice(order)
            r = {K[s[0]]: s[1], K[s[2]]: s[3], K[s[4]]: s[5]}
            if not ok(r):
                continue
            ks = [k for k in K if k not in r]
            rnd.shuffle(ks)
            for k in ks:
                vs = [v for v in DIMS[k] if ok(dict(r, **{k: v}))]
                r[k] = rnd.choice(vs)
            sc = sum(1 for t in trips(r) if t in need)
            if best is None or sc > best[0]:
                best = (sc, r)
        rows.append(best[1])
        need -= set(trips(best[1]))
    print('rows', len(rows), 'triples', total, 'left', len(need))
    out = ['''//! Generated by tools/gen_combo.py: declarations that combine the directives (%d of the %d triples
//! of directive values that can occur together), each with the contract of combo.rs.
use crate::combo::*;
use crate::ghost::*;
use crate::shim::*;
use binread::{derive_binread, io::SeekFrom, BinRead};
''' % (total - len(need), total)]
    harn = []
    EN = ['', 'big', 'little', 'is_big = q.%s', 'is_little = q.%s']
    for n, r in enumerate(rows):
        tup = r['shape'] == 1
        A, B = ('self_0', 'self_1') if tup else ('a', 'b')
        m = r['mode']
        base = {'N': 'E<1>', 'NA': 'A<1>', 'NT': 'A<1>', 'PW': 'u32', 'PWA': 'u32', 'CALC': 'u32', 'DEF': 'E<1>'}[m]
        wrap = {'E<1>': 'E(%s)', 'A<1>': 'A(%s)', 'u32': '%s'}
        pre = 'Option<%s>' % base if r['tri'] else base
        ty = 'u32' if r['map'] else pre
        ds = []
        if r['en']: ds.append(EN[r['en']] % 'big' if r['en'] > 2 else EN[r['en']])
        if r['cnt']: ds.append('count = q.cnt')
        if r['off']: ds.append('offset = q.off')
        if r['offa']: ds.append('offset_after = q.offa')
        if r['now']: ds.append(['', 'deref_now', 'postprocess_now'][r['now']])
        if r['mag']: ds.append('magic = ' + ['', '7u8', '0x0102u16'][r['mag']])
        if r['sb']: ds.append('seek_before = ' + ['', 'SeekFrom::Start(q.to)', 'SeekFrom::Current(q.rel)'][r['sb']])
        if r['pb']: ds.append('pad_before = q.pb')
        if r['ab']: ds.append('align_before = %d' % r['ab'])
        if r['sz']: ds.append('pad_size_to = q.sz')
        if r['pa']: ds.append('pad_after = q.pa')
        if r['aa']: ds.append('align_after = %d' % r['aa'])
        if r['cond'] == 1: ds.append('if(q.c)')
        if r['cond'] == 2:
            alt = 'q.alt'
            if ty != 'u32':
                alt = wrap[base] % alt
                if r['tri']: alt = 'Some(%s)' % alt
            ds.append('if(q.c, %s)' % alt)
        if m in ('NA', 'PWA'): ds.append('args(q.arg ^ %s.v().1)' % A)
        if m == 'NT': ds.append('args_tuple = (q.arg,)')
        if m == 'PW': ds.append('parse_with = parser::<_, 1>')
        if m == 'PWA': ds.append('parse_with = parser_a::<_, 1>')
        if m == 'CALC': ds.append('calc = %s.v().1 ^ q.arg' % A)
        if m == 'DEF': ds.append(['default', 'ignore'][n % 2])
        if r['tri']: ds.append('try')
        if r['map'] == 1: ds.append('map = |x: %s| %s' % (pre, 'mapo(x)' if r['tri'] else 'mapf(x.v().1)'))
        if r['map'] == 2: ds.append('try_map = |x: %s| %s' % (pre, 'if q.tm { Ok(mapo(x)) } else { Err(Me(0)) }' if r['tri'] else 'tmapf(x.v().1, &q)'))
        if r['asr'] & 1: ds.append('assert(q.k0)' if n % 2 else 'assert(q.k0, "k0")')
        if r['asr'] & 2: ds.append('assert(q.k1, Me(1))')
        if r['rp']: ds.append('restore_position')
        if r['temp']: ds.append('temp')
        rnd.shuffle(ds)
        ia = [i for i, x in enumerate(ds) if x.startswith('assert(')]
        for i, x in zip(ia, sorted(ds[i] for i in ia)):
            ds[i] = x
        sd = []
        if r['sen']: sd.append(EN[r['sen']] % 'sbig' if r['sen'] > 2 else EN[r['sen']])
        if r['smag']: sd.append('magic = 9u8')
        if r['spre']: sd.append('pre_assert(q.k3)')
        if r['sas']: sd.append('assert(q.k2)')
        rnd.shuffle(sd)
        zt = 'A<2>' if r['zarg'] else 'E<2>'
        za = '#[br(args(%s.v().1 ^ q.arg))] ' % B if r['zarg'] else ''
        bd = '#[br(%s)] ' % ', '.join(ds) if ds else ''
        T = 'X%03d' % n
        if tup:
            body = '(E<0>, %s%s, %s%s)' % (bd, ty, za, zt)
            get = '(x.0.0, %s, x.%d.0)' % ('(true, 0)' if r['temp'] else 'x.1.v()', 1 if r['temp'] else 2)
        else:
            body = '{\n    a: E<0>,\n    %sb: %s,\n    %sz: %s,\n}' % (bd, ty, za, zt)
            get = '(%s.0, %s, %s.0)' % (('a', '(true, 0)' if r['temp'] else 'b.v()', 'z') if r['shape'] > 1 else ('x.a', '(true, 0)' if r['temp'] else 'x.b.v()', 'x.z'))
        out.append('#[derive_binread]' if r['temp'] else '#[derive(BinRead)]')
        if r['shape'] < 2:
            out.append('#[br(%s)]' % ', '.join(['import(q: Par)'] + sd))
            out.append('struct %s%s%s' % (T, '' if tup else ' ', body + (';' if tup else '')))
            f = '|x: &%s| %s' % (T, get)
        else:
            out.append('#[br(%s)]' % ', '.join(['import(q: Par)'] + (['return_unexpected_error'] if r['shape'] == 3 else [])))
            out.append('enum %s {%s\n    V %s,\n}' % (T, ' #[br(%s)]' % ', '.join(sd) if sd else '', body.replace('\n', '\n    ')))
            f = '|x: &%s| match x { %s::V { a, %sz } => %s }' % (T, T, '' if r['temp'] else 'b, ', get)
        b = lambda k: 'true' if r[k] else 'false'
        mode = {'N': 'NORMAL', 'NA': 'ARGS', 'NT': 'TUPLE', 'PW': 'PARSER', 'PWA': 'PARSERA', 'CALC': 'CALC', 'DEF': 'DEFAULT'}[m]
        spec = 'F { mode: %s, en: %d, cnt: %s, off: %s, offa: %s, now: %s, mag: %d, sb: %d, pb: %s, ab: %d, sz: %s, pa: %s, aa: %d, cond: %d, map: %d, tri: %s, asr: %d, rp: %s, temp: %s, zarg: %s, sen: %d, smag: %d, spre: %s, sas: %s, shape: %d }' % (
            mode, r['en'], b('cnt'), b('off'), b('offa'), b('now'), r['mag'], r['sb'], b('pb'), r['ab'], b('sz'), b('pa'), r['aa'], r['cond'], r['map'], b('tri'), r['asr'], b('rp'), b('temp'), b('zarg'), r['sen'], r['smag'], b('spre'), b('sas'), r['shape'])
        tags = [m.lower()]
        if r['en'] or r['sen'] or r['cnt'] or r['off']: tags.append('opt')
        if r['mag'] or r['smag']: tags.append('mag')
        if any(r[k] for k in ('sb', 'pb', 'ab', 'sz', 'pa', 'aa', 'rp')): tags.append('pos')
        if r['cond'] or r['tri']: tags.append('cond')
        if r['map']: tags.append('map')
        if r['asr'] or r['spre'] or r['sas']: tags.append('asr')
        if m in ('N', 'NA', 'NT') and not r['map']: tags.append('post')
        harn.append('    x%03d_%s [10] { combo::<%s>(%s, %s) }' % (n, '_'.join(tags), T, spec, f))
    out.append('\ncrate::contracts! { TAB;')
    out += harn
    out.append('}')
    open(os.path.join(V, 'kani/src/c50.rs'), 'w').write('\n'.join(out) + '\n')
main()
