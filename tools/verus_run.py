"""Deductive layer: extract the functions from /repo, put contracts on them, let Verus decide.

For each unit: the extractor (extract/) prints the body of the function as it stands in /repo; the
contract of verus_units.py goes on top; loop invariants are inferred by dropping every candidate
Verus does not prove (Houdini), so nothing that is not proved is assumed. What then still fails is
a failed obligation.
"""
import json, os, re, subprocess, sys, time, itertools
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXT = os.path.join(V, 'extract')
BUILD = os.path.join(V, '.build')
sys.path.insert(0, os.path.join(V, 'tools'))
from verus_units import UNITS, ATTR


def extract(units, run, out, alt=False):
    """{name: dict(params, loops, consts, body) | dict(error)}"""
    tgt = os.environ.get('EXT_TGT') or os.path.join(BUILD, 'extract')
    rc, o = run(['cargo', 'build', '--offline', '--release', '--target-dir', tgt], EXT, 300, 30)
    if rc != 0:
        return {u: dict(error='the extractor does not build: ' + o[-300:]) for u in units}
    req = os.path.join(out, 'extract-%d%d.req' % (os.getpid(), alt))
    open(req, 'w').write(''.join('\t'.join([u, UNITS[u]['file'], UNITS[u]['feats'], UNITS[u]['loc']]) + '\n' for u in units))
    rc, o = run([os.path.join(tgt, 'release', 'extract'), req] + (['unguard'] if alt else []), V, 60, 30)
    os.remove(req)
    res = {}
    for blk in re.split(r'^@@ ', o, flags=re.M)[1:]:
        name, _, rest = blk.partition('\n')
        d = dict(params=[], loops=[], consts=[])
        head, _, body = rest.partition('\nbody\n')
        for l in head.split('\n'):
            if l.startswith('error '):
                d['error'] = l[6:]
            elif l.startswith('params'):
                d['params'] = l.split()[1:]
            elif l.startswith('muts'):
                d['muts'] = l.split()[1:]
            elif l.startswith('loop\t'):
                v, i, o2, c, e, b = l.split('\t')[1:7]
                f = lambda x: [y for y in x.split(',') if y]
                d['loops'].append(dict(vecs=f(v), others=f(i) + f(o2), counter=c, end=e, breaks=b == '1'))
            elif l.startswith('const '):
                d['consts'].append(l[6:])
        d['body'] = body.strip()
        res[name] = d
    for u in units:
        res.setdefault(u, dict(error='no extraction: ' + o[-300:]))
    return res


def candidates(tpls, lp):
    out = []
    for t in tpls:
        dom = []
        keys = [k for k in ('$V', '$W', '$L', '$I', '$E', '$P', '$Q') if k in t]
        for k in keys:
            dom.append({'$V': lp['vecs'], '$W': lp['vecs'], '$L': lp['others'] + lp['vecs'], '$I': ([lp['counter']] if lp['counter'] else lp['others']), '$E': [lp['end']] if lp['end'] else [], '$P': ['g_l%d' % lp['k']], '$Q': ['g_a%d' % lp['k']]}[k])
        for c in itertools.product(*dom):
            m = dict(zip(keys, c))
            if '$V' in m and '$W' in m and m['$V'] == m['$W']:
                continue
            s = t
            for k, v in m.items():
                s = s.replace(k, v)
            out.append(s)
    return list(dict.fromkeys(out))


def subst(t, params):
    return re.sub(r'\$(\d)', lambda m: params[int(m.group(1))], t)


def build(u, ex, dropped, vacuity=False):
    """(text, {line: candidate key})"""
    P = ex['params']
    pre, post = open(os.path.join(V, 'verus', u['prelude'])).read().split('//@BODY')
    pre = pre.replace('//@HOLES', u.get('holes', ''))
    body = ex['body']
    cand = {}
    if u.get('selfty'):
        body = re.sub(r'\bSelf\b', u['selfty'], body)
    head = ''.join(re.sub(r'^(pub )?const', 'pub const', c) + '\n' for c in ex['consts'])
    spec = subst(u['spec'], P)
    if vacuity:
        spec = spec[:spec.index('ensures')] + 'ensures false'
    head += ATTR + subst(u['sig'], P) + '\n' + spec + '\n{\n' + subst(u.get('pro', ''), P)
    if u.get('unitbody'):
        body = body.rstrip()[:-1] + '; Ok(()) }'
    if u.get('valbody'):
        body = body.rstrip()[:-1] + '; Ok(%s) }' % u['valbody']
    if u.get('epi'):
        body = '    let r__ = ' + body + ';\n' + subst(u['epi'], P) + '    r__\n'
    text = pre + head
    body = re.sub(r'__loop_pre ! \((\d+)\) ;', r'let ghost g_l\1 = READER.tr(); let ghost g_a\1 = READER.at();', body)
    # the loops, in order of appearance
    parts = re.split(r'\{ __loop_marker ! \((\d+)\) ;', body)
    text += parts[0]
    for i in range(1, len(parts), 2):
        k = int(parts[i])
        lp = dict(ex['loops'][k], k=k)
        cs = candidates([subst(t, P) for t in u['inv']], lp)
        for sect in (('invariant_except_break', 'ensures') if lp['breaks'] else ('invariant',)):
            n = 0
            for c in cs:
                key = (k, sect, c)
                if key in dropped:
                    continue
                if n == 0:
                    text += '\n        ' + sect
                n += 1
                text += '\n'
                cand[text.count('\n') + 1] = key
                text += '          ' + c + ','
        text += '\n        {' + parts[i + 1]
    text += '\n}\n' + post
    return text, cand


def verus(path, run, timeout):
    t = time.time()
    rc, o = run(['verus', path, '--triggers-mode', 'silent', '--multiple-errors', '40', '--error-format=json', '--rlimit', '60', '--output-json', '--time'], os.path.dirname(path), timeout, 24)
    return rc, o, time.time() - t


def diags(o):
    out = []
    for l in o.splitlines():
        if l.startswith('{') and '"$message_type"' in l:
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error':
                out.append(d)
    return out


def summary(o):
    m = re.search(r'"verified": (\d+),\s*"errors": (\d+)', o)
    s = re.search(r'"total-verify": (\d+)', o)
    return (int(m.group(1)), int(m.group(2))) if m else None, (int(s.group(1)) / 1000.0 if s else 0.0)


def decide(name, ex, out, run, timeout=200):
    u = UNITS[name]
    r = dict(unit=name, function='%s: %s' % (u['file'].replace('/repo/', ''), u['loc']), claim=u['what'], status='', iterations=0, solver_s=0.0)
    if 'error' in ex:
        r.update(status='undecided', why=ex['error'])
        return r
    want = u['nparams'] if 'nparams' in u else len(set(re.findall(r'\$(\d)', u['sig'])))
    if len(ex['params']) != want:
        r.update(status='undecided', why='the function takes %d parameters, the contract is for %d' % (len(ex['params']), want))
        return r
    dropped = set()
    path = os.path.join(out, 'verus_%s.rs' % name)
    t0 = time.time()
    while True:
        text, cand = build(u, ex, dropped)
        open(path, 'w').write(text)
        rc, o, dt = verus(path, run, max(20, timeout - (time.time() - t0)))
        r['iterations'] += 1
        sm, smt = summary(o)
        r['solver_s'] = round(r['solver_s'] + smt, 2)
        if rc is None:
            r.update(status='undecided', why='Verus did not finish')
            return r
        ds = diags(o)
        if rc == 0 and not ds:
            inv = [c for c in cand.values()]
            # the same proof must not go through for `false`
            text, _ = build(u, ex, dropped, True)
            p2 = path[:-3] + '_guard.rs'
            open(p2, 'w').write(text)
            rc, o, dt = verus(p2, run, 60)
            sm2, smt = summary(o)
            if rc == 0 or sm2 is None or sm2[1] == 0:
                r.update(status='undecided', why='vacuity guard: `false` was not refuted')
                return r
            r.update(status='proved', verified=sm[0] if sm else 0, obligations=1 + len(inv), invariants=['loop %d, %s: %s' % (k, s, c) for k, s, c in inv])
            return r
        hit = set()
        for d in ds:
            for sp in d['spans']:
                for ln in range(sp['line_start'], sp['line_end'] + 1):
                    if ln in cand and (sp.get('is_primary', True) or sm is None) or (ln in cand and ('invariant' in (sp.get('label') or '') or 'invariant' in d['message'])):
                        hit.add(cand[ln])
        if not hit:
            msgs = []
            soft = sm is not None and sm[1] > 0
            for d in ds:
                if d['message'].startswith('aborting'):
                    continue
                where = '; '.join('%s: %s' % (sp.get('label') or '', ' '.join(x['text'].strip() for x in sp['text'])[:300]) for sp in d['spans'])
                msgs.append(d['message'] + (' [%s]' % where if where else ''))
            if not soft or any(re.search(r'rlimit|not supported|unsupported|Could not automatically', m) for m in msgs):
                r.update(status='undecided', why='beyond the verifier: ' + ' | '.join(msgs)[:600] + ('' if msgs else o[-300:]))
            else:
                r.update(status='failed', why=' | '.join(msgs)[:1500], output='\n'.join(d.get('rendered') or '' for d in ds))
            return r
        dropped |= hit
        if time.time() - t0 > timeout or r['iterations'] > 40:
            r.update(status='undecided', why='invariant inference did not finish')
            return r


def run_units(pid, names, tier, out, run):
    import concurrent.futures as cf
    exs = extract(names, run, out)
    lim = 90 if tier == 'quick' else 300
    with cf.ThreadPoolExecutor(6) as p:
        rs = list(p.map(lambda n: decide(n, exs[n], out, run, lim), names))
        bad = [n for n, r in zip(names, rs) if r['status'] != 'proved' and 'error' not in exs[n]]
        if bad:
            # the same code with match guards turned into conditions: the verifier loses track of
            # mutable references across some guards
            ex2 = extract(bad, run, out, True)
            bad = [n for n in bad if ex2[n].get('body') != exs[n]['body']]
            alt = dict(zip(bad, p.map(lambda n: decide(n, ex2[n], out, run, lim), bad)))
            rs = [alt[r['unit']] if alt.get(r['unit'], {}).get('status') == 'proved' else r for r in rs]
    ok = [r for r in rs if r['status'] == 'proved']
    return dict(
        obligations=sum(r.get('obligations', 1) for r in rs), discharged=sum(r['obligations'] for r in ok),
        solver_s=sum(r['solver_s'] for r in rs), functions=[r['function'] for r in ok],
        undecided=[(r['unit'], r['why']) for r in rs if r['status'] == 'undecided'],
        failed=[(r['unit'], r['why'], r.get('output', '')) for r in rs if r['status'] == 'failed'],
        cmd='extract <requests> && verus out/verus_<unit>.rs', trusted=['Verus / Z3', 'the extraction rules of extract/ (DESIGN.md)', 'the callee contracts in verus/*.rs'],
        report=rs)


if __name__ == '__main__':
    import run as R
    out = '/tmp/vxout'
    os.makedirs(out, exist_ok=True)
    names = [n for n in UNITS if not sys.argv[1:] or any(re.search(a, n) for a in sys.argv[1:])]
    d = run_units('X', names, 'quick', out, R.run)
    for r in d['report']:
        print(r['unit'], r['status'], r['iterations'], r['solver_s'], r.get('verified'), (r.get('why') or '')[:1200])
