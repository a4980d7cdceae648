#!/usr/bin/env python3
"""Decide one property: run.py CNN [quick|thorough]

Exit 0: every obligation the verifiers generated from /repo's current source was discharged (or
nothing was found where a proof was out of reach; the evidence file then says so). Exit 1 with a
VIOLATION line otherwise.
"""
import json, os, re, subprocess, sys, time, resource, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = os.path.join(V, 'kani')
BUILD = os.path.join(V, '.build')
OUT = os.path.join(V, 'out')
EVID = os.path.join(V, 'evidence')
sys.path.insert(0, os.path.join(V, 'tools'))
from config import CONFIG, ASSUME, TRUSTED
TAG = re.compile(r'OBLIGATION\[(C\d\d)\] (.*)')
FATAL = ('assertion', 'arithmetic_overflow', 'division-by-zero', 'overflow', 'bounds', 'array_bounds', 'undefined-shift', 'enum-range-check', 'unreachable', 'safety_check', 'finish')
UNDEC = ('unwind', 'unsupported_construct', 'recursion', 'missing_definition', 'reachability_check')
T0 = time.time()
MODS = set()


def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('RUSTFLAGS', None)
    e.pop('RUSTUP_TOOLCHAIN', None)
    e.pop('CARGO_TARGET_DIR', None)
    e.pop('CARGO_BUILD_TARGET_DIR', None)
    return e


def limit(gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


def run(cmd, cwd, timeout, gb=18):
    """(rc or None on timeout, output)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors='replace', preexec_fn=limit(gb))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def harness_table():
    """{module: [(name, tier, owner)]} from the harness sources"""
    t = {}
    src = os.path.join(KANI, 'src')
    for f in sorted(os.listdir(src)):
        m = re.match(r'(c\d\d\w*)\.rs$', f)
        if not m:
            continue
        text = open(os.path.join(src, f)).read()
        l = []
        for h in re.finditer(r'^    (?:#\[cfg\([^\n]*\)\] )?(?:/\*(\w+)\*/ )?(\w+) \[(\d+)\] \{', text, re.M):
            l.append((h.group(2), h.group(1) or 'quick'))
        t[m.group(1)] = l
    return t


def mods_of(names):
    return sorted(set(n.split('::')[-2] for n in names))


def broken_mods(out):
    """the contract modules a failing build complains about"""
    return set(m for b in re.split(r'\n(?=error|warning)', out) if b.startswith('error') for m in re.findall(r'--> src/(c\d\d)\.rs', re.sub(r'src/combo(_enum)?\.rs', lambda m: 'src/c51.rs --> src/c52.rs' if m.group(1) else 'src/c50.rs --> src/c51.rs --> src/c52.rs', b)))


def kani_cmd(feats, cfg, names, tdir, extra):
    c = ['cargo', 'kani', '--lib', '--target-dir', tdir, '-Z', 'stubbing', '-Z', 'unstable-options', '--no-default-features']
    c += ['--features', ','.join(list(feats) + mods_of(names))]
    for n in names:
        c += ['--harness', n]
    return c + ['--exact'] + extra


class Result:
    def __init__(self):
        self.obligations = self.discharged = self.covers = 0
        self.harn = {}      # name -> dict
        self.failed = []    # (harness, feats, desc, location, category)
        self.undecided = [] # (harness, feats, why)
        self.bounded = []
        self.functions = set()
        self.tagged = set()
        self.solver_s = 0.0
        self.cmds = []
        self.notes = []


def owner_of(h):
    return 'C' + re.search(r'(?:^|::)c(\d\d)', h).group(1)


def classify(pid, h, chk):
    """Does a failed check belong to property `pid`? -> 'fail' | 'undecided' | None"""
    m = TAG.search(chk['description'])
    if m:
        return 'fail' if m.group(1) == pid or CONFIG[pid].get('relational') else None
    cat = chk.get('category', '')
    if cat in UNDEC or 'unwinding assertion' in chk['description'] or 'not currently supported' in chk['description']:
        return 'undecided'
    if 'is not stubbed' in chk['description'] or 'undefined function' in chk['description']:
        return 'undecided'
    # a panic or an overflow while the contract promises a result
    return 'fail' if owner_of(h) == pid or pid == 'C21' or CONFIG[pid].get('relational') else None


def run_kani(pid, group, names, R, tier):
    feats = group['features']
    tdir = os.path.join(BUILD, 'kani-' + ('_'.join(feats) or 'none'))
    js = os.path.join(OUT, '%s-%s.json' % (pid, '_'.join(feats) or 'none'))
    if os.path.exists(js):
        os.remove(js)
    ht = group.get('timeout', 240 if tier == 'quick' else 900)
    budget = max(60, (700 if tier == 'quick' else 7200) - (time.time() - T0))
    cmd = kani_cmd(feats, group, names, tdir, ['--output-format', 'terse', '-j', '8', '--export-json', js,
                   '--harness-timeout', '%ds' % ht])
    R.cmds.append('cd kani && ' + ' '.join(cmd[:cmd.index('--exact')])[:600] + ' ...')
    rc, out = run(cmd, KANI, budget)
    if not os.path.exists(js) and rc is not None:
        # contracts that no longer compile against the current tree must not take the others along
        bad = broken_mods(out)
        lost = [n for n in names if n.split('::')[-2] in bad]
        for n in lost:
            R.undecided.append((n, feats, 'the contract does not compile against the current tree'))
        names = [n for n in names if n not in lost]
        if lost and names:
            cmd = kani_cmd(feats, group, names, tdir, cmd[cmd.index('--exact') + 1:])
            rc, out2 = run(cmd, KANI, max(60, budget - (time.time() - T0)))
            out += out2
        elif lost:
            return
    log = os.path.join(OUT, '%s-%s.log' % (pid, '_'.join(feats) or 'none'))
    open(log, 'w').write(out)
    if not os.path.exists(js):
        why = 'verifier run did not finish' if rc is None else 'the harness crate does not build against the current tree'
        for n in names:
            R.undecided.append((n, feats, why + ': ' + ' | '.join([l for l in out.splitlines() if l.startswith('error')][:3])))
        return
    d = json.load(open(js))
    for r in d['verification_results']['results']:
        for c in r.get('checks') or []:
            # asserts inside macros are described by their source text
            m = re.match(r'concat!\s*\(\s*"OBLIGATION\[",\s*"(C\d\d)",\s*"\] ",\s*"(.*)"\s*\)$', c['description'], re.S)
            if m:
                c['description'] = 'OBLIGATION[%s] %s' % m.groups()
    seen = set()
    stats = {c['harness_id']: c.get('cbmc_metadata', c).get('cbmc_stats', c.get('cbmc_stats', {})) or {} for c in d.get('cbmc', []) if 'harness_id' in c}
    bounded = set(group.get('bounded', ()))
    for r in d['verification_results']['results']:
        h = r['harness_id']
        seen.add(h)
        checks = r.get('checks') or []
        n = ok = cov = 0
        und = []
        nfail = 0
        for c in checks:
            st, cat = c['status'].lower(), c.get('category', '')
            if cat == 'cover' or st in ('satisfied', 'unsatisfiable'):
                cov += 1
                if st != 'satisfied':
                    und.append('vacuity guard not satisfied: ' + c['description'])
                continue
            if st == 'unreachable':
                continue
            fn = c.get('function') or ''
            loc = (c.get('location') or {}).get('file') or ''
            if '/repo/' in loc or 'binread' in fn:
                R.functions.add(re.sub(r'\{closure#\d+\}', '{closure}', fn.split('::<')[0]))
            m = TAG.search(c['description'])
            if m and m.group(1) != pid and not CONFIG[pid].get('relational'):
                if st != 'success':
                    R.notes.append('%s: an obligation of %s is not discharged here: %s' % (h, m.group(1), m.group(2)))
                continue
            n += 1
            if m:
                R.tagged.add(m.group(2))
            if st == 'success':
                ok += 1
            elif st in ('failure', 'failed'):
                k = classify(pid, h, c)
                if k == 'fail':
                    nfail += 1
                    R.failed.append((h, feats, c['description'], '%s:%s' % (loc, (c.get('location') or {}).get('line', '?')), cat))
                elif k == 'undecided':
                    und.append(c['description'])
                else:
                    R.notes.append('%s: not discharged, belongs to another property: %s' % (h, c['description']))
            else:
                und.append('%s: %s' % (st, c['description']))
        if not checks:
            und.append('no result (timeout or solver failure)')
        elif cov == 0 or n == 0:
            und.append('vacuous: no reachability check or no obligation')
        # failing unwinding assertions make undetermined everything else; a real failure stays real
        if und and not nfail:
            R.undecided.append((h, feats, '; '.join(sorted(set(und), key=lambda x: (x.startswith('undetermined'), x))[:3])))
        sv = float(stats.get(h, {}).get('runtime_decision_procedure_s', 0) or 0)
        R.solver_s += sv
        R.obligations += n
        R.discharged += ok
        R.covers += cov
        R.harn[h + ('' if feats == ['std'] else ' [%s]' % ','.join(feats))] = dict(obligations=n, discharged=ok, solver_s=round(sv, 2), wall_s=round(r.get('duration_ms', 0) / 1000, 1))
    for n in names:
        if n not in seen:
            R.undecided.append((n, feats, 'harness not run'))


NATIVE = {}


def build_native(feats):
    """(path of the runner or None, output): the contracts of this property's modules, natively"""
    key = tuple(feats)
    if key in NATIVE:
        return NATIVE[key]
    tdir = os.path.join(BUILD, 'native-' + ('_'.join(feats) or 'none'))
    mods = set(MODS)
    for _ in range(3):
        c = ['cargo', 'build', '--offline', '--release', '--bin', 'native', '--target-dir', tdir, '--no-default-features', '--features', ','.join(list(feats) + sorted(mods))]
        rc, out = run(c, KANI, 400, 30)
        bad = broken_mods(out) & mods
        if rc == 0 or not bad:
            break
        mods -= bad
    NATIVE[key] = (os.path.join(tdir, 'release', 'native') if rc == 0 else None, out)
    return NATIVE[key]


def match_fail(pid, h, msg):
    m = TAG.search(msg)
    if CONFIG[pid].get('relational'):
        return True
    if m:
        return m.group(1) == pid
    return owner_of(h) == pid or pid == 'C21'


def counterexample(pid, h, feats, tdir):
    """list of candidate value lists from the verifier"""
    cmd = kani_cmd(feats, {}, [h], tdir, ['--output-format', 'regular', '-Z', 'concrete-playback', '--concrete-playback=print',
                   '--no-slice-formula', '--harness-timeout', '200s'])
    rc, out = run(cmd, KANI, 220)
    c = []
    for blk in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
        vals = [re.findall(r'\d+', v) for v in re.findall(r'^\s*vec!\[([^\]]*)\]', blk, re.M)]
        c.append(' '.join(''.join('%02x' % int(b) for b in v) for v in vals))
    return c, out


def witness(pid, fails, R, seed, secs):
    """Find a failing input on the compiled code: the verifier's counterexample first, then a
    seeded search over the same contract. -> (path, confirmed)"""
    by = {}
    for f in fails:
        by.setdefault((f[0], tuple(f[1])), []).append(f)
    path = os.path.join(OUT, '%s-replay.txt' % pid)
    head = ['property: %s' % pid]
    for f in fails[:20]:
        head.append('failed-obligation: %s [%s] %s (%s)' % (f[0], ','.join(f[1]), f[2], f[3]))
    body = []
    for (h, feats), fl in list(by.items())[:4]:
        nb, err = build_native(list(feats))
        if nb is None:
            body.append('native build failed: ' + err[-2000:])
            continue
        rc, out = run([nb, 'search', h, str(seed), str(int(secs * 1000))], KANI, secs + 60)
        # the search is cheap; prefer the verifier's own counterexample when it replays
        cands = []
        if time.time() - T0 < 600:
            cands, log = counterexample(pid, h, list(feats), os.path.join(BUILD, 'kani-' + ('_'.join(feats) or 'none')))
        for v in cands:
            tmp = path + '.cand'
            open(tmp, 'w').write('values:' + v + '\n')
            rc2, o2 = run([nb, 'replay', h, tmp], KANI, 60)
            os.remove(tmp)
            if rc2 == 1 and 'REPLAY fail' in o2 and match_fail(pid, h, o2):
                open(path, 'w').write('\n'.join(head + ['harness: ' + h, 'features: ' + ','.join(feats), 'source: verifier counterexample, replayed on the compiled code', o2.strip(), 'values:' + v, 'replay-with: tools/replay.sh ' + path]) + '\n')
                return path, True
        if rc == 1 and 'SEARCH fail' in out and match_fail(pid, h, out):
            open(path, 'w').write('\n'.join(head + ['harness: ' + h, 'features: ' + ','.join(feats), 'source: seeded search over the contract on the compiled code', out.strip(), 'replay-with: tools/replay.sh ' + path]) + '\n')
            return path, True
        body.append('%s: no counterexample replays natively (%d candidates); search: %s' % (h, len(cands), out.strip()[-300:]))
    logs = []
    for f in sorted(os.listdir(OUT)):
        if f.startswith(pid + '-') and f.endswith('.log'):
            logs.append('--- verifier output %s (tail)\n%s' % (f, open(os.path.join(OUT, f)).read()[-6000:]))
    open(path, 'w').write('\n'.join(head + body + logs) + '\n')
    return path, False


def known_findings(pid):
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(C\d\d) harness=(\S+) features=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for d in (BUILD, OUT, EVID):
        os.makedirs(d, exist_ok=True)
    cfg = CONFIG[pid]
    table = harness_table()
    if not cfg.get('relational'):
        os.environ['VP_ONLY'] = pid     # what a native run checks: this property's clauses
    short = {}
    for grp in cfg.get('kani', []):
        MODS.update(grp['modules'])
    for h, _, _ in known_findings(pid):
        MODS.add(h.split('::')[-2])
    R = Result()
    names_all = []
    native_only = []
    vr = None
    if cfg.get('verus'):
        import verus_run
        vr = verus_run.run_units(pid, cfg['verus'], tier, OUT, run)
        R.obligations += vr['obligations']
        R.discharged += vr['discharged']
        R.solver_s += vr['solver_s']
        R.functions |= set(vr['functions'])
        R.undecided += [(u, ['verus'], w) for u, w in vr['undecided']]

    proved = set()
    for grp in cfg.get('kani', []):
        names = []
        if grp.get('quick_only') and tier != 'quick':
            continue
        for mod in grp['modules']:
            for (n, t) in table[mod]:
                if t == 'known' or (t == 'thorough' and tier == 'quick'):
                    continue
                if tier == 'quick' and 'quick' in grp and not re.search(grp['quick'], n):
                    continue
                if 'only' in grp and not re.search(grp['only'], n):
                    continue
                if grp.get('quick_only') and ('%s::%s' % (mod, n), tuple(grp['features'])) in proved:
                    continue
                if t == 'native' or (tier == 'quick' and 'sample' in grp):
                    native_only.append(('%s::%s' % (mod, n), grp['features']))
                    if 'sample' in grp:
                        short['%s::%s' % (mod, n)] = grp['sample']
                    continue
                names.append('%s::%s' % (mod, n))
                proved.add((names[-1], tuple(grp['features'])))
        if tier == 'thorough' or not grp.get('thorough'):
            names_all += [(n, grp['features']) for n in names]
            run_kani(pid, grp, names, R, tier)
    if cfg.get('relational') and R.failed:
        # the same contract without the features: what fails there too is not about the features
        base = Result()
        hs = sorted(set(f[0] for f in R.failed))
        run_kani(pid, dict(features=['std'], modules=[]), hs, base, tier)
        same = set((f[0], f[2]) for f in base.failed)
        bad = set(h for h, _, _ in base.undecided)
        for f in R.failed:
            if (f[0], f[2]) in same or f[0] in bad:
                R.notes.append('%s fails with and without the features: %s' % (f[0], f[2]))
                R.undecided.append((f[0], f[1], 'fails in the same way without the features: not a violation of this property'))
        R.failed = [f for f in R.failed if (f[0], f[2]) not in same and f[0] not in bad]
    violated = False
    line = None
    if R.failed:
        path, confirmed = witness(pid, R.failed, R, seed, 20)
        violated = True
        line = 'VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found')
    searched = {}
    # degraded or thorough: exercise the same contracts natively
    want = [(h, f) for (h, f, _) in R.undecided if f != ['verus']]
    verus_bad = vr and (vr['failed'] or vr['undecided'])
    if tier == 'thorough' or verus_bad:
        want = names_all
    want = want + native_only
    if not violated and want:
        secs = 10 if tier == 'quick' else 60
        nbs = {}
        for h, f in want:
            if tuple(f) not in nbs:
                nbs[tuple(f)] = build_native(list(f))
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            for h, f in dict.fromkeys((h, tuple(f)) for h, f in want):
                nb, err = nbs[f]
                if nb:
                    s = short.get(h, secs) if tier == 'quick' else secs
                    jobs.append((h, f, ex.submit(run, [nb, 'search', h, str(seed), str(int(s * 1000))], KANI, secs + 60)))
                else:
                    R.notes.append('native build failed for features %s' % (f,))
            for h, f, j in jobs:
                rc, out = j.result()
                m = re.search(r'executions=(\d+) nontrivial=(\d+)', out or '')
                if m:
                    searched[h + (' [%s]' % ','.join(f) if f != ('std',) else '')] = [int(m.group(1)), int(m.group(2))]
                if rc == 1 and 'SEARCH fail' in out and cfg.get('relational'):
                    nb0, _ = build_native(['std'])
                    rc0, out0 = run([nb0, 'search', h, str(seed), str(secs * 1000)], KANI, secs + 60) if nb0 else (1, '')
                    if rc0 != 0:
                        continue
                if rc == 1 and 'SEARCH fail' in out and match_fail(pid, h, out) and not violated:
                    path = os.path.join(OUT, '%s-replay.txt' % pid)
                    why = [w for (x, g, w) in R.undecided if x == h]
                    open(path, 'w').write('\n'.join(['property: ' + pid, 'undecided-proof: ' + '; '.join(why), 'harness: ' + h, 'features: ' + ','.join(f), out.strip(), 'replay-with: tools/replay.sh ' + path]) + '\n')
                    violated = True
                    line = 'VIOLATION property=%s replay=%s' % (pid, path)
    if not violated and vr and vr['failed']:
        path = os.path.join(OUT, '%s-replay.txt' % pid)
        open(path, 'w').write('\n'.join(['property: ' + pid] + ['failed-obligation: verus %s: %s' % (u, m) for u, m, _ in vr['failed']] + [o for _, _, o in vr['failed']]) + '\n')
        violated = True
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)

    # known findings: shown on the compiled code each time
    for h, feats, text in known_findings(pid):
        nb, err = build_native(feats.split(','))
        if nb:
            rc, out = run([nb, 'search', h, '1', '300'], KANI, 60)
            if rc == 1 and 'SEARCH fail' in out:
                print('KNOWN-FINDING: property=%s %s' % (pid, text))

    cov = dict(obligations=R.obligations, discharged=R.discharged,
               checker_cmd='; '.join(dict.fromkeys(R.cmds + ([vr['cmd']] if vr else []))),
               trusted_base=TRUSTED + (vr['trusted'] if vr else []),
               reachability_checks=R.covers,
               contract_harnesses=R.harn,
               contract_clauses=sorted(R.tagged),
               functions_under_contract=sorted(f for f in R.functions if f and not re.search(r'std::|alloc::|FromResidual|ghost::|shim::|^<?core::', f))[:400],
               backends=sorted(set((['Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL'] if R.harn else []) + (['Verus 0.2026.09.13 / Z3'] if vr else []))),
               solver_s=round(R.solver_s, 1),
               failed=['%s: %s' % (f[0], f[2]) for f in R.failed],
               undecided=['%s [%s]: %s' % (h, ','.join(f), w) for h, f, w in R.undecided],
               bounded_not_counted_as_unbounded=cfg.get('bounded', []),
               sampled_on_the_compiled_code_not_proved=sorted(set(n for n, _ in native_only)),
               notes=R.notes[:40])
    if vr:
        cov['verus'] = vr['report']
    if searched:
        cov['native_executions'] = searched
    lvl = 'proof' if R.obligations and R.obligations == R.discharged and not R.undecided and not violated else 'other'
    if lvl == 'other':
        cov['explanation'] = 'not every obligation was discharged on this run: see failed/undecided; undecided contracts were exercised on the compiled code with seeded inputs instead'
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=ASSUME + cfg.get('assume', []), wall_s=round(time.time() - T0, 1), violations=1 if violated else 0)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d undecided, %d failed, %.0f s' % (pid, tier, R.obligations, R.discharged, len(R.undecided), len(R.failed), time.time() - T0))
    for h, f, w in R.undecided:
        print('UNDECIDED %s [%s]: %s' % (h, ','.join(f), w[:300]))
    for f in R.failed:
        print('FAILED %s [%s]: %s' % (f[0], ','.join(f[1]), f[2][:300]))
    if violated:
        print(line)
        sys.exit(1)


if __name__ == '__main__':
    main()
