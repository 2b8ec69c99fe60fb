#!/usr/bin/env python3
"""Decide one property: extract the real code, splice the contracts in, let Verus discharge every
obligation, replay the executable contracts against the real crate, judge, write the evidence."""
import sys, os, json, re, subprocess, time, hashlib, fnmatch, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VX_REPO', '/repo')
BUILD = os.environ.get('VX_BUILD', os.path.join(VERIF, '.build'))
TC = '1.98.1-x86_64-unknown-linux-gnu'
RUSTFLAGS = '--warn=semicolon_in_expressions_from_macros'
BUDGET = 780.0
T0 = time.time()


def left(): return BUDGET - (time.time() - T0)


def env(tc):
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN=tc, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUSTFLAGS=RUSTFLAGS, RUST_BACKTRACE='0')
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:' + e.get('PATH', '')
    e.pop('CARGO_TARGET_DIR', None)
    return e


def log(*a): print('[check]', *a, flush=True)


def run(cmd, tc=TC, cwd=None, extra=None, timeout=None, out=None):
    e = env(tc)
    e.update(extra or {})
    to = timeout if timeout is not None else max(5, left())
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=open(out, 'w') if out else subprocess.PIPE, stderr=subprocess.PIPE, timeout=to, text=True, errors='replace')
        return p.returncode, p.stdout or '', p.stderr
    except subprocess.TimeoutExpired as x:
        return -9, '', 'timed out after %.0f s' % to


def build_vx():
    rc, _, err = run(['cargo', 'build', '--offline', '--quiet'], tc='stable-x86_64-unknown-linux-gnu', cwd=VERIF + '/vx', extra={'CARGO_TARGET_DIR': BUILD + '/vx', 'RUSTFLAGS': ''})
    if rc: raise RuntimeError('cannot build vx: ' + err[-2000:])
    return BUILD + '/vx/debug/vx'


def expand():
    b = BUILD + '/ver'
    os.makedirs(b, exist_ok=True)
    # force cargo to re-run the expansion
    rc, _, err = run(['cargo', 'rustc', '--offline', '-p', 'ferrous-chloride', '--lib', '--profile', 'check', '-v', '--', '-Zunpretty=expanded,hygiene'],
                     cwd=REPO + '/lib', extra={'RUSTC_BOOTSTRAP': '1', 'CARGO_TARGET_DIR': b + '/deps'}, out=b + '/x.rs')
    open(b + '/x.err', 'w').write(err)
    if rc: return None, err
    ext = None
    for l in err.split('\n'):
        if '--crate-name ferrous_chloride' in l:
            ext = re.findall(r'--extern \S+', l)
    if not ext: return None, 'no rustc line for the crate in cargo output'
    if os.path.getsize(b + '/x.rs') < 1000:
        return None, 'expansion is empty'
    return b, [w for x in ext for w in x.split()]


class Map:
    def __init__(self, p):
        self.fns, self.lost, self.unres, self.rew, self.prelude = {}, [], [], {}, []
        self.items = ''
        for l in open(p) if p else []:
            f = l.rstrip('\n').split('\t')
            if f[0] == 'fn': self.fns[f[1]] = dict(kind=f[2], a=int(f[3]), b=int(f[4]), shape=f[5], hash=f[6], calls=f[7] if len(f) > 7 else '', lits=f[8].split(',') if len(f) > 8 and f[8] else [])
            elif f[0] == 'items': self.items = f[1]
            elif f[0] == 'prelude': self.prelude.append((f[1], int(f[2]), int(f[3])))
            elif f[0] == 'lost': self.lost.append(f[1])
            elif f[0] == 'unresolved': self.unres.append(f[1])
            elif f[0] == 'rewrite': self.rew[f[1]] = int(f[2])

    def at(self, line):
        best = None
        for n, f in self.fns.items():
            # two functions may share a line, the end of one and the start of the next: the latter is meant
            if f['a'] <= line <= f['b'] and (best is None or self.size(f, line) < self.size(self.fns[best], line)): best = n
        return best

    def size(self, f, line): return (f['b'] == line and f['a'] < line, f['b'] - f['a'])


def vx(tool, b, name, demote=(), drop=(), extra=()):
    cmd = [tool, b + '/x.rs', VERIF + '/contracts', f'{b}/{name}.rs', f'{b}/{name}.map']
    if demote: cmd.append('--demote=' + ';'.join(sorted(demote)))
    if drop: cmd.append('--drop=' + ';'.join(sorted(drop)))
    rc, o, e = run(cmd + list(extra))
    if rc: raise RuntimeError('vx: ' + (o + e)[-2000:])
    return Map(f'{b}/{name}.map')


RL = 60


def verus(b, name, ext, mods=None, extra=()):
    cmd = ['verus', '--crate-type', 'lib', '--edition', '2018', '-L', 'dependency=' + b + '/deps/debug/deps'] + ext + \
          ['--cfg', 'feature="serde"', name + '.rs', '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '8', '--rlimit', str(RL), '--no-trait-conflicts', '--multiple-errors', '3']
    for m in mods or []: cmd += ['--verify-module', m] if m else ['--verify-root']
    cmd += list(extra)
    t = time.time()
    rc, o, e = run(cmd, cwd=b, extra={'RUSTC_BOOTSTRAP': '1'})
    r = dict(rc=rc, wall=time.time() - t, cmd=' '.join(c if not c.startswith(b) else c for c in cmd), units={}, diags=[], ok=False, smt_ms=0, stderr=e)
    for l in e.split('\n'):
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error': r['diags'].append(d)
    try: j = json.loads(o)
    except ValueError: j = None
    if j:
        v = j.get('verification-results', {})
        r['ok'] = bool(v.get('success'))
        r['verified'], r['errors'] = v.get('verified', 0), v.get('errors', 0)
        r['vir_error'] = v.get('encountered-vir-error', False)
        smt = j.get('times-ms', {}).get('smt', {})
        r['smt_ms'] = smt.get('smt-run', 0)
        for m in smt.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                n = f['function']
                n = n.split('::', 1)[1] if '::' in n else n
                u = r['units'].setdefault(n, dict(n=0, ok=True, ms=0, rlimit=0, mode=f.get('mode:', f.get('mode', ''))))
                u['n'] += 1
                u['ok'] = u['ok'] and f['success']
                u['ms'] += f['time']
                u['rlimit'] += f['rlimit']
        r['ran'] = bool(r['units'])
    else:
        r['ran'] = False
    return r


def primary_lines(d):
    sp = [s for s in d.get('spans', []) if s.get('file_name', '').endswith('.rs') and '/' not in s.get('file_name', '')]
    return [s['line_start'] for s in sp if s.get('is_primary')] + [s['line_start'] for s in sp if not s.get('is_primary')]


VERIF_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'possible arithmetic', 'decreases not satisfied',
              'unable to prove', 'loop invariant', 'could not prove termination', 'possible division', 'constructed value may fail', 'unreachable', 'cannot show', 'ensures not satisfied', 'loop ensures')


def is_verif(d):
    m = d['message'].lower()
    return any(x in m for x in VERIF_MSGS) or ('satisfied' in m)


def is_limit(d):
    m = d['message'].lower()
    return 'rlimit' in m or 'resource limit' in m or 'timed out' in m


def prove(tool, b, ext, cfg, notes):
    """returns dict: status per contracted function, units, etc."""
    demote, drop = set(), set()
    m = None
    for it in range(8):
        m = vx(tool, b, 'v', demote, drop)
        lost_fns = set()
        for l in m.lost:
            f = l.split(':  ')[0]
            f = l.rsplit(': ', 1)[0]
            if f in m.fns and m.fns[f]['kind'] == 'contract' and f not in demote: lost_fns.add(f)
        if lost_fns:
            demote |= lost_fns
            m = vx(tool, b, 'v', demote, drop)
        mods = None
        r = verus(b, 'v', ext, modules(m, cfg))
        if r['ran'] and not r.get('vir_error'): break
        # code or contract outside the accepted language: take those functions out and retry
        bad = set()
        for d in r['diags']:
            if 'aborting due to' in d['message']: continue
            for ln in primary_lines(d):
                f = m.at(ln)
                if f and m.fns[f]['kind'] == 'contract': bad.add(f)
                elif f and m.fns[f]['kind'] == 'trusted': drop.add(f); bad.add(f)
                else: continue
                break
        notes.append('not accepted by the verifier: ' + '; '.join(sorted(bad)) + ' :: ' + ' | '.join(d['message'][:200] for d in r['diags'][:3]))
        if not bad or r['rc'] == -9:
            return dict(m=m, r=r, demote=demote, drop=drop, broken=True, errs=r['diags'][:5])
        demote |= bad
    else:
        return dict(m=m, r=r, demote=demote, drop=drop, broken=True, errs=r['diags'][:5])
    return dict(m=m, r=r, demote=demote, drop=drop, broken=False)


def modules(m, cfg):
    ms = set()
    for f in match_fns(m, cfg):
        p = f.split('::<')[0].split('::')
        ms.add(f)
    out = {'vxp'} | set(cfg.get('modules', []))
    for f in ms:
        # module path: leading lower-case segments
        segs = []
        for s in re.split(r'::(?![^<]*>)', f):
            if not re.match(r'^[a-z_0-9]+$', s): break
            segs.append(s)
        if len(segs) and segs[-1] == re.split(r'::(?![^<]*>)', f)[-1]: segs = segs[:-1]
        out.add('::'.join(segs))
    return sorted(out)


def wanted(n, cfg):
    pos = [p for p in cfg['fns'] if not p.startswith('!')]
    neg = [p[1:] for p in cfg['fns'] if p.startswith('!')]
    return any(fnmatch.fnmatchcase(n, p) for p in pos) and not any(fnmatch.fnmatchcase(n, p) for p in neg)


def match_fns(m, cfg):
    out = []
    for n, f in m.fns.items():
        if f['kind'] != 'plain' and wanted(n, cfg): out.append(n)
    return out


def expected_fns(base, cfg):
    return [n for n, f in base.items() if f['kind'] != 'plain' and wanted(n, cfg)]


def battery(groups, seed, tier):
    bt = BUILD + '/bat'
    man = VERIF + '/battery'
    if REPO != '/repo':
        man = BUILD + '/batsrc'
        shutil.rmtree(man, ignore_errors=True)
        shutil.copytree(VERIF + '/battery', man, ignore=shutil.ignore_patterns('target'))
        t = open(man + '/Cargo.toml').read().replace('/repo/lib', REPO + '/lib')
        open(man + '/Cargo.toml', 'w').write(t)
    rc, o, e = run(['cargo', 'build', '--offline', '--release'], tc='stable-x86_64-unknown-linux-gnu', cwd=man, extra={'CARGO_TARGET_DIR': bt})
    if rc: return dict(built=False, err=e[-3000:])
    exe = bt + '/release/battery'
    res = dict(built=True, evaluations=0, distinct=0, samples=[], failures=[], wall_s=0.0, groups={})

    def one(g):
        out = f'{BUILD}/bat_{g}.json'
        try: os.remove(out)
        except OSError: pass
        to = min(max(20, left()), 420 if tier == 'quick' else 600)
        rc, o, e = run(['prlimit', '--as=%d' % (12 << 30), exe, g, str(seed), tier, out], tc='stable-x86_64-unknown-linux-gnu', timeout=to)
        if os.path.exists(out):
            try: return g, json.load(open(out)), None
            except ValueError: pass
        # the process died: find the input
        tr = f'{BUILD}/bat_{g}.trace'
        rc2, o2, e2 = run(['prlimit', '--as=%d' % (12 << 30), exe, g, str(seed), tier, out, tr], tc='stable-x86_64-unknown-linux-gnu', timeout=to)
        if rc2 != -9 and not os.path.exists(out):
            t = open(tr).read() if os.path.exists(tr) else ''
            site, _, inp = t.partition('\t')
            return g, dict(evaluations=0, distinct=0, samples=[], wall_s=0, failures=[dict(key=site, input=inp, detail='process died: exit status %s' % rc2, count=1)]), None
        return g, None, f'battery {g}: exit {rc} {e[-300:]}'
    if not groups: return res
    with cf.ThreadPoolExecutor(8) as ex:
        for g, j, err in ex.map(one, groups):
            if j is None:
                res.setdefault('errors', []).append(err)
                continue
            res['groups'][g] = dict(evaluations=j['evaluations'], distinct=j['distinct'])
            res['evaluations'] += j['evaluations']
            res['distinct'] += j['distinct']
            res['samples'] += j['samples']
            res['wall_s'] += j.get('wall_s', 0)
            for f in j['failures']:
                f['group'] = g
                res['failures'].append(f)
    return res


def hints(base, m):
    """literals of the functions that differ from the baseline, new ones first: the search below uses them as sizes, keys and characters"""
    changed = [n for n, f in m.fns.items() if n not in base or base[n]['hash'] != f['hash']]
    new, rest = [], []
    for n in changed:
        old = set(base[n]['lits']) if n in base else set()
        for l in m.fns[n]['lits']: (rest if l in old else new).append(l)
    out = []
    for l in new + rest:
        if l not in out: out.append(l)
    return changed, out[:60], len([l for l in out[:60] if l in new])


def hunt(groups, seed, hs, nh, budget):
    """directed search for a failing input after a change the first pass did not refute"""
    exe = BUILD + '/bat/release/battery'
    hps = [BUILD + '/hints.txt', BUILD + '/hints_new.txt']
    open(hps[0], 'w').write('\n'.join(hs) + '\n')
    open(hps[1], 'w').write('\n'.join(hs[:nh] or hs) + '\n')
    jobs = [(g, seed + k) for k in range(1, 13) for g in groups]
    end = time.time() + budget
    res = dict(evaluations=0, failures=[], jobs=0, hints=len(hs))

    def one(j):
        g, s = j
        hp = hps[(s - seed) % 2]
        if time.time() > end or res['failures']: return
        out = f'{BUILD}/hunt_{g}_{s}.json'
        try: os.remove(out)
        except OSError: pass
        run(['prlimit', '--as=%d' % (12 << 30), exe, g, str(s), 'quick', out], tc='stable-x86_64-unknown-linux-gnu', timeout=max(5, end - time.time()), extra={'BAT_HINTS': hp})
        if not os.path.exists(out): return
        try: r = json.load(open(out))
        except ValueError: return
        res['evaluations'] += r['evaluations']
        res['jobs'] += 1
        for f in r['failures']:
            if f['detail'].startswith('no answer'): continue
            f['group'], f['seed'], f['hints'] = g, s, hp
            res['failures'].append(f)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    return res


def known():
    p = VERIF + '/known_findings.txt'
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) input=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out


def trusted_base(m, b, cfg):
    v = open(b + '/v.rs').read().split('\n')
    out = []
    for n, a, z in m.prelude:
        t = '\n'.join(v[a - 1:z])
        for x in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]*(?:\[[^\]]*\])?[^\]]*)\]', t): out.append(f'contract assumed on dependency: {x.group(1).strip()} ({n})')
        for x in re.finditer(r'axiom fn (\w+)', t): out.append(f'axiom {x.group(1)} ({n})')
        for x in re.finditer(r'uninterp spec fn (\w+)', t): out.append(f'uninterpreted {x.group(1)} ({n})')
        for x in re.finditer(r'external_body\]\s*(?:pub )?(?:proof )?(?:fn|struct) (\w+)', t): out.append(f'body not verified: {x.group(1)} ({n})')
        if re.search(r'\b(assume|admit)\s*\(', re.sub(r'//[^\n]*', '', t)): out.append(f'assume/admit in {n}')
    for n, f in m.fns.items():
        if f['kind'] == 'trusted': out.append('trusted contract, body not verified: ' + n)
    return out


def write_replay(pid, tag, body):
    d = BUILD + '/replay'
    os.makedirs(d, exist_ok=True)
    p = f'{d}/{pid}_{tag}.txt'
    open(p, 'w').write(body)
    return p


def main():
    global BUDGET
    pid = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv[2:] else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfgs = json.load(open(VERIF + '/props.json'))
    cfg = cfgs[pid]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    ev_path = f'{VERIF}/evidence/{pid}.json'
    try: os.remove(ev_path)
    except OSError: pass
    notes, viol = [], []
    base = json.load(open(VERIF + '/baseline.json')) if os.path.exists(VERIF + '/baseline.json') else {}
    base_items = base.pop(' items', None)

    ex = cf.ThreadPoolExecutor(2)
    fb = ex.submit(battery, cfg['battery'], seed, tier)
    tool = build_vx()
    b, ext = expand()
    if b is None:
        log('the crate does not compile:', ext[-3000:])
        sys.exit(2)
    try: pr = prove(tool, b, ext, cfg, notes)
    except Exception as e:
        # the extractor cannot read the current source: nothing is established, the bounded replay still speaks
        notes.append('extraction failed: ' + str(e)[-600:])
        pr = dict(m=Map(None), r=dict(units={}, diags=[], smt_ms=0, wall=0, cmd='', rc=-1, ok=False, ran=False, stderr=''), demote=set(), drop=set(), broken=True, errs=[])
    m, r = pr['m'], pr['r']
    fns = match_fns(m, cfg)
    status, fail_diag = {}, {}
    exp = expected_fns(base, cfg)
    for n in exp:
        if n not in m.fns: status[n] = 'lost (function not found)'
        elif m.fns[n]['kind'] == 'plain': status[n] = 'contract not applicable to the current source'
    units = r['units']
    for n in fns:
        f = m.fns[n]
        if pr['broken']: status[n] = 'not run'
        elif n in pr['demote']: status[n] = 'outside the verifier in its current form'
        elif f['kind'] == 'trusted': status[n] = 'trusted'
        else: status[n] = 'proved'
    diag_lemmas = []
    if not pr['broken']:
        for d in r['diags']:
            if 'aborting due to' in d['message']: continue
            fn = None
            for ln in primary_lines(d):
                fn = m.at(ln)
                if fn: break
            if is_limit(d):
                if fn and status.get(fn) == 'proved': status[fn] = 'resource limit'
                continue
            if fn is None:
                diag_lemmas.append(d)
                continue
            if fn in status:
                status[fn] = 'failed'
                fail_diag.setdefault(fn, []).append(d)
        # a unit that failed without a diagnostic is not proved
        for n in fns:
            if status[n] == 'proved':
                u = unit_of(units, n)
                if u and not u['ok']: status[n] = 'resource limit'
    # verdict on failed obligations
    inconclusive = []
    alarm_fns = []
    for n, s in sorted(status.items()):
        if s in ('proved', 'trusted'): continue
        if s == 'failed':
            bf = base.get(n)
            f = m.fns[n]
            same_shape = bf and bf['shape'] == f['shape'] and bf['calls'] == f['calls']
            # neither this function nor any type, constant or header changed: the contracts it relies on are fixed text,
            # so the refusal says something about the solver, not about the code
            if same_shape and bf['hash'] == f['hash'] and base_items == m.items: same_shape = False
            if same_shape: alarm_fns.append(n)
            else: inconclusive.append(n)
        else: inconclusive.append(n)
    bat = fb.result()
    hunted = None
    changed, hs, nh = hints(base, m) if m.fns else (['(extraction failed)'], [], 0)
    if bat.get('built') and not bat['failures'] and changed and left() > 200:
        hunted = hunt(cfg['battery'], seed, hs, nh, min(150, left() - 120))
        bat['failures'] += hunted.pop('failures')
        hunted['changed_functions'] = changed[:30]
    kn = known()
    findings_seen = set()
    if bat.get('built'):
        for f in bat['failures']:
            hit = None
            for (kp, kk, ki, kt) in kn:
                if kp == pid and kk == f['key'] and (ki == '*' or json.loads('"' + ki + '"') == f['input']): hit = (kp, kk, kt)
            if hit:
                if hit not in findings_seen:
                    findings_seen.add(hit)
                    print(f'KNOWN-FINDING: property={pid} {hit[2]}')
                continue
            viol.append(('battery', f))
    ob = dis = 0
    counted = set()
    for n in fns:
        if m.fns[n]['kind'] != 'contract': continue
        us = [u for u in unit_names(units, n) if u not in counted]
        counted |= set(us)
        k = max(1, sum(units[u]['n'] for u in us))
        ob += k
        if status[n] == 'proved': dis += k
    lem_ob = lem_ok = 0
    for n, u in units.items():
        if n.startswith('vxp::'):
            lem_ob += u['n']
            if u['ok']: lem_ok += u['n']
    vac = None
    if tier == 'thorough' and not pr['broken'] and left() > 120:
        vx(tool, b, 'vac', pr['demote'], pr['drop'], ['--vacuity'])
        rv = verus(b, 'vac', ext, modules(m, cfg))
        vu = rv['units']
        bad = [n for n in fns if m.fns[n]['kind'] == 'contract' and status[n] == 'proved' and unit_of(vu, n) and unit_of(vu, n)['ok']]
        vac = dict(functions=len([n for n in fns if m.fns[n]['kind'] == 'contract']), vacuous=bad)
        for n in bad:
            status[n] = 'vacuous'
            inconclusive.append(n)
    proved = [n for n in fns if status[n] == 'proved']
    tb = trusted_base(m, b, cfg)
    assumptions = list(cfg.get('assumptions', [])) + [
        'extraction: rustc -Zunpretty=expanded,hygiene of the current tree, then vx; rewrites applied this run: ' + json.dumps(m.rew),
        'machine integers are checked by the verifier as machine integers (overflow is an obligation); Seq<char> is the view of str',
        'rustc, Verus, vstd and Z3 are trusted; logging macro calls are dropped; stack depth and running time are not modelled'] + notes
    coverage = dict(obligations=ob + lem_ob, discharged=dis + lem_ok, checker_cmd=r.get('cmd', ''), trusted_base=tb,
                    functions_under_contract={n: status[n] for n in sorted(status)}, function_obligations=ob, function_obligations_discharged=dis, lemma_obligations=lem_ob, lemma_obligations_discharged=lem_ok,
                    backend='Verus 0.2026.09.13 / Z3', solver_ms=r.get('smt_ms', 0), verifier_wall_s=round(r.get('wall', 0), 2),
                    bounded_replay=dict(label='bounded, not counted as proved', groups=bat.get('groups', {}), evaluations=bat.get('evaluations', 0), distinct_nontrivial=bat.get('distinct', 0), samples=bat.get('samples', [])[:8], errors=bat.get('errors', []), built=bat.get('built', False)),
                    evaluations=bat.get('evaluations', 0), distinct_nontrivial=bat.get('distinct', 0),
                    rule='inputs enumerated over small alphabets plus seeded random concatenations; non-trivial = the contract prescribes a successful result', samples=bat.get('samples', [])[:4])
    if vac is not None: coverage['vacuity_guard'] = vac
    if hunted: coverage['directed_search'] = hunted
    if inconclusive: coverage['not_established_this_run'] = inconclusive
    if diag_lemmas: log(f'{len(diag_lemmas)} lemma(s) not discharged: ' + diag_lemmas[0]['rendered'][:300])
    if diag_lemmas: coverage['lemma_errors'] = [d['rendered'][:500] for d in diag_lemmas[:3]]
    rc = 0
    if viol:
        f = viol[0][1]
        rp = write_replay(pid, 'input', 'property %s\nexecutable contract violated by the real code\n\n' % pid + '\n\n'.join(
            'site: %s\ninput (JSON string): %s\n%s\nfailing cases at this site: %s' % (x['key'], json.dumps(x['input']), x['detail'], x.get('count')) for _, x in viol) +
            '\n\nreplay: %s%s/bat/release/battery %s %d %s\n' % ('BAT_HINTS=%s ' % f['hints'] if 'hints' in f else '', BUILD, f['group'], f.get('seed', seed), 'quick' if 'hints' in f else tier) +
            ''.join('\nfailed obligation in %s:\n%s\n' % (n, '\n'.join(d['rendered'] for d in fail_diag[n][:3])) for n in fail_diag))
        print(f'site {f["key"]} input {json.dumps(f["input"][:300])}: {f["detail"][:600]}')
        print(f'VIOLATION property={pid} replay={rp}')
        rc = 1
    elif alarm_fns:
        body = 'property %s\nthe verifier rejects the following obligations of the current source\n' % pid
        for n in alarm_fns:
            body += f'\nfunction {n}\n' + '\n'.join(d['rendered'] for d in fail_diag[n][:5])
        body += '\nno failing input was found by the bounded replay (%s cases)\n' % bat.get('evaluations')
        rp = write_replay(pid, 'obligation', body)
        for n in alarm_fns: print('failed obligation:', n, '-', '; '.join(d['message'] for d in fail_diag[n][:3]))
        print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        rc = 1
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get('level', 'proof'), coverage=coverage, wall_s=round(time.time() - T0, 2), assumptions=assumptions, violations=len(viol) + len(alarm_fns))
    json.dump(ev, open(ev_path, 'w'), indent=1, ensure_ascii=False)
    log(f'{pid}: functions proved {len(proved)}/{len([n for n in status])}, obligations {dis}/{ob} (+{lem_ok}/{lem_ob} lemma), battery {bat.get("evaluations")} cases, {time.time()-T0:.1f} s')
    for n in inconclusive: log('  not established:', n, status[n])
    for n in notes: log('  note:', n[:600])
    if not bat.get('built'): log('  battery did not build:', bat.get('err', '')[-1500:])
    if bat.get('errors'): log('  battery:', bat['errors'])
    if '--baseline' in sys.argv: pass
    sys.exit(rc)


def unit_names(units, n):
    # Verus names impl methods with an `impl&%k` segment: match the trailing name inside the module
    if n in units: return [n]
    segs = re.split(r'::(?![^<]*>)', n)
    if len(segs) < 2: return []
    mod = '::'.join(segs[:-2])
    rx = re.compile('^' + re.escape(mod + '::' if mod else '') + r'impl&%\d+::' + re.escape(segs[-1]) + '$')
    return [u for u in units if rx.match(u)]


def unit_of(units, n):
    us = [units[u] for u in unit_names(units, n)]
    if not us: return None
    return dict(n=sum(u['n'] for u in us), ok=all(u['ok'] for u in us), ms=sum(u['ms'] for u in us))


def baseline():
    tool = build_vx()
    b, ext = expand()
    m = vx(tool, b, 'v')
    json.dump({' items': m.items, **{n: dict(kind=f['kind'], shape=f['shape'], hash=f['hash'], calls=f['calls'], lits=f['lits']) for n, f in sorted(m.fns.items())}}, open(VERIF + '/baseline.json', 'w'), indent=0)
    print('lost:', m.lost, 'unresolved:', m.unres)


def setup():
    os.makedirs(BUILD, exist_ok=True)
    build_vx()
    b, ext = expand()
    if b is None: log('the crate does not compile: ' + ext[-2000:])
    r = battery([], 1, 'quick')
    log('setup done, battery built:', r.get('built'))


if __name__ == '__main__':
    if sys.argv[1] == 'baseline': baseline()
    elif sys.argv[1] == 'setup': setup()
    else: main()
